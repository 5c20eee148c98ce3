// Workloads over single NPY files and streams: C01, C06, C14.
#include "common.h"
#include "workloads.h"
#include <algorithm>
#include <fstream>

namespace wl {

namespace {
const char *const PATHS[] = {"/simfs/a.npy", "/simfs/b.npy", "/simfs/dir/c.npy", "d.npy"};

// Opens a file stream over a chosen buffer size.
template <class S> void open_buffered(S &s, std::vector<char> &buf, const std::string &path, std::ios::openmode m) {
  static const std::vector<size_t> sizes = {0, 1, 2, 64, 512, 4096, 65536, 1 << 20};
  size_t k = draw(IO, sizes.size() + 1);
  if (k > 0) {
    buf.resize(sizes[k - 1] + 1);
    s.rdbuf()->pubsetbuf(sizes[k - 1] ? buf.data() : nullptr, (std::streamsize)sizes[k - 1]);
  }
  s.open(path, m | std::ios::binary);
}
} // namespace

// ------------------------------------------------------------------------ C01
void c01() {
  struct File { TSpec t; bool big; };
  std::map<std::string, File> files;
  gen::benign_io();
  pick_piece();
  set_fill((uint8_t)pick(WL, std::vector<unsigned>{0xA5, 0, 0xFF, 0x31}));
  size_t nops = 0;
  for (int step = 0; step < 16; ++step) {
    OpSpan sp;
    size_t k = weighted(WL, {3, 8, 8, 4, 8, 3, 1, 2});
    if (k == 0) break;
    ++nops;
    std::string path = PATHS[draw(WL, 4)];
    if (k == 1 || (k <= 3 && !files.count(path))) { // save to a path
      gen::Cfg gc;
      gc.trailing_nul = false;
      TSpec t = gen::tensor(gc);
      npy::endian_t e = gen::endian();
      unsigned flavor = (unsigned)draw(WL, 3) == 2, spell = (unsigned)draw(WL, 4), how = (unsigned)draw(WL, 4);
      Ptr p;
      std::string what = strf("save %s endian %d to %s", t.brief().c_str(), (int)e, path.c_str());
      expect_ok(attempt("make " + t.brief(), [&] { p = ops::make(t, flavor, how); }), "C01:make", "constructing " + t.brief());
      check_tensor(*p, t, "C01:make", "constructing");
      expect_ok(attempt(what, [&] { p->save(path, e, spell); }), "C01:save-fails", what);
      check_tensor(*p, t, "C01:save-modifies", "after " + what);
      files[path] = {ref::canonical(t), eff_big(e)};
      note_sig(t.dt * 4 + t.fortran * 2 + eff_big(e));
      if (nops == 1) describe("%s, then %d more steps possible", what.c_str(), 15);
    } else if (k == 2) {
      auto &f = files[path];
      unsigned flavor = (unsigned)draw(WL, 3) == 2, spell = (unsigned)draw(WL, 3);
      std::string what = "load " + path;
      Ptr p;
      uint64_t b0 = io_stat.benign;
      expect_ok(attempt(what, [&] { p = ops::load(f.t.dt, path, spell, flavor); }), "C01:load-fails", what + " (" + f.t.brief() + ")");
      check_tensor(*p, f.t, "C01:load-differs", what);
      if (io_stat.benign > b0 || io.r_short == 0) nontrivial();
      if (io_stat.benign > b0) count("probe.load_under_short_or_eintr");
    } else if (k == 3) {
      auto &f = files[path];
      Hdr h;
      expect_ok(attempt("peek " + path, [&] { h = ops::peek(path); }), "C01:peek-fails", "peek " + path);
      check_hdr(h, f.t, f.big, "C01:peek-differs", "peek " + path);
    } else if (k == 4) { // through a caller's stream
      gen::Cfg gc;
      gc.trailing_nul = false;
      TSpec t = gen::tensor(gc), want = ref::canonical(t);
      npy::endian_t e = gen::endian();
      unsigned flavor = (unsigned)draw(WL, 3) == 2, sps = (unsigned)draw(WL, 3), spl = (unsigned)draw(WL, 2), fl2 = (unsigned)draw(WL, 3) == 2;
      unsigned kind = (unsigned)draw(WL, 4);
      Ptr p = ops::make(t, flavor);
      std::string bytes, what = strf("stream round trip (kind %u) of %s endian %d", kind, t.brief().c_str(), (int)e);
      Res r;
      if (kind == 0) {
        std::ostringstream os;
        odd_stream(os);
        r = attempt("save, " + what, [&] { p->save(os, e, sps); });
        if (!os) violation("C01:save-fails", "%s: the stream is in a failed state", what.c_str());
        bytes = os.str();
      } else if (kind == 1) {
        ops::SimBuf sb;
        sb.start_writing(pick(IO, std::vector<size_t>{0, 1, 3, 64, 4096}));
        std::ostream os(&sb);
        odd_stream(os);
        r = attempt("save, " + what, [&] { p->save(os, e, sps); });
        os.flush();
        if (!os) violation("C01:save-fails", "%s: the stream is in a failed state", what.c_str());
        bytes = sb.written();
      } else {
        std::vector<char> buf;
        std::ofstream os;
        open_buffered(os, buf, "/simfs/stream.npy", std::ios::out);
        odd_stream(os);
        r = attempt("save, " + what, [&] { p->save(os, e, sps); });
        os.close();
        if (!os) violation("C01:save-fails", "%s: the stream is in a failed state", what.c_str());
        bytes = fs_get("/simfs/stream.npy");
      }
      expect_ok(r, "C01:save-fails", what);
      Ptr q;
      Hdr h;
      std::vector<char> buf;
      std::istringstream is1(bytes);
      ops::SimBuf sb;
      sb.data = bytes;
      sb.in_area = pick(IO, std::vector<size_t>{4096, 1, 5, 100, 70000});
      sb.start_reading();
      std::istream is2(&sb);
      std::ifstream is3;
      std::istream *is = &is1;
      if (kind == 1) is = &is2;
      if (kind >= 2) {
        fs_put("/simfs/stream.npy", bytes);
        open_buffered(is3, buf, "/simfs/stream.npy", std::ios::in);
        is = &is3;
      }
      odd_stream(*is);
      if (draw(WL, 3) == 2) {
        std::istringstream hs(bytes);
        odd_stream(hs);
        expect_ok(attempt("peek, " + what, [&] { h = ops::peek(hs, sps); }), "C01:peek-fails", what);
        check_hdr(h, want, eff_big(e), "C01:peek-differs", what);
      }
      expect_ok(attempt("load, " + what, [&] { q = ops::load(t.dt, *is, spl, fl2); }), "C01:load-fails", what);
      check_tensor(*q, want, "C01:load-differs", what);
      nontrivial();
    } else if (k == 5) { // a tensor of another type must not come back
      if (!files.count(path)) continue;
      auto &f = files[path];
      ref::DT other = (ref::DT)draw(WL, ref::NDT);
      if (other == f.t.dt) continue;
      Ptr p;
      Res r = attempt(strf("load %s as %s", path.c_str(), ref::DT_NAME[other]), [&] { p = ops::load(other, path, 0, draw(WL, 2)); });
      if (r.ok()) violation("C01:wrong-type", "loading %s of %s as %s returned a tensor", path.c_str(), ref::DT_NAME[f.t.dt], ref::DT_NAME[other]);
    } else if (k == 6) {
      Ptr p;
      Res r = attempt("load a missing file", [&] { p = ops::load((ref::DT)draw(WL, ref::NDT), "/simfs/nothing.npy", (unsigned)draw(WL, 3)); });
      if (r.ok()) violation("C01:missing", "loading a file that does not exist returned a tensor");
      Hdr h;
      r = attempt("peek a missing file", [&] { h = ops::peek("/simfs/nothing.npy"); });
      if (r.ok()) violation("C01:missing", "peeking a file that does not exist returned a header");
    } else { // the way the system delivers bytes changes
      gen::benign_io();
    }
  }
  // every file still holds what was last saved there
  for (auto &f : files) {
    Ptr p;
    expect_ok(attempt("final load " + f.first, [&] { p = ops::load(f.second.t.dt, f.first, 0); }), "C01:load-fails", "final load of " + f.first);
    check_tensor(*p, f.second.t, "C01:load-differs", "final load of " + f.first);
    nontrivial();
  }
  if (fs_open_handles()) violation("C01:handles", "%zu files left open", fs_open_handles());
}

// ------------------------------------------------------------------------ C06
void c06() {
  pick_piece();
  set_fill((uint8_t)pick(WL, std::vector<unsigned>{0xA5, 0, 0xFF}));
  gen::Cfg gc;
  gc.zero = draw(WL, 8) == 7;
  TSpec t = gen::tensor(gc), want = ref::canonical(t);
  npy::endian_t e = gen::endian();
  std::string bytes;
  bool big = eff_big(e);
  if (draw(WL, 5) == 4) { // another writer's file, both header versions
    ref::NpyStyle st;
    st.major = (int)draw(WL, 2) + 1;
    st.big = big;
    st.align = draw(WL, 2) ? 16 : 64;
    bytes = ref::npy_encode(t, st);
  } else {
    std::ostringstream os;
    Ptr p = ops::make(t);
    expect_ok(attempt("save", [&] { p->save(os, e, 0); }), "C06:save", "save");
    bytes = os.str();
  }
  ref::Npy n;
  std::string err;
  if (!ref::npy_decode(bytes.data(), bytes.size(), false, n, err)) violation("C06:save", "saved file is not readable: %s", err.c_str());
  // several failing reads of the same file
  for (int step = 0; step < 6; ++step) {
    OpSpan sp;
    if (step && draw(WL, 4) == 0) break;
    uint64_t k;
    switch (draw(IO, 6)) {
    case 0: k = draw(IO, n.total); break;
    case 1: k = n.total - 1 - draw(IO, std::min<uint64_t>(n.total, 20)); break;
    case 2: k = n.header + draw(IO, 40); break;
    case 3: k = draw(IO, n.header); break;
    case 4: k = n.header - 1 - draw(IO, std::min<uint64_t>(n.header, 70)); break;
    default: {
      uint64_t blk = pick(IO, std::vector<uint64_t>{512, 4096, 8191, 8192, 65536, 1 << 20});
      k = n.total > blk ? blk * (1 + draw(IO, n.total / blk)) : n.total / 2;
    }
    }
    if (k >= n.total) k = n.total ? n.total - 1 : 0;
    unsigned mode = (unsigned)draw(IO, 6), flavor = draw(WL, 3) == 2, spell = (unsigned)draw(WL, 3);
    bool do_peek = draw(WL, 4) == 3;
    io = IoCfg();
    if (draw(IO, 3) == 2) gen::benign_io();
    Ptr p;
    Hdr h;
    Res r;
    bool certain = true; // the data cannot all have been delivered
    std::string cut = bytes.substr(0, k);
    std::string how;
    uint64_t e0 = io_stat.errors;
    if (mode == 0) {
      how = strf("file truncated to %llu of %zu bytes", (unsigned long long)k, n.total);
      count("fault.truncated");
      fs_put("/simfs/t.npy", cut);
      if (do_peek) r = attempt("peek " + how, [&] { h = ops::peek("/simfs/t.npy"); });
      else r = attempt("load " + how, [&] { p = ops::load(t.dt, "/simfs/t.npy", spell, flavor); });
    } else if (mode == 1) {
      fs_put("/simfs/t.npy", bytes);
      io.shot_cls = IoCfg::READ;
      io.shot_in = (int64_t)draw(IO, 4) * (int64_t)draw(IO, 3);
      io.shot_len = draw(IO, 2) ? -1 : 1;
      how = strf("read call %lld fails with EIO%s", (long long)io.shot_in, io.shot_len < 0 ? " and all later ones" : "");
      certain = false;
      if (do_peek) r = attempt("peek " + how, [&] { h = ops::peek("/simfs/t.npy"); });
      else r = attempt("load " + how, [&] { p = ops::load(t.dt, "/simfs/t.npy", spell, flavor); });
      io.shot_cls = IoCfg::NONE;
    } else if (mode == 5) { // a member that is itself cut short, in an intact archive
      ref::Member m;
      m.name = "x.npy";
      m.bytes = cut;
      m.style.deflate = draw(WL, 2);
      if (draw(WL, 4) == 3) m.style.odd = 1 + draw(WL, 1 << 24);
      std::string zip = ref::zip_encode({m});
      how = strf("archive member truncated to %llu of %zu bytes", (unsigned long long)k, n.total);
      count("fault.truncated_member");
      ops::Reader rd;
      bool file = draw(WL, 2);
      if (file) fs_put("/simfs/t.npz", zip);
      r = attempt("open archive", [&] { file ? rd.open("/simfs/t.npz", 0) : rd.open_string(zip, 0); });
      expect_ok(r, "C06:open", "opening an intact archive");
      if (do_peek) r = attempt("peek " + how, [&] { h = rd.peek("x"); });
      else r = attempt("read " + how, [&] { p = rd.read(t.dt, "x", spell, flavor); });
    } else {
      ops::SimBuf sb;
      std::istringstream ss;
      std::istream is(nullptr);
      std::istream *in = &is;
      static const std::ios_base::iostate masks[] = {std::ios_base::goodbit, std::ios_base::badbit, std::ios_base::failbit | std::ios_base::badbit,
                                                    std::ios_base::failbit | std::ios_base::badbit | std::ios_base::eofbit};
      unsigned mask = (unsigned)draw(IO, 4);
      if (mode == 2) {
        sb.data = cut;
        how = "stream ends";
        count("fault.truncated");
      } else if (mode == 3) {
        sb.data = bytes;
        sb.fail_at = (int64_t)k;
        sb.fail_throws = draw(IO, 2);
        how = sb.fail_throws ? "stream buffer throws" : "stream buffer reports end";
      } else {
        ss.str(cut);
        in = &ss;
        how = "string stream ends";
        count("fault.truncated");
      }
      if (mode != 4) {
        sb.in_area = pick(IO, std::vector<size_t>{4096, 1, 5, 100, 70000});
        sb.start_reading();
        is.rdbuf(&sb);
      }
      odd_stream(*in);
      bool dead = draw(IO, 12) == 11; // failed before, by something else
      if (dead) {
        in->setstate(draw(IO, 2) ? std::ios_base::failbit : std::ios_base::badbit);
        mask = 0;
        certain = true;
        k = 0;
        count("fault.failed_stream");
      }
      in->exceptions(masks[mask]);
      how += strf(" at %llu of %zu bytes, exception mask %u", (unsigned long long)k, n.total, mask);
      if (do_peek) r = attempt("peek, " + how, [&] { h = ops::peek(*in, spell); });
      else r = attempt("load, " + how, [&] { p = ops::load(t.dt, *in, spell, flavor); });
    }
    if (certain || io_stat.errors > e0) nontrivial();
    io = IoCfg();
    if (step == 0) describe("%s of %s, %s", do_peek ? "peek" : "load", t.brief().c_str(), how.c_str());
    note_sig(mode * 64 + (k < 10 ? 0 : k < n.header ? 1 : 2) * 8 + t.dt + do_peek * 32);
    if (r.ok() && !do_peek) {
      if (certain) violation("C06:short-load-returns", "load of %s returned a tensor although the %s (flavor %u spelling %u)", t.brief().c_str(), how.c_str(), flavor, spell);
      check_tensor(*p, want, "C06:load-differs", "load after " + how);
    }
    if (r.ok() && do_peek) {
      if (certain && k < n.header) violation("C06:short-peek-returns", "peek of %s returned although the %s and the header has %zu", t.brief().c_str(), how.c_str(), n.header);
      check_hdr(h, want, big, "C06:peek-differs", "peek after " + how);
    }
  }
  if (fs_open_handles()) violation("C06:handles", "%zu files left open", fs_open_handles());
}

// ------------------------------------------------------------------------ C14
namespace {
struct Seg {
  bool array;
  std::string bytes;
  TSpec t;
  bool big = false;
  size_t header = 0;
};
std::string foreign() {
  size_t n = pick(WL, std::vector<size_t>{1, 0, 3, 10, 100, 8192, 9000});
  uint64_t s = draw(WL, 1 << 16);
  std::string b(n, '\0');
  Rng r(s);
  for (auto &c : b) c = (char)r.next();
  if (n >= 10 && draw(WL, 3) == 2) memcpy(&b[0], "\x93NUMPY\x01\x00", 8); // looks like a header
  return b;
}
} // namespace

namespace {
// One stream, written at its end and read at its front in turn.
void duplex() {
  unsigned kind = (unsigned)draw(WL, 2); // 0 string stream, 1 file stream
  std::stringstream ss;
  std::vector<char> buf;
  std::fstream fs;
  if (kind) {
    LibScope ls;
    fs_put("/simfs/d.bin", "");
    open_buffered(fs, buf, "/simfs/d.bin", std::ios::in | std::ios::out);
  }
  std::iostream &io2 = kind ? (std::iostream &)fs : (std::iostream &)ss;
  odd_stream(io2);
  const Settings set(io2);
  std::vector<Seg> segs;
  uint64_t wpos = 0, rpos = 0;
  size_t next = 0;
  for (int step = 0; step < 14; ++step) {
    OpSpan sp;
    size_t k = weighted(WL, {2, 8, 7, 2, 2});
    if (k == 0) break;
    if (k == 1 || k == 3) {
      if (kind) io2.seekp((std::streamoff)wpos);
      Seg s;
      s.array = k == 1;
      if (k == 3) {
        s.bytes = foreign();
        io2.write(s.bytes.data(), (std::streamsize)s.bytes.size());
      } else {
        gen::Cfg gc;
        gc.max_bytes = 20000;
        gc.big_weight = 0;
        TSpec t = gen::tensor(gc);
        npy::endian_t e = gen::endian();
        unsigned flavor = draw(WL, 3) == 2, spell = (unsigned)draw(WL, 3);
        Ptr p = ops::make(t, flavor);
        std::ostringstream own;
        expect_ok(attempt("save alone", [&] { p->save(own, e, spell); }), "C14:save-fails", "save");
        s.bytes = own.str();
        s.t = ref::canonical(t);
        s.big = eff_big(e);
        ref::Npy n;
        std::string err;
        if (!ref::npy_decode(s.bytes.data(), s.bytes.size(), true, n, err)) violation("C14:bytes", "saved array is not valid: %s", err.c_str());
        s.header = n.header;
        std::string what = strf("save %s to a stream that is also read", t.brief().c_str());
        expect_ok(attempt(what, [&] { p->save(io2, e, spell); }), "C14:save-fails", what);
        uint64_t at = (uint64_t)io2.tellp();
        set.check(io2, "C14:settings", what);
        if (!io2) violation("C14:save-fails", "%s left the stream failed", what.c_str());
        if (at != wpos + s.bytes.size()) violation("C14:bytes", "%s ended at %llu instead of %llu", what.c_str(), (unsigned long long)at, (unsigned long long)(wpos + s.bytes.size()));
        if (!kind && (uint64_t)io2.tellg() != rpos) violation("C14:bytes", "%s moved the reading position", what.c_str());
      }
      wpos += s.bytes.size();
      segs.push_back(s);
    } else if (next < segs.size()) {
      Seg &s = segs[next++];
      if (kind) io2.seekg((std::streamoff)rpos);
      if (!s.array) {
        std::string b(s.bytes.size(), '\0');
        if (b.size()) io2.read(&b[0], (std::streamsize)b.size());
        if (b != s.bytes || io2.fail()) violation("C14:framing", "foreign bytes at %llu do not read back", (unsigned long long)rpos);
      } else {
        nontrivial();
        bool pk = k == 4;
        Ptr p;
        Hdr h;
        std::string what = strf("%s of %s at %llu of a stream that is also written", pk ? "peek" : "load", s.t.brief().c_str(), (unsigned long long)rpos);
        unsigned spell = (unsigned)draw(WL, 2), flavor = draw(WL, 3) == 2;
        if (pk) {
          expect_ok(attempt(what, [&] { h = ops::peek(io2, spell); }), "C14:framing", what);
          check_hdr(h, s.t, s.big, "C14:framing", what);
        } else {
          expect_ok(attempt(what, [&] { p = ops::load(s.t.dt, io2, spell, flavor); }), "C14:framing", what);
          check_tensor(*p, s.t, "C14:framing", what);
        }
        set.check(io2, "C14:settings", what);
        if (io2.fail()) violation("C14:framing", "%s left the stream failed", what.c_str());
        uint64_t want = rpos + (pk ? s.header : s.bytes.size()), at = (uint64_t)io2.tellg();
        if (at != want) violation("C14:framing", "%s ended at %llu instead of %llu", what.c_str(), (unsigned long long)at, (unsigned long long)want);
        if (!kind && (uint64_t)io2.tellp() != wpos) violation("C14:framing", "%s moved the writing position", what.c_str());
        if (pk) {
          std::string b(s.bytes.size() - s.header, '\0');
          if (b.size()) io2.read(&b[0], (std::streamsize)b.size());
          if (b != s.bytes.substr(s.header)) violation("C14:framing", "the values after %s do not read back", what.c_str());
        }
      }
      rpos += s.bytes.size();
      note_sig(5000 + kind * 2 + s.array);
    }
  }
  describe("%zu segments in a stream written and read in turn, kind %u", segs.size(), kind);
}
} // namespace

void c14() {
  gen::benign_io();
  pick_piece();
  if (draw(WL, 6) == 5) {
    duplex();
    return;
  }
  unsigned kind = (unsigned)draw(WL, 4); // 0 stringstream, 1 SimBuf, 2 file, 3 seekable SimBuf
  std::vector<Seg> segs;
  std::string model;
  {
    std::ostringstream os0;
    ops::SimBuf sb;
    std::vector<char> buf;
    std::ofstream of;
    std::ostream os1(&sb);
    std::ostream *os = &os0;
    if (kind == 1 || kind == 3) {
      sb.seekable = kind == 3;
      sb.start_writing(pick(IO, std::vector<size_t>{0, 1, 3, 64, 4096}));
      os = &os1;
    } else if (kind == 2) {
      open_buffered(of, buf, "/simfs/s.bin", std::ios::out);
      os = &of;
    }
    odd_stream(*os);
    unsigned omask = (unsigned)draw(IO, 3);
    if (omask == 2) os->exceptions(std::ios_base::badbit | std::ios_base::failbit);
    const Settings set(*os);
    auto content = [&]() -> std::string {
      os->flush();
      if (kind == 0) return os0.str();
      if (kind == 2) return fs_get("/simfs/s.bin");
      return sb.written();
    };
    for (int step = 0; step < 10; ++step) {
      OpSpan sp;
      size_t k = weighted(WL, {2, 8, 4, 2});
      if (k == 0) break;
      if (k == 2) {
        Seg s;
        s.array = false;
        s.bytes = foreign();
        os->write(s.bytes.data(), (std::streamsize)s.bytes.size());
        model += s.bytes;
        segs.push_back(s);
        continue;
      }
      gen::Cfg gc;
      gc.max_bytes = 20000;
      gc.big_weight = 0;
      TSpec t = gen::tensor(gc);
      npy::endian_t e = gen::endian();
      unsigned flavor = draw(WL, 3) == 2, spell = (unsigned)draw(WL, 3);
      Ptr p = ops::make(t, flavor);
      if (k == 3 && kind != 1 && !segs.empty()) { // overwrite in the middle, at the current position
        std::ostringstream own;
        expect_ok(attempt("save alone", [&] { p->save(own, e, spell); }), "C14:save-fails", "save");
        std::string b = own.str();
        uint64_t pos = draw(WL, model.size() + 1);
        // splice into the model; segments covered lose their identity
        os->seekp((std::streamoff)pos);
        if (!*os) harness_error("seekp failed");
        expect_ok(attempt(strf("save %s at %llu", t.brief().c_str(), (unsigned long long)pos), [&] { p->save(*os, e, spell); }), "C14:save-fails", "save");
        set.check(*os, "C14:settings", "saving in the middle");
        std::string m2 = model;
        if (pos + b.size() > m2.size()) m2.resize(pos + b.size());
        m2.replace(pos, b.size(), b);
        std::string got = content();
        if (got != m2)
          violation("C14:bytes", "saving %s at position %llu did not replace exactly its own %zu bytes", t.brief().c_str(), (unsigned long long)pos, b.size());
        os->seekp(0, std::ios::end);
        model = m2;
        segs.clear();
        Seg a;
        a.array = false;
        a.bytes = model.substr(0, pos);
        segs.push_back(a);
        ref::Npy n;
        std::string err;
        if (!ref::npy_decode(b.data(), b.size(), true, n, err)) violation("C14:bytes", "saved array is not valid: %s", err.c_str());
        Seg s{true, b, ref::canonical(t), eff_big(e), n.header};
        segs.push_back(s);
        a.bytes = model.substr(pos + b.size());
        segs.push_back(a);
        continue;
      }
      std::string what = strf("save %s endian %d", t.brief().c_str(), (int)e);
      expect_ok(attempt(what, [&] { p->save(*os, e, spell); }), "C14:save-fails", what);
      set.check(*os, "C14:settings", what);
      std::string got = content();
      if (!*os) violation("C14:save-fails", "%s left the stream in a failed state", what.c_str());
      if (got.size() < model.size() || got.compare(0, model.size(), model) != 0)
        violation("C14:bytes", "%s changed bytes before the current position", what.c_str());
      std::string b = got.substr(model.size());
      check_npy_bytes(b, t, eff_big(e), "C14:bytes", "bytes appended by " + what);
      ref::Npy n;
      std::string err;
      ref::npy_decode(b.data(), b.size(), true, n, err);
      std::ostringstream own;
      expect_ok(attempt("save alone", [&] { p->save(own, e, spell); }), "C14:save-fails", "save");
      if (own.str() != b) violation("C14:bytes", "%s appended other bytes than the same save into an empty stream", what.c_str());
      model = got;
      Seg s{true, b, ref::canonical(t), eff_big(e), n.header};
      segs.push_back(s);
    }
  }
  if (segs.empty()) return;
  describe("%zu segments, %zu bytes, stream kind %u", segs.size(), model.size(), kind);
  // read back, in one of several kinds of stream
  unsigned rk = (unsigned)draw(WL, 4);
  std::istringstream is0(model);
  ops::SimBuf sb;
  sb.data = model;
  sb.seekable = rk == 3;
  sb.in_area = pick(IO, std::vector<size_t>{4096, 1, 5, 100, 70000});
  sb.start_reading();
  std::istream is1(&sb);
  std::vector<char> buf;
  std::ifstream is2;
  std::istream *is = &is0;
  if (rk == 1 || rk == 3) is = &is1;
  if (rk == 2) {
    fs_put("/simfs/s.bin", model);
    open_buffered(is2, buf, "/simfs/s.bin", std::ios::in);
    is = &is2;
  }
  odd_stream(*is);
  unsigned mask = (unsigned)draw(IO, 3);
  if (mask == 1) is->exceptions(std::ios_base::badbit | std::ios_base::failbit);
  if (mask == 2) is->exceptions(std::ios_base::badbit | std::ios_base::failbit | std::ios_base::eofbit);
  const Settings set(*is);
  uint64_t pos = 0;
  auto where = [&]() -> uint64_t { return rk == 1 || rk == 3 ? sb.consumed() : (uint64_t)is->tellg(); };
  auto raw = [&](uint64_t n) {
    std::string b(n, '\0');
    sb.allow_until = ~0ull;
    if (n) is->read(&b[0], (std::streamsize)n);
    return b;
  };
  for (size_t i = 0; i < segs.size(); ++i) {
    OpSpan sp;
    Seg &s = segs[i];
    unsigned k = (unsigned)draw(WL, 3), spell = (unsigned)draw(WL, 2), flavor = draw(WL, 3) == 2;
    if (!s.array) {
      if (raw(s.bytes.size()) != s.bytes || is->fail()) violation("C14:framing", "foreign bytes at %llu do not read back", (unsigned long long)pos);
      pos += s.bytes.size();
      continue;
    }
    nontrivial();
    note_sig(rk * 8 + k * 2 + s.big + s.t.dt * 64);
    if (k == 1) {
      sb.allow_until = pos + s.header;
      Hdr h;
      std::string what = strf("peek of array %zu at %llu", i, (unsigned long long)pos);
      expect_ok(attempt(what, [&] { h = ops::peek(*is, spell); }), "C14:framing", what);
      check_hdr(h, s.t, s.big, "C14:framing", what);
      set.check(*is, "C14:settings", what);
      if (is->fail()) violation("C14:framing", "%s left the stream failed", what.c_str());
      if (where() != pos + s.header)
        violation("C14:framing", "%s consumed %lld bytes, the header has %zu", what.c_str(), (long long)(where() - pos), s.header);
      if (sb.over_read) violation("C14:reads-ahead", "%s asked for bytes beyond the header", what.c_str());
      if (draw(WL, 2)) { // and load the rest with the header just read
        sb.allow_until = pos + s.bytes.size();
        // continue by hand, as a custom reader would
      }
      std::string rest = raw(s.bytes.size() - s.header);
      if (rest != s.bytes.substr(s.header)) violation("C14:framing", "bytes after %s do not read back", what.c_str());
    } else {
      sb.allow_until = pos + s.bytes.size();
      Ptr p;
      std::string what = strf("load of array %zu (%s) at %llu", i, s.t.brief().c_str(), (unsigned long long)pos);
      expect_ok(attempt(what, [&] { p = ops::load(s.t.dt, *is, spell, flavor); }), "C14:framing", what);
      check_tensor(*p, s.t, "C14:framing", what);
      set.check(*is, "C14:settings", what);
      if (is->fail()) violation("C14:framing", "%s left the stream failed", what.c_str());
      if (where() != pos + s.bytes.size())
        violation("C14:framing", "%s consumed %lld bytes, the array has %zu", what.c_str(), (long long)(where() - pos), s.bytes.size());
      if (sb.over_read) violation("C14:reads-ahead", "%s asked for bytes beyond the array", what.c_str());
    }
    pos += s.bytes.size();
  }
  // nothing is left: a further load or peek fails, and still changes no settings
  bool pk = draw(WL, 2);
  Ptr p;
  Hdr h;
  std::string what = pk ? "peek at the end" : "load at the end";
  sb.allow_until = ~0ull;
  Res r = attempt(what, [&] { pk ? (void)(h = ops::peek(*is, 0)) : (void)(p = ops::load(ref::U1, *is, 0, 0)); });
  if (r.ok()) violation("C14:framing", "%s of the stream returned normally", what.c_str());
  set.check(*is, "C14:settings", what);
}
} // namespace wl
