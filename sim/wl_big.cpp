// C16: archives around the limits of the ZIP format, on a sparse simulated disk.
#include "common.h"
#include "workloads.h"
#include <algorithm>
#include <complex>
#include <fstream>
#include <fcntl.h>
#include <malloc.h>
#include <sys/file.h>
#include <unistd.h>
#include <zlib.h>

namespace wl {
namespace {
constexpr uint64_t MB = 1 << 20;
// Zeros with a few marks, produced and checked in pieces so that gigabytes cost little memory.
struct Bulk {
  uint64_t n = 0, seed = 0;
  std::vector<size_t> shape_;
  bool matches = true; // when loaded
  uint64_t got = 0;
  static Bulk *expecting;
  static bool mark(uint64_t n, uint64_t seed, uint64_t i, char *c) {
    // first and last byte and one per 64 MB
    if (i == 0 || i + 1 == n || i % (64 * MB) == seed % (64 * MB)) {
      *c = (char)(1 + (mix(seed, i) % 255));
      return true;
    }
    return false;
  }
  void piece(uint64_t at, char *p, uint64_t k) const {
    memset(p, 0, k);
    auto put = [&](uint64_t i) {
      char c;
      if (i >= at && i < at + k && mark(n, seed, i, &c)) p[i - at] = c;
    };
    put(0);
    put(n - 1);
    for (uint64_t i = at / (64 * MB) * (64 * MB) + seed % (64 * MB); i < at + k; i += 64 * MB) put(i);
  }
  size_t ndim() const { return shape_.size(); }
  size_t shape(int i) const { return shape_[i]; }
  bool fortran_order() const { return false; }
  std::string dtype(npy::endian_t) const { return "|u1"; }
  void save(std::ostream &os, npy::endian_t e) const {
    std::vector<uint8_t> b(MB);
    for (uint64_t at = 0; at < n; at += MB) {
      uint64_t k = std::min(MB, n - at);
      piece(at, (char *)b.data(), k);
      npy::write_values(os, b.data(), k, e);
    }
  }
  static Bulk load(std::istream &is, const npy::header_info &info) {
    Bulk r;
    r.shape_ = info.shape;
    r.n = info.shape.size() == 1 ? info.shape[0] : 0;
    std::vector<uint8_t> b(MB), w(MB);
    for (uint64_t at = 0; at < r.n; at += MB) {
      uint64_t k = std::min(MB, r.n - at);
      npy::read_values(is, b.data(), k, info);
      if (expecting && r.n == expecting->n) {
        expecting->piece(at, (char *)w.data(), k);
        if (memcmp(w.data(), b.data(), k)) r.matches = false;
      }
      r.got += k;
    }
    return r;
  }
};
Bulk *Bulk::expecting = nullptr;

struct Entry {
  std::string name;
  bool bulk = false;
  Bulk b;
  TSpec t;
};
ref::Source inode_source(const std::string &path) {
  ref::Source s;
  Inode *i = fs_inode(path);
  s.size = i ? i->size : 0;
  s.read = [i](uint64_t off, char *p, size_t n) { return (size_t)i->read(off, p, n); };
  return s;
}
// streams an entry through zlib; the callback sees its uncompressed bytes
template <class F> bool stream_entry(const ref::Source &src, const ref::ZEntry &e, F f, std::string &err) {
  std::string in(MB, '\0'), out(MB, '\0');
  uint64_t pos = 0, total = 0;
  uint32_t crc = (uint32_t)crc32(0, nullptr, 0);
  z_stream z;
  memset(&z, 0, sizeof z);
  if (e.method == 8) inflateInit2(&z, -15);
  bool end = e.method != 8;
  while (pos < e.csize) {
    size_t k = (size_t)std::min<uint64_t>(MB, e.csize - pos);
    if (src.read(e.data + pos, &in[0], k) != k) { err = "cut off"; return false; }
    pos += k;
    if (e.method == 0) {
      crc = (uint32_t)crc32(crc, (const Bytef *)in.data(), (uInt)k);
      f(total, in.data(), k);
      total += k;
      continue;
    }
    z.next_in = (Bytef *)in.data();
    z.avail_in = (uInt)k;
    do {
      z.next_out = (Bytef *)&out[0];
      z.avail_out = (uInt)MB;
      int r = inflate(&z, Z_NO_FLUSH);
      size_t g = MB - z.avail_out;
      crc = (uint32_t)crc32(crc, (const Bytef *)out.data(), (uInt)g);
      f(total, out.data(), g);
      total += g;
      if (r == Z_STREAM_END) { end = true; break; }
      if (r != Z_OK && r != Z_BUF_ERROR) { err = "invalid deflate data"; inflateEnd(&z); return false; }
    } while (z.avail_out == 0);
  }
  if (e.method == 8) inflateEnd(&z);
  if (!end) { err = "deflate data does not end"; return false; }
  if (total != e.usize) { err = strf("%llu bytes, recorded %llu", (unsigned long long)total, (unsigned long long)e.usize); return false; }
  if (crc != e.crc) { err = "CRC does not match"; return false; }
  return true;
}
void check_bulk_archive(const std::string &path, const std::vector<Entry> &acked, const std::string &what) {
  ref::Source src = inode_source(path);
  std::vector<ref::ZEntry> z;
  std::string err;
  if (!ref::zip_decode(src, z, err)) violation("C16:format", "%s: not a valid ZIP archive: %s", what.c_str(), err.c_str());
  if (z.size() != acked.size()) violation("C16:format", "%s: the archive lists %zu entries, %zu were acknowledged", what.c_str(), z.size(), acked.size());
  for (size_t i = 0; i < z.size(); ++i) {
    const Entry &e = acked[i];
    if (z[i].name != e.name) violation("C16:format", "%s: entry %zu has another name (%zu bytes instead of %zu)", what.c_str(), i, z[i].name.size(), e.name.size());
    if (!e.bulk) {
      std::string bytes;
      if (!ref::zip_member(src, z[i], bytes, err)) violation("C16:format", "%s: entry %zu: %s", what.c_str(), i, err.c_str());
      check_npy_bytes(bytes, e.t, -1, "C16:format", what);
      continue;
    }
    std::string head;
    std::vector<char> w(MB + 4096);
    uint64_t hl = 0;
    bool good = true;
    bool ok = stream_entry(src, z[i], [&](uint64_t at, const char *p, size_t k) {
      if (at < 4096) {
        head.append(p, std::min<size_t>(k, 4096));
        if (!hl && head.size() >= 10) hl = 10 + (uint8_t)head[8] + 256u * (uint8_t)head[9];
      }
      if (!hl || !good) return;
      if (at < hl) {
        if (at + k <= hl) return;
        p += hl - at, k -= hl - at, at = hl;
      }
      at -= hl;
      if (at + k > e.b.n) { good = false; return; }
      e.b.piece(at, w.data(), k);
      good = memcmp(w.data(), p, k) == 0;
    }, err);
    if (!ok) violation("C16:format", "%s: entry %zu of %llu bytes: %s", what.c_str(), i, (unsigned long long)e.b.n, err.c_str());
    if (!good || z[i].usize != hl + e.b.n) violation("C16:format", "%s: entry %zu of %llu bytes does not hold what was written", what.c_str(), i, (unsigned long long)e.b.n);
  }
}
void check_bulk_reader(ops::Reader &rd, const std::vector<Entry> &acked, const std::string &what, size_t max_bulk, size_t max_small) {
  size_t nk = 0;
  bool sorted = true;
  Res r = attempt("keys", [&] {
    const auto &k = rd.keys();
    NoLib nl;
    nk = k.size();
    sorted = std::is_sorted(k.begin(), k.end());
  });
  expect_ok(r, "C16:reads-back", what + ": keys()");
  if (nk != acked.size() || !sorted) violation("C16:reads-back", "%s: keys() lists %zu names, %zu were written", what.c_str(), nk, acked.size());
  std::map<std::string, size_t> last;
  for (size_t i = 0; i < acked.size(); ++i) last[acked[i].name] = i;
  size_t nb = 0, step = acked.size() > max_small ? acked.size() / max_small : 1;
  for (size_t i = 0; i < acked.size(); ++i) {
    bool edge = i < 3 || i + 3 >= acked.size() || (i >= 65533 && i <= 65538);
    if (!edge && i % step) continue;
    const Entry &e = acked[last[acked[i].name]];
    bool c = false;
    expect_ok(attempt("contains", [&] { c = rd.contains(e.name); }), "C16:reads-back", what + ": contains()");
    if (!c) violation("C16:reads-back", "%s: contains() denies entry %zu", what.c_str(), i);
    if (!e.bulk) {
      Ptr p;
      r = attempt(strf("read entry %zu", i), [&] { p = rd.read(e.t.dt, e.name, 0); });
      expect_ok(r, "C16:reads-back", strf("%s: reading entry %zu", what.c_str(), i));
      check_tensor(*p, e.t, "C16:reads-back", strf("%s: entry %zu", what.c_str(), i));
      continue;
    }
    if (nb++ >= max_bulk && !(i + 2 >= acked.size())) continue;
    Bulk want = e.b, got;
    Bulk::expecting = &want;
    r = attempt(strf("read entry %zu of %llu bytes", i, (unsigned long long)e.b.n), [&] { got = rd.f ? rd.f->read<Bulk>(e.name) : rd.s->read<Bulk>(e.name); });
    expect_ok(r, "C16:reads-back", strf("%s: reading entry %zu of %llu bytes", what.c_str(), i, (unsigned long long)e.b.n));
    if (got.n != want.n || got.got != want.n || !got.matches)
      violation("C16:reads-back", "%s: entry %zu of %llu bytes reads back with other contents", what.c_str(), i, (unsigned long long)e.b.n);
  }
}
TSpec small(unsigned i) {
  TSpec t;
  t.dt = ref::U1;
  t.shape = {3};
  t.raw = strf("%c%c%c", 'a' + i % 26, 'a' + i / 26 % 26, 'a' + i / 676 % 26);
  return t;
}
struct Session {
  ops::Writer w;
  bool file = true;
  std::vector<Entry> acked;
  uint64_t size = 0; // lower bound of what the archive holds
  bool at_limit = false, refused = false;
  std::string what;
  bool write(const Entry &e, bool may_refuse) {
    Res r;
    if (e.bulk) {
      r = attempt(strf("write %llu bytes", (unsigned long long)e.b.n), [&] { w.f->write(e.name, e.b); });
    } else {
      Ptr p = ops::make(e.t);
      r = attempt("write a small entry", [&] { w.write(e.name, *p); });
    }
    if (r.ok()) {
      Entry s = e;
      s.name = gen::stored(e.name);
      acked.push_back(s);
    } else {
      refused = true;
      count("probe.write_refused");
      if (!may_refuse) violation("C16:refused", "%s: a write far from every limit was refused: %s", what.c_str(), r.what.c_str());
    }
    return r.ok();
  }
  void finish(size_t max_bulk, size_t max_small) {
    Res r = attempt("close", [&] { w.close(); });
    if (!r.ok()) {
      count("probe.close_refused");
      if (!at_limit) violation("C16:refused", "%s: close of an archive far from every limit was refused: %s", what.c_str(), r.what.c_str());
      attempt("destroy", [&] { w.destroy(); });
      return;
    }
    ops::Reader rd;
    if (file) {
      check_bulk_archive("/simfs/big.npz", acked, what);
      r = attempt("open the archive", [&] { rd.open("/simfs/big.npz", 0); });
    } else {
      std::string s;
      attempt("str", [&] {
        std::string x = w.s->str();
        NoLib nl;
        s.swap(x);
      });
      fs_put("/simfs/big.npz", s);
      check_bulk_archive("/simfs/big.npz", acked, what);
      r = attempt("open the archive", [&] { rd.open_string(s, 0); });
    }
    expect_ok(r, "C16:reads-back", what + ": opening the archive");
    check_bulk_reader(rd, acked, what, max_bulk, max_small);
    Res a = attempt("write after close", [&] { w.write("late", *ops::make(small(0))); });
    if (a.ok()) violation("C16:format", "%s: a write after close succeeded", what.c_str());
    attempt("destroy", [&] { w.destroy(); });
    rd.destroy();
  }
};

void names() {
  Session s;
  s.file = draw(WL, 2);
  npy::compression_method_t c = gen::compression();
  s.what = "archive with long names";
  attempt("new writer", [&] { s.file ? s.w.open("/simfs/big.npz", c, npy::endian_t::NATIVE, 0) : s.w.open_string(c, npy::endian_t::NATIVE); });
  size_t n = 1 + draw(WL, 5);
  for (size_t i = 0; i < n; ++i) {
    OpSpan sp;
    static const std::vector<size_t> L = {65535, 65536, 65534, 65531, 65532, 65530, 70000, 131071, 131072, 65536 + 5, 65537 + 8, 32767, 32768, 196608, 255, 256, 1000};
    size_t len = pick(WL, L);
    bool suffix = draw(WL, 2);
    Entry e;
    e.name = std::string(len, (char)('a' + i));
    for (size_t k = 0; k < len; k += 97) e.name[k] = (char)('A' + k / 97 % 26);
    if (suffix && len > 4) e.name.replace(len - 4, 4, ".npy");
    e.t = small((unsigned)i);
    bool far = gen::stored(e.name).size() <= 65535;
    if (!far) s.at_limit = true;
    s.write(e, !far);
    note_sig(len * 2 + suffix);
  }
  nontrivial();
  count("probe.long_names");
  describe("%zu long names", n);
  s.finish(0, 1000);
}
void counts() {
  Session s;
  s.file = draw(WL, 3) != 2;
  size_t n = pick(WL, std::vector<size_t>{65535, 65536, 65537, 65534, 65600, 66000, 131072 + 5});
  s.what = strf("archive of %zu entries", n);
  describe("%s", s.what.c_str());
  s.at_limit = n >= 65535;
  attempt("new writer", [&] { s.file ? s.w.open("/simfs/big.npz", npy::compression_method_t::STORED, npy::endian_t::NATIVE, 0) : s.w.open_string(npy::compression_method_t::STORED, npy::endian_t::NATIVE); });
  for (size_t i = 0; i < n; ++i) {
    Entry e;
    e.name = strf("e%zu", i);
    e.t = small((unsigned)i);
    if (!s.write(e, i >= 65534) && i > 65600) break;
  }
  nontrivial();
  count("probe.entry_count_limit");
  note_sig(n);
  s.finish(0, 300);
}
uint64_t on_disk() { return fs_inode("/simfs/big.npz") ? fs_inode("/simfs/big.npz")->size : 0; }
void offsets(bool huge) {
  int lock = -1;
  if (huge) { // several of these at once would not fit in real memory
    lock = ::open("/tmp/npysim-huge.lock", O_RDWR | O_CREAT, 0600);
    if (lock >= 0) flock(lock, LOCK_EX);
    alarm(600);
  }
  Session s;
  npy::compression_method_t c = huge && draw(WL, 2) ? npy::compression_method_t::DEFLATED : npy::compression_method_t::STORED;
  bool deflated = c == npy::compression_method_t::DEFLATED;
  static const std::vector<uint64_t> LIM = {0xFFFFFFFFull, 0x8FFFFFFFull, 0x7FFFFFFFull, 0x100000000ull, 0x80000000ull, 0x90000000ull, 0x100000000ull + 70};
  uint64_t limit = LIM[weighted(WL, {5, 5, 1, 2, 1, 1, 1})];
  static const std::vector<int64_t> DELTA = {0, 1, -1, 2, -2, 30, -30, 60, -60, 200, -200, 500, -500};
  auto near = [] { return DELTA[weighted(WL, {8, 4, 4, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1})]; };
  int64_t delta = near();
  uint64_t target = limit + (uint64_t)delta; // where the next entry starts, or how large the single entry is
  s.what = strf("%s %s of 0x%llx%+lld", huge ? "archive with an entry" : "archive reaching", huge ? (deflated ? "(deflated)" : "(stored)") : "an offset", (unsigned long long)limit,
                (long long)delta);
  describe("%s", s.what.c_str());
  s.at_limit = true;
  attempt("new writer", [&] { s.w.open("/simfs/big.npz", c, npy::endian_t::NATIVE, 0); });
  unsigned k = 0;
  auto bulk = [&](uint64_t n) {
    Entry e;
    e.bulk = true;
    e.name = strf("b%u", k);
    e.b.n = n;
    e.b.seed = mix(k, 99 + target);
    e.b.shape_ = {n};
    ++k;
    return s.write(e, true);
  };
  auto little = [&] {
    Entry e;
    e.name = strf("s%u", k);
    e.t = small(k);
    ++k;
    return s.write(e, true);
  };
  if (draw(WL, 2)) little();
  if (huge) {
    uint64_t n = target - (draw(WL, 2) ? 128 : 0);
    bulk(n);
    little();
    little();
  } else {
    // every header of a bulk entry: 30 + name + 128 bytes of NPY header
    auto position = [&] {
      uint64_t at = 0;
      for (auto &e : s.acked) at += 30 + e.name.size() + 128 + (e.bulk ? e.b.n : e.t.raw.size());
      return at;
    };
    auto reach = [&](uint64_t to) { // the next entry starts exactly there
      for (uint64_t at = position(); at < to; at = position()) {
        std::string nm = strf("b%u.npy", k);
        uint64_t over = 30 + nm.size() + 128, left = to - at;
        uint64_t n = left > 560 * MB ? 448 * MB : left > 2 * over + 1000 ? left - over : 0;
        if (left > 560 * MB && left - n - over < 4096) n -= 8192;
        if (!n || !bulk(n)) return;
      }
    };
    // an entry at each of the lower boundaries on the way
    for (uint64_t stop : {0x7FFFFFFFull, 0x8FFFFFFFull}) {
      uint64_t to = stop + (uint64_t)near();
      if (to + 4 * MB > target) continue;
      reach(to);
      if (position() == to) count("probe.entry_at_limit"), note_sig(to);
      little();
    }
    reach(target);
    if (position() == target) count("probe.entry_at_limit");
    size_t m = 1 + draw(WL, 4);
    for (size_t i = 0; i < m; ++i) {
      if (draw(WL, 5) == 4) bulk(3 * MB);
      else little();
    }
  }
  nontrivial();
  count(huge ? "probe.entry_size_limit" : "probe.offset_limit");
  note_sig(limit * 31 + (uint64_t)delta + huge);
  s.finish(huge ? 1 : 2, 1000);
  if (lock >= 0) ::close(lock);
}
} // namespace

// An archive with large members as Python's zipfile writes it, on a sparse disk.
void foreign_big(const char *cls_read, const char *cls_list) {
  struct M { std::string name; uint64_t off, size; uint32_t crc; TSpec t; bool big; };
  fs_put("/simfs/fb.npz", "");
  Inode *ino = fs_inode("/simfs/fb.npz");
  auto le = [](std::string &s, uint64_t v, int k) {
    for (int i = 0; i < k; ++i) s += (char)(v >> (8 * i));
  };
  uint64_t at = 0;
  std::vector<M> ms;
  size_t n = 2 + draw(WL, 4);
  uint64_t room = pick(WL, std::vector<uint64_t>{2500, 3900, 2100, 4000, 4300, 9000, 1000}) * MB;
  for (size_t i = 0; i < n; ++i) {
    M m;
    m.big = i + 1 < n && i % 2 == 0;
    m.name = strf("arr_%zu.npy", i);
    m.off = at;
    std::string body;
    if (m.big) {
      uint64_t payload = room / ((n - 1) / 2 + (n - 1) % 2 ? (n) / 2 : 1) - draw(WL, 5000);
      m.t.shape = {payload};
      ref::NpyStyle st;
      m.t.raw.clear();
      // the header only: the zeros are holes of the disk
      TSpec h = m.t;
      h.shape = {0};
      std::string d = strf("{'descr': '|u1', 'fortran_order': False, 'shape': (%llu,), }", (unsigned long long)payload);
      d += std::string((64 - (10 + d.size() + 1) % 64) % 64, ' ') + "\n";
      body = std::string("\x93NUMPY\x01\0", 8);
      le(body, d.size(), 2);
      body += d;
      m.size = body.size() + payload;
      // crc of the header followed by zeros
      uint32_t c1 = ref::crc32_ref(body.data(), body.size());
      std::string zero(MB, '\0');
      uint32_t cz = (uint32_t)crc32(0, nullptr, 0);
      uint64_t done = 0;
      uint32_t cmb = (uint32_t)crc32(0, (const Bytef *)zero.data(), (uInt)MB);
      while (payload - done >= MB) cz = (uint32_t)crc32_combine(cz, cmb, MB), done += MB;
      cz = (uint32_t)crc32(cz, (const Bytef *)zero.data(), (uInt)(payload - done));
      m.crc = (uint32_t)crc32_combine(c1, cz, (z_off_t)payload);
    } else {
      gen::Cfg gc;
      gc.max_bytes = 2000;
      gc.big_weight = 0;
      m.t = gen::tensor(gc);
      ref::NpyStyle st;
      body = ref::npy_encode(m.t, st);
      m.t = ref::canonical(m.t);
      m.size = body.size();
      m.crc = ref::crc32_ref(body.data(), body.size());
    }
    std::string h;
    le(h, 0x04034b50, 4), le(h, 45, 2), le(h, 0, 2), le(h, 0, 2), le(h, 0x210000, 4), le(h, m.crc, 4);
    le(h, 0xFFFFFFFF, 4), le(h, 0xFFFFFFFF, 4), le(h, m.name.size(), 2), le(h, 20, 2);
    h += m.name;
    le(h, 1, 2), le(h, 16, 2), le(h, m.size, 8), le(h, m.size, 8);
    h += body;
    ino->write(at, h.data(), h.size());
    at += h.size() - body.size() + m.size;
    ms.push_back(m);
  }
  uint64_t cd = at;
  const uint64_t PYLIM = 0x7FFFFFFF;
  std::string dir;
  for (auto &m : ms) {
    std::string x;
    bool bs = m.size > PYLIM, bo = m.off > PYLIM;
    if (bs) le(x, m.size, 8), le(x, m.size, 8);
    if (bo) le(x, m.off, 8);
    le(dir, 0x02014b50, 4), le(dir, 45, 2), le(dir, 45, 2), le(dir, 0, 2), le(dir, 0, 2), le(dir, 0x210000, 4), le(dir, m.crc, 4);
    le(dir, bs ? 0xFFFFFFFF : m.size, 4), le(dir, bs ? 0xFFFFFFFF : m.size, 4);
    le(dir, m.name.size(), 2), le(dir, x.empty() ? 0 : x.size() + 4, 2), le(dir, 0, 2), le(dir, 0, 2), le(dir, 0, 2), le(dir, 0600u << 16, 4);
    le(dir, bo ? 0xFFFFFFFF : m.off, 4);
    dir += m.name;
    if (!x.empty()) le(dir, 1, 2), le(dir, x.size(), 2), dir += x;
  }
  uint64_t dsize = dir.size();
  if (cd > PYLIM) {
    uint64_t zo = cd + dsize;
    le(dir, 0x06064b50, 4), le(dir, 44, 8), le(dir, 45, 2), le(dir, 45, 2), le(dir, 0, 4), le(dir, 0, 4), le(dir, n, 8), le(dir, n, 8), le(dir, dsize, 8), le(dir, cd, 8);
    le(dir, 0x07064b50, 4), le(dir, 0, 4), le(dir, zo, 8), le(dir, 1, 4);
  }
  le(dir, 0x06054b50, 4), le(dir, 0, 2), le(dir, 0, 2), le(dir, n, 2), le(dir, n, 2), le(dir, dsize, 4), le(dir, std::min<uint64_t>(cd, 0xFFFFFFFF), 4), le(dir, 0, 2);
  ino->write(cd, dir.data(), dir.size());
  std::string what = strf("NumPy archive of %llu MB", (unsigned long long)(cd / MB));
  ops::Reader rd;
  Res r = attempt("open a " + what, [&] { rd.open("/simfs/fb.npz", 0); });
  nontrivial();
  count("probe.large_foreign_archive");
  note_sig(cd > 0xFFFFFFFF ? 3 : cd > PYLIM ? 2 : 1);
  if (!r.ok()) {
    count("probe.large_foreign_refused");
    if (cd < 0xFFFFFFFF) violation(cls_read, "opening a %s failed: %s", what.c_str(), r.what.c_str());
    return;
  }
  size_t nk = 0;
  attempt("keys", [&] { nk = rd.keys().size(); });
  if (nk != n) violation(cls_list, "a %s with %zu members lists %zu", what.c_str(), n, nk);
  for (auto &m : ms) {
    if (m.big) continue;
    Ptr p;
    r = attempt("read a member at offset " + std::to_string(m.off), [&] { p = rd.read(m.t.dt, m.name, 0); });
    if (!r.ok()) {
      if (cd < 0xFFFFFFFF) violation(cls_read, "reading %s at offset %llu of a %s failed: %s", m.name.c_str(), (unsigned long long)m.off, what.c_str(), r.what.c_str());
      continue;
    }
    check_tensor(*p, m.t, cls_read, what);
  }
  rd.destroy();
  fs_remove("/simfs/fb.npz");
}

// One tensor of about 2 or 4 GiB, saved and loaded: sizes in bytes or elements pass 31 and 32 bits.
namespace {
template <class T> void giant(const char *tname) {
  static const std::vector<uint64_t> LIM = {1ull << 32, 1ull << 31};
  uint64_t lim = pick(WL, LIM);
  int64_t off = pick(WL, std::vector<int64_t>{0, 64, -64, 4096, 1 << 20});
  uint64_t n = (lim + (uint64_t)off) / sizeof(T);
  bool split = draw(WL, 2), fortran = draw(WL, 2), stream = draw(WL, 2);
  uint64_t rows = split ? pick(WL, std::vector<uint64_t>{2, 4, 8}) : 1; // all of them divide n
  std::vector<size_t> shape = split ? std::vector<size_t>{(size_t)rows, (size_t)(n / rows)} : std::vector<size_t>{(size_t)n};
  npy::endian_t e = sizeof(T) > 1 && !(lim >> 32) && draw(WL, 5) == 4 ? npy::endian_t::BIG : npy::endian_t::NATIVE;
  bool swapped = e == npy::endian_t::BIG;
  std::string what = strf("%s tensor of %llu elements (2^%d%+lld bytes%s)", tname, (unsigned long long)n, lim >> 32 ? 32 : 31, (long long)off, swapped ? ", big-endian" : "");
  describe("%s", what.c_str());
  note_sig(lim + (uint64_t)off * 31 + sizeof(T) + 7 * split + 5 * fortran + 3 * stream + swapped);
  int lock = ::open("/tmp/npysim-huge.lock", O_RDWR | O_CREAT, 0600); // several at once would not fit in real memory
  if (lock >= 0) flock(lock, LOCK_EX);
  alarm(600);
  if (draw(WL, 3) == 2) gen::benign_io();
  uint64_t bytes = n * sizeof(T), seed = mix(n, (uint64_t)off + 5);
  Bulk ref;
  ref.n = bytes;
  ref.seed = seed;
  std::unique_ptr<npy::tensor<T>> t, u;
  Res r = attempt("make a " + what, [&] { t.reset(new npy::tensor<T>(shape, fortran)); });
  expect_ok(r, "C01:giant", what);
  if (t->size() != n) violation("C01:giant", "a %s has %zu elements", what.c_str(), t->size());
  auto each_mark = [&](auto f) {
    f(0);
    f(bytes - 1);
    for (uint64_t i = seed % (64 * MB); i < bytes; i += 64 * MB) f(i);
  };
  char *raw = (char *)t->data();
  each_mark([&](uint64_t i) { Bulk::mark(bytes, seed, i, raw + i); });
  r = attempt("save", [&] {
    if (stream) {
      std::ofstream os("/simfs/giant.npy", std::ios::binary);
      npy::save(os, *t, e);
    } else {
      t->save("/simfs/giant.npy", e);
    }
  });
  expect_ok(r, "C01:giant", "saving a " + what);
  Inode *ino = fs_inode("/simfs/giant.npy");
  if (!ino) violation("C01:giant", "saving a %s left no file", what.c_str());
  unsigned char h[10];
  uint64_t hl = ino->read(0, (char *)h, 10) == 10 ? 10u + h[8] + 256u * h[9] : 0;
  if (ino->size != hl + bytes) violation("C01:giant", "saving a %s wrote %llu bytes, not %llu", what.c_str(), (unsigned long long)ino->size, (unsigned long long)(hl + bytes));
  each_mark([&](uint64_t i) { // byte i of the tensor is there
    char want, got = 0;
    Bulk::mark(bytes, seed, i, &want);
    uint64_t at = swapped ? i / sizeof(T) * sizeof(T) + (sizeof(T) - 1 - i % sizeof(T)) : i;
    if (std::is_same<T, std::complex<float>>::value && swapped) at = i / 4 * 4 + (3 - i % 4);
    ino->read(hl + at, &got, 1);
    if (got != want) violation("C01:giant", "saving a %s: byte %llu is wrong in the file", what.c_str(), (unsigned long long)i);
  });
  nontrivial();
  count("probe.giant_tensor");
  r = attempt("load", [&] {
    if (stream) {
      std::ifstream is("/simfs/giant.npy", std::ios::binary);
      u.reset(new npy::tensor<T>(npy::load<npy::tensor<T>>(is)));
    } else {
      u.reset(new npy::tensor<T>(npy::tensor<T>::from_file("/simfs/giant.npy")));
    }
  });
  expect_ok(r, "C01:giant", "loading a " + what);
  if (u->shape() != shape || u->fortran_order() != fortran || u->size() != n || u->dtype() != t->dtype())
    violation("C01:giant", "a %s loads with another shape or order", what.c_str());
  if (memcmp(u->data(), t->data(), bytes)) violation("C01:giant", "a %s loads with other values", what.c_str());
  if (split) { // an index reaches the element at its place
    each_mark([&](uint64_t i) {
      uint64_t k = i / sizeof(T), cols = n / rows;
      std::vector<size_t> ix = fortran ? std::vector<size_t>{(size_t)(k % rows), (size_t)(k / rows)} : std::vector<size_t>{(size_t)(k / cols), (size_t)(k % cols)};
      const T *p = nullptr;
      Res q = attempt("index", [&] { p = &(*u)(ix); });
      expect_ok(q, "C01:giant", "indexing a " + what);
      if (p != u->data() + k) violation("C01:giant", "index (%zu, %zu) of a %s is another element", ix[0], ix[1], what.c_str());
    });
  }
  t.reset();
  u.reset();
  fs_remove("/simfs/giant.npy");
  if (lock >= 0) ::close(lock);
}
} // namespace
void c01g() {
  mallopt(M_MMAP_MAX, 0);
  A.limit = 64ull << 30;
  A.live_cap = 64ull << 30;
  A.fill = 0;
  switch (draw(WL, 5)) {
  case 0: giant<std::uint8_t>("u1"); break;
  case 1: giant<double>("f8"); break;
  case 2: giant<std::int32_t>("i4"); break;
  case 3: giant<std::complex<float>>("c8"); break;
  default: giant<std::uint16_t>("u2");
  }
  if (fs_open_handles()) violation("C01:handles", "%zu files left open", fs_open_handles());
}

// Indices into a tensor whose element numbers pass 31 or 32 bits, across copies and moves.
void c20g() {
  mallopt(M_MMAP_MAX, 0);
  A.limit = 64ull << 30;
  A.live_cap = 64ull << 30;
  A.fill = 0;
  static const std::vector<std::vector<size_t>> SHAPES = {{65536, 65600}, {2, 3, 800000000}, {4294967301, 1}, {1, 2147483659}, {32768, 65600}, {1291, 1291, 1291, 2}, {2, 4294967299}, {4294967299, 2}};
  std::vector<size_t> shape = SHAPES[weighted(WL, {3, 2, 2, 2, 2, 2, 2, 2})];
  bool fortran = draw(WL, 2);
  uint64_t n = 1;
  std::string what = "u1 tensor of";
  for (auto d : shape) n *= d, what += strf(" %zu", d);
  what += fortran ? " in column-major order" : " in row-major order";
  describe("%s", what.c_str());
  int lock = ::open("/tmp/npysim-huge.lock", O_RDWR | O_CREAT, 0600);
  if (lock >= 0) flock(lock, LOCK_EX);
  alarm(600);
  using T = npy::tensor<std::uint8_t>;
  std::unique_ptr<T> t;
  Res r = attempt("make a " + what, [&] { t.reset(new T(shape, fortran)); });
  expect_ok(r, "C20:giant", what);
  if (t->size() != n || t->values().size() != n) violation("C20:giant", "a %s has %zu elements", what.c_str(), t->size());
  size_t m = 6 + draw(WL, 20);
  nontrivial();
  count("probe.giant_tensor");
  for (size_t i = 0; i < m; ++i) {
    OpSpan sp;
    std::vector<size_t> ix;
    for (auto d : shape) ix.push_back(draw(WL, 3) == 0 ? d - 1 - draw(WL, std::min<uint64_t>(d, 3)) : draw(WL, d));
    uint64_t k = 0, s = 1;
    for (size_t j = 0; j < shape.size(); ++j) {
      size_t d = fortran ? j : shape.size() - 1 - j;
      k += ix[d] * s;
      s *= shape[d];
    }
    unsigned how = (unsigned)draw(WL, 5);
    std::vector<std::int32_t> jx;
    for (size_t j = 0; j < ix.size(); ++j) {
      if (ix[j] > INT32_MAX) how = 0; // not expressible
      jx.push_back(how == 3 && shape[j] - ix[j] <= INT32_MAX ? -(std::int32_t)(shape[j] - ix[j]) : (std::int32_t)ix[j]);
    }
    const std::uint8_t *p = nullptr;
    std::uint8_t v = (std::uint8_t)(1 + draw(WL, 255));
    const T &ct = *t;
    r = attempt("index", [&] {
      if (how == 0) p = &(*t)(ix);
      else if (how == 1) p = &ct(ix);
      else if (how == 4 && ix.size() == 2) p = &(*t)(jx[0], jx[1]);
      else if (how == 4) t->set(jx, v);
      else p = &ct.get(jx);
    });
    std::string where = strf("index %zu", ix[0]);
    for (size_t j = 1; j < ix.size(); ++j) where += strf(", %zu", ix[j]);
    expect_ok(r, "C20:giant", where + " of a " + what);
    bool wrong = p ? p != t->data() + k : t->data()[k] != v;
    if (wrong) violation("C20:giant", "%s of a %s is another element", where.c_str(), what.c_str());
    if (draw(WL, 8) == 7) {
      r = attempt("move", [&] { t.reset(new T(std::move(*t))); });
      expect_ok(r, "C20:giant", "moving a " + what);
    }
    note_sig(k);
  }
  t.reset();
  if (lock >= 0) ::close(lock);
}

void c16() {
  mallopt(M_MMAP_MAX, 0); // keep the pages: faulting them in again dominates
  mallopt(M_TRIM_THRESHOLD, INT32_MAX);
  A.limit = 64ull << 30;
  A.live_cap = 64ull << 30;
  A.fill = 0xA5;
  switch (weighted(WL, {3, 3, 6, 1, 2})) {
  case 0: names(); break;
  case 1: counts(); break;
  case 2: offsets(false); break;
  case 3: offsets(true); break;
  default: foreign_big("C16:reads-back", "C16:reads-back");
  }
  if (fs_open_handles()) violation("C16:handles", "%zu files left open", fs_open_handles());
}
} // namespace wl
