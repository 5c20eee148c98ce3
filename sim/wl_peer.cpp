// C04: the library as a reader of what NumPy writes.
#include "common.h"
#include "workloads.h"
#include <algorithm>
#include <fstream>
#include <set>

namespace wl {
namespace {
// element types NumPy can write and the library does not have
const char *const UNSUPPORTED[] = {"<f2",  ">f2",     "<f16",   ">f16",    "<c32", ">c32", "|O",    "|S5",   "|S1",   "|V8",   "|V1",
                                   "<M8[ns]", ">M8[us]", "<M8[D]", "<m8[s]", "<m8",  "<M8", "|S0", "|V0", "<U4x", "<U 4", "<U-1", "<U", "<i3", "<u16", "<f1", "<c4", "<i4 ", "|i1x", "<b4",
                                   "[('a', '<i4'), ('b', '<f8')]", "[('x', '|u1')]", "[('p', '<i4', (2,)), ('q', '|S3')]"};
size_t item_of(const std::string &d) {
  if (d == "[('a', '<i4'), ('b', '<f8')]") return 12;
  if (d[0] == '[') return d[3] == 'x' ? 1 : 11;
  if (d[1] == 'M' || d[1] == 'm' || d[1] == 'O') return 8;
  size_t n = (size_t)std::max(0, atoi(d.c_str() + 2));
  return d[1] == 'U' ? 4 * n : n;
}

struct PeerFile {
  TSpec t;          // what it holds
  bool big = false;
  bool lenient = false;     // exact or refused
  bool unsupported = false; // must be refused
  std::string bytes, what;
};

PeerFile npy_file(uint64_t max_bytes, bool may_refuse) {
  PeerFile f;
  size_t k = weighted(WL, {10, may_refuse ? 4u : 0u, may_refuse ? 2u : 0u, may_refuse ? 1u : 0u});
  gen::Cfg gc;
  gc.max_bytes = max_bytes;
  gc.big_weight = 1;
  ref::NpyStyle st;
  st.big = draw(WL, 2);
  if (k == 1) { // an element type the library lacks
    gc.only_dt = ref::U1;
    gc.big_weight = 0;
    gc.max_bytes = std::min<uint64_t>(max_bytes, 2000);
    f.t = gen::tensor(gc);
    st.descr = UNSUPPORTED[draw(WL, sizeof UNSUPPORTED / sizeof *UNSUPPORTED)];
    f.unsupported = true;
    f.bytes = ref::npy_encode(f.t, st);
    size_t item = item_of(st.descr);
    for (size_t i = 1; i < item; ++i) f.bytes += f.t.raw;
    if (item == 0) f.bytes.resize(f.bytes.size() - f.t.raw.size());
    f.what = "NumPy file of " + st.descr;
    count("probe.unsupported_dtype");
    return f;
  }
  f.t = gen::tensor(gc);
  f.big = st.big;
  st.major = draw(WL, 3) == 2 ? 2 : 1;
  st.align = draw(WL, 3) == 2 ? 16 : 64;
  if (f.t.dt == ref::UN) st.extra_ulen = pick(WL, std::vector<size_t>{0, 1, 7, 64});
  if (k == 2) { // structure no NumPy reader of 1.0/2.0 knows
    f.unsupported = true;
    size_t what = draw(WL, 9);
    std::string v = ref::npy_encode(f.t, st);
    switch (what) {
    case 0: // version 3.0 (UTF-8 field names)
      st.major = 2;
      v = ref::npy_encode(f.t, st);
      v[6] = 3;
      break;
    case 1: v[6] = (char)pick(WL, std::vector<int>{0, 4, 9, 0xFF}); break;
    case 2: v[7] = (char)pick(WL, std::vector<int>{1, 2, 0xFF}); break;
    case 3:
    case 7:
    case 8: v[draw(WL, 6)] ^= pick(WL, std::vector<char>{0x20, 1, (char)0x80}); break; // the magic
    case 4: { // a key is missing
      const char *key = pick(WL, std::vector<const char *>{"'descr'", "'fortran_order'", "'shape'"});
      size_t at = v.find(key), comma = v.find(", '", at);
      if (comma == std::string::npos) comma = v.find("), }") + 1;
      std::string cut = v.substr(at, comma + 2 - at);
      v.erase(at, cut.size());
      v.insert(v.find('\n', at), std::string(cut.size(), ' '));
      break;
    }
    default: { // a key too many, in place of padding
      size_t at = v.find(", }"), nl = v.find('\n', at);
      std::string extra = ", 'extra': 1";
      if (nl < at + 3 + extra.size()) { v[6] = 9; break; }
      v.insert(at, extra);
      v.erase(v.find('\n', at) - extra.size(), extra.size());
    }
    }
    f.bytes = v;
    f.what = strf("NPY-like file, malformed in way %zu, of %s", what, f.t.brief().c_str());
    count("probe.unsupported_structure");
    return f;
  }
  if (k == 3) { // Python 2 wrote long integers with a suffix
    st.py2_long = true;
    f.lenient = true;
  }
  if (draw(WL, 20) == 19) { // padded so that the data begin on a page or further on
    st.align = pick(WL, std::vector<size_t>{4096, 65536, 131072, 262144});
    if (st.align > 65536) st.major = 2;
    count("probe.long_header");
  }
  f.bytes = ref::npy_encode(f.t, st);
  f.t = ref::canonical(f.t);
  f.what = strf("NumPy %d.0 file (align %zu%s%s) of %s", st.major, st.align, st.py2_long ? ", Python 2" : "", st.big ? ", big" : "", f.t.brief().c_str());
  return f;
}

void judge(const PeerFile &f, const Res &r, const Any *p, const Hdr *h, const std::string &ctx) {
  std::string what = ctx + " of a " + f.what;
  if (f.unsupported) {
    if (r.ok()) violation("C04:misread", "%s returned normally", what.c_str());
    return;
  }
  if (!r.ok()) {
    if (!f.lenient) violation("C04:refused", "%s failed although it is a supported file: %s", what.c_str(), r.what.c_str());
    return;
  }
  if (p) check_tensor(*p, f.t, "C04:misread", what);
  if (h) check_hdr(*h, f.t, f.big, "C04:misread", what);
}

void one_file(const PeerFile &f) {
  unsigned ask = (unsigned)weighted(WL, {4, 2, 1}); // load, peek, wrong type
  unsigned spell = (unsigned)draw(WL, 3), flavor = draw(WL, 4) == 3;
  unsigned how = (unsigned)draw(IO, 4);
  ref::DT dt = f.t.dt;
  if (f.unsupported && draw(WL, 3)) dt = (ref::DT)draw(WL, ref::NDT);
  if (ask == 2) {
    dt = (ref::DT)draw(WL, ref::NDT);
    if (dt == f.t.dt) return;
  }
  std::istringstream is1(f.bytes);
  ops::SimBuf sb;
  std::vector<char> buf;
  std::ifstream is3;
  std::istream is2(&sb);
  std::istream *is = &is1;
  if (how == 1) {
    sb.data = f.bytes;
    sb.in_area = pick(IO, std::vector<size_t>{4096, 1, 5, 100, 70000});
    sb.start_reading();
    is = &is2;
  }
  if (how >= 2) fs_put("/simfs/peer.npy", f.bytes);
  if (how == 3) {
    buf.resize(pick(IO, std::vector<size_t>{1, 64, 4096}));
    is3.rdbuf()->pubsetbuf(buf.data(), (std::streamsize)buf.size());
    is3.open("/simfs/peer.npy", std::ios::binary);
    is = &is3;
  }
  odd_stream(*is);
  scribble_stack((uint8_t)draw(IO, 256));
  Ptr p;
  Hdr h;
  Res r;
  const char *names[] = {"load", "peek", "load with a wrong type"};
  std::string what = strf("%s (delivery %u) of a %s", names[ask], how, f.what.c_str());
  if (ask == 1) r = attempt(what, [&] { h = how == 2 ? ops::peek("/simfs/peer.npy") : ops::peek(*is, spell); });
  else r = attempt(what, [&] { p = how == 2 ? ops::load(dt, "/simfs/peer.npy", spell, flavor) : ops::load(dt, *is, spell, flavor); });
  if (ask == 2) {
    if (r.ok()) violation("C04:misread", "%s as %s returned a tensor", what.c_str(), ref::DT_NAME[dt]);
    return;
  }
  judge(f, r, p.get(), ask == 1 ? &h : nullptr, names[ask]);
  nontrivial();
  note_sig((f.unsupported ? 100 : f.t.dt * 4 + f.big * 2 + f.t.fortran) + 1000 * ask + 10000 * how);
}

void one_archive() {
  size_t n = draw(WL, 6);
  bool lots = draw(WL, 60) == 59;
  if (lots) n = many();
  std::vector<PeerFile> fs;
  std::vector<ref::Member> ms;
  std::vector<ref::ZEntry> dummy;
  std::set<std::string> used;
  bool deflate = draw(WL, 2), old = draw(WL, 4) == 3, streaming = draw(WL, 10) == 9, literal = draw(WL, 3) == 2;
  for (size_t i = 0; i < n; ++i) {
    PeerFile f = npy_file(lots ? 100 : draw(WL, 16) == 15 ? 1 << 17 : 1 << 14, draw(WL, 4) == 3);
    ref::Member m;
    m.name = lots ? strf("arr_%zu.npy", i) : gen::stored(gen::name());
    if (m.name.find('\0') != std::string::npos || m.name == ".npy" || !used.insert(m.name).second) m.name = strf("u%zu.npy", i), used.insert(m.name);
    m.bytes = f.bytes;
    m.style.deflate = deflate;
    m.style.zip64_local = !old;
    m.style.zip64_literal = literal;
    m.style.level = (int)pick(WL, std::vector<int>{6, 1, 9, 0, 3});
    m.style.strategy = (int)draw(WL, 5); // default, filtered, huffman only, RLE, fixed
    m.style.wbits = (int)pick(WL, std::vector<int>{15, 9, 12});
    m.style.mem = (int)pick(WL, std::vector<int>{8, 1, 9});
    m.style.flush_every = (int)pick(WL, std::vector<int>{0, 1000, 333, 70, 5000});
    if (deflate && draw(WL, 3) == 2) {
      m.style.odd = 1 + draw(WL, 1 << 24);
      count("peer.unusual_deflate");
    }
    m.style.time = (uint16_t)draw(WL, 65536);
    m.style.date = (uint16_t)draw(WL, 65536);
    m.style.made = (uint16_t)pick(WL, std::vector<int>{20, 0x0314, 45, 63});
    m.style.need = (uint16_t)pick(WL, std::vector<int>{20, 45, 10});
    m.style.attr = (uint32_t)pick(WL, std::vector<uint64_t>{0600u << 16, 0, 0x81A40000u});
    bool ascii = std::all_of(m.name.begin(), m.name.end(), [](char c) { return (unsigned char)c < 128; });
    m.style.flags = ascii ? 0 : 0x800;
    if (m.style.deflate && draw(WL, 3) == 2) m.style.flags |= (uint16_t)(2 * draw(WL, 4));
    m.style.descriptor = streaming; // written to something that cannot seek
    ms.push_back(m);
    fs.push_back(f);
  }
  std::string bytes = ref::zip_encode(ms);
  std::string odd;
  if (draw(WL, 12) == 11) { // a ZIP feature NumPy does not use
    if (draw(WL, 2)) {
      bytes[bytes.size() - 2] = 4;
      bytes += "note";
      odd = " with a comment";
    } else {
      bytes = std::string("#!stub\n") + bytes;
      odd = " behind a stub";
    }
  }
  bool file = draw(IO, 2);
  if (file) fs_put("/simfs/peer.npz", bytes);
  bool lenient = streaming || !odd.empty();
  std::string what = strf("NumPy archive of %zu entries%s%s%s%s", n, deflate ? ", compressed" : "", old ? ", without ZIP64 fields" : "", streaming ? ", streamed" : "", odd.c_str());
  ops::Reader rd;
  Res r = attempt("open " + what, [&] { file ? rd.open("/simfs/peer.npz", (unsigned)draw(WL, 3)) : rd.open_string(bytes, (unsigned)draw(WL, 2)); });
  if (!r.ok()) {
    if (!lenient) violation("C04:refused", "opening a %s failed: %s", what.c_str(), r.what.c_str());
    return;
  }
  Archive a;
  for (size_t i = 0; i < n; ++i) a.items.push_back({ms[i].name, fs[i].t});
  check_keys(rd, a, "C04:keys", what);
  for (unsigned q = 0; q < 2 * n && q < 8; ++q) {
    size_t i = draw(WL, n);
    PeerFile f = fs[i];
    f.what += " in a " + what;
    f.lenient |= lenient;
    bool pk = draw(WL, 3) == 2, bare = draw(WL, 3) == 2;
    std::string nm = ms[i].name;
    if (bare && !used.count(nm.substr(0, nm.size() - 4))) nm = nm.substr(0, nm.size() - 4);
    ref::DT dt = f.unsupported && draw(WL, 2) ? (ref::DT)draw(WL, ref::NDT) : f.t.dt;
    Ptr p;
    Hdr h;
    scribble_stack((uint8_t)draw(IO, 256));
    if (pk) r = attempt("peek " + gen::brief(nm), [&] { h = rd.peek(nm); });
    else r = attempt("read " + gen::brief(nm), [&] { p = rd.read(dt, nm, (unsigned)draw(WL, 2), draw(WL, 4) == 3); });
    judge(f, r, p.get(), pk ? &h : nullptr, pk ? "peek" : "read");
    nontrivial();
    note_sig((f.unsupported ? 100 : f.t.dt) + 200 * deflate + 400 * old + 100000);
  }
}

// What is no archive does not open as one, and what is no entry is not read.
void no_archive() {
  PeerFile f = npy_file(1 << 12, false);
  ref::Member m;
  m.name = "a.npy";
  m.bytes = f.bytes;
  m.style.deflate = draw(WL, 2);
  m.style.zip64_local = draw(WL, 2);
  std::string z = ref::zip_encode({m});
  size_t q = z.size() - 6, cd = (uint8_t)z[q] | (uint8_t)z[q + 1] << 8 | (uint8_t)z[q + 2] << 16;
  std::string bytes, what;
  bool entry = false;
  switch (draw(WL, 8)) {
  case 6: { // BZIP2, LZMA, Zstandard and the like
    m.style.deflate = true;
    bytes = ref::zip_encode({m}), what = "archive whose entry has a method of compression the library lacks", entry = true;
    q = bytes.size() - 6, cd = (uint8_t)bytes[q] | (uint8_t)bytes[q + 1] << 8 | (uint8_t)bytes[q + 2] << 16;
    bytes[8] = bytes[cd + 10] = pick(WL, std::vector<char>{12, 14, 9, 93, 1, 0, 95});
    break;
  }
  case 0: bytes = std::string(22 + draw(WL, 3) * draw(WL, 500), '\0'), what = "zeros"; break;
  case 1: bytes = f.bytes, what = f.what; break;
  case 2: bytes = z, bytes[bytes.size() - 22 + draw(WL, 4)] ^= (char)(1 << draw(WL, 8)), what = "archive whose end record has another signature"; break;
  case 3: bytes = z, bytes[cd + draw(WL, 4)] ^= (char)(1 << draw(WL, 8)), what = "archive whose directory has another signature"; break;
  case 4: bytes = z, bytes[draw(WL, 4)] ^= (char)(1 << draw(WL, 8)), what = "archive whose entry has another signature", entry = true; break;
  case 5: bytes = std::string(draw(WL, 22), draw(WL, 2) ? '\0' : 'P'), what = "file shorter than an end record"; break;
  default: bytes = z, bytes.insert(0, std::string(z.size(), 'x')), bytes.resize(bytes.size() - 22), bytes += std::string(22, '\0'), what = "archive whose end record is blank";
  }
  bool file = draw(IO, 2);
  if (file) fs_put("/simfs/peer.npz", bytes);
  what = strf("%s of %zu bytes", what.c_str(), bytes.size());
  ops::Reader rd;
  scribble_stack((uint8_t)draw(IO, 256));
  Res r = attempt("open " + what, [&] { file ? rd.open("/simfs/peer.npz", (unsigned)draw(WL, 3)) : rd.open_string(bytes, (unsigned)draw(WL, 2)); });
  count("probe.no_archive");
  nontrivial();
  if (!entry) {
    if (r.ok()) violation("C04:misread", "opening a %s as an archive returned normally", what.c_str());
    return;
  }
  if (!r.ok()) return;
  Ptr p;
  r = attempt("read", [&] { p = rd.read(f.t.dt, "a", (unsigned)draw(WL, 2)); });
  if (r.ok()) violation("C04:misread", "reading from an %s returned a tensor", what.c_str());
}

// numpy.savez of more arrays than a plain end record can count
void huge_archive() {
  size_t n = 65535 + draw(WL, 4) * 300;
  TSpec t;
  t.shape = {1};
  t.raw = "x";
  ref::NpyStyle st;
  std::vector<ref::Member> ms(n);
  std::string b = ref::npy_encode(t, st);
  for (size_t i = 0; i < n; ++i) ms[i].name = strf("arr_%zu.npy", i), ms[i].bytes = b;
  std::string z = ref::zip_encode(ms);
  std::string end = z.substr(z.size() - 22);
  z.resize(z.size() - 22);
  auto le = [](std::string &s, uint64_t v, int k) {
    for (int i = 0; i < k; ++i) s += (char)(v >> (8 * i));
  };
  auto rd4 = [&](size_t o) { return (uint8_t)end[o] | (uint8_t)end[o + 1] << 8 | (uint8_t)end[o + 2] << 16 | (uint64_t)(uint8_t)end[o + 3] << 24; };
  uint64_t size = rd4(12), off = rd4(16), at = z.size();
  if (n > 65535) {
    le(z, 0x06064b50, 4), le(z, 44, 8), le(z, 45, 2), le(z, 45, 2), le(z, 0, 4), le(z, 0, 4);
    le(z, n, 8), le(z, n, 8), le(z, size, 8), le(z, off, 8);
    le(z, 0x07064b50, 4), le(z, 0, 4), le(z, at, 8), le(z, 1, 4);
    end.replace(8, 4, "\xff\xff\xff\xff");
  }
  z += end;
  ops::Reader r;
  Res q = attempt(strf("open a NumPy archive of %zu arrays", n), [&] { r.open_string(z, 0); });
  count("probe.huge_entry_count");
  nontrivial();
  if (!q.ok()) {
    if (n <= 65535) violation("C04:refused", "opening a NumPy archive of %zu entries failed: %s", n, q.what.c_str());
    return;
  }
  size_t listed = 0;
  attempt("keys", [&] { listed = r.keys().size(); });
  if (listed != n) violation("C04:keys", "a NumPy archive of %zu arrays lists %zu of them", n, listed);
}
} // namespace

void c04() {
  A.limit = 64 << 20;
  pick_piece();
  set_fill((uint8_t)pick(WL, std::vector<unsigned>{0xA5, 0, 0xFF, 0x31}));
  if (draw(WL, 1500) == 1499) return huge_archive();
  if (draw(WL, 500) == 499) return foreign_big("C04:refused", "C04:keys");
  for (int step = 0; step < 10; ++step) {
    OpSpan sp;
    size_t k = weighted(WL, {step ? 4u : 0u, 16, 8, 1});
    if (k == 0) break;
    gen::benign_io();
    if (k == 1) {
      PeerFile f = npy_file(1 << 16, true);
      if (step == 0) describe("%s", f.what.c_str());
      one_file(f);
    } else if (k == 3) {
      no_archive();
    } else {
      one_archive();
    }
  }
  if (fs_open_handles()) violation("C04:handles", "%zu files left open", fs_open_handles());
}
} // namespace wl
