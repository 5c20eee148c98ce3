// Adversarial input and failing resources: C08, C10, C11.
#include "common.h"
#include "workloads.h"
#include <algorithm>
#include <fstream>
#include <set>

namespace wl {

// =================================================================== C08
namespace {
void le(std::string &s, uint64_t v, int k) {
  for (int i = 0; i < k; ++i) s += (char)(v >> (8 * i));
}
std::string npy_with(const std::string &dict, const std::string &payload, int major, int64_t len = -1) {
  std::string o = "\x93NUMPY";
  o += (char)major;
  o += '\0';
  le(o, len < 0 ? dict.size() : (uint64_t)len, major == 1 ? 2 : 4);
  return o + dict + payload;
}
const std::vector<std::string> &tokens() {
  static const std::vector<std::string> v = {
      "{", "}", "(", ")", "'", "\"", ",", ":", " ", "\n", std::string(1, '\0'), "True", "False", "None", "T", "F", "'descr'", "'shape'", "'fortran_order'",
      "'descr': ", "'shape': ", "'<i4'", "'<U'", "'<U3'", "'<U99999999999999999999'", "'<U4294967296'", "'<U18446744073709551615'", "'<U-1'", "'<U 3'", "'<U0x3'",
      "'U'", "''", "'|'", "'<'", "'>U1'", "'|U2'", "'=i4'", "'i4'", "'<c32'", "'|b1'", "<", "-1", "18446744073709551615", "18446744073709551616",
      "4294967296", "65536", "9223372036854775808", "2305843009213693952", "0", "00012", "1e5", "0x10", "1L", "+3", "(1", "((", "))", "[", "]", "\x80", "\xff",
      std::string(400, '9'), std::string(300, '('), std::string(300, ' '), std::string(200, ','), "(3,)", "()", "(,)", "(2, 3)", "(0, 18446744073709551615)",
      "(4294967296, 4294967296)", "(18446744073709551615, 2)", "(3 4)", "(3, -4)", "(1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1)"};
  return v;
}
std::string dict_text(std::string &how) {
  std::string d;
  static const std::vector<std::string> descrs = {"<i4", "|u1", "<U3", ">U1", "<f8", ">c16", "|b1", ">i2", "<c8", "<U0"};
  static const std::vector<std::string> shapes = {"(3,)", "()", "(2, 3)", "(0, 5)", "(1000,)", "(4294967296, 4294967296)", "(18446744073709551615, 18446744073709551615)",
                                                  "(9223372036854775808, 2)", "(18446744073709551616,)", "(100000,)", "(3037000500, 3037000500, 2)",
                                                  "(0, 18446744073709551615, 18446744073709551615)", "(6148914691236517206, 3)", "(268435456, 64)"};
  std::string a = "'descr': '" + pick(WL, descrs) + "'", b = std::string("'fortran_order': ") + (draw(WL, 2) ? "True" : "False"), c = "'shape': " + pick(WL, shapes);
  switch (draw(WL, 6)) {
  case 4: // keys missing, twice, and unknown
  case 5: {
    size_t n = draw(WL, 6);
    d = "{";
    for (size_t i = 0; i < n; ++i) {
      switch (draw(WL, 6)) {
      case 0: d += a; break;
      case 1: d += b; break;
      case 2: d += c; break;
      case 3: d += "'descr': '" + pick(WL, descrs) + "'"; break;
      case 4: d += "'shape': " + pick(WL, shapes); break;
      default: d += pick(WL, std::vector<std::string>{"'align': True", "'': 0", "'fortran_order': True", "'fortran': 1", "'Shape': (3,)"});
      }
      d += ", ";
    }
    d += "}";
    break;
  }
  case 0: d = "{" + a + ", " + b + ", " + c + ", }"; break;
  case 1: d = "{" + c + ", " + a + ", " + b + ", }"; break;
  case 2: d = "{" + a + ", " + b + ", " + c + "}"; break;
  default: d = "{" + b + ", " + c + ", " + a + ", }";
  }
  size_t k = draw(WL, 4);
  for (size_t i = 0; i < k && !d.empty(); ++i) {
    size_t at = draw(WL, d.size());
    const std::string &t = tokens()[draw(WL, tokens().size())];
    switch (draw(WL, 5)) {
    case 0: d.insert(at, t); break;
    case 1: d.replace(at, std::min<size_t>(d.size() - at, 1 + draw(WL, 12)), t); break;
    case 2: d.erase(at, 1 + draw(WL, 20)); break;
    case 3: d.resize(at); break;
    default: d += d.substr(at, 1 + draw(WL, 30));
    }
  }
  how = strf("header with %zu token edits", k);
  if (draw(WL, 4) != 3) d += "\n";
  return d;
}
void mutate_bytes(std::string &s, size_t k) {
  for (size_t i = 0; i < k; ++i) {
    if (s.empty()) return;
    size_t at = draw(WL, 3) ? draw(WL, s.size()) : draw(WL, std::min<size_t>(s.size(), 128));
    switch (draw(WL, 7)) {
    case 0: s[at] ^= (char)(1u << draw(WL, 8)); break;
    case 1: s[at] = (char)pick(WL, std::vector<int>{0, 0xFF, 0x7F, 0x80, 1, '\'', ','}); break;
    case 2: s.resize(at); break;
    case 3: s.erase(at, 1 + draw(WL, 16)); break;
    case 4: s.insert(at, std::string(1 + draw(WL, 16), (char)draw(WL, 256))); break;
    case 5: s[at] = (char)draw(WL, 256); break;
    default: { // a block from elsewhere
      size_t from = draw(WL, s.size()), n = std::min<size_t>(1 + draw(WL, 64), s.size() - std::max(from, at));
      std::string b = s.substr(from, n);
      s.replace(at, n, b);
    }
    }
  }
}
std::string bad_npy(std::string &how) {
  gen::Cfg gc;
  gc.max_bytes = 2000;
  gc.big_weight = 0;
  switch (weighted(WL, {16, 16, 4, 2})) {
  case 0: {
    std::string d = dict_text(how);
    std::string pay(pick(WL, std::vector<size_t>{0, 12, 24, 200, 4000, 8000}), (char)draw(WL, 256));
    int64_t len = -1;
    if (draw(WL, 6) == 5) {
      len = (int64_t)pick(WL, std::vector<uint64_t>{0, 1, 0xFFFF, 0xFFFFFFFF, 0x7FFFFFFF, d.size() + 1, d.size() - 1, d.size() + pay.size(), d.size() / 2});
      how += strf(", length field %lld", (long long)len);
    }
    return npy_with(d, pay, draw(WL, 4) == 3 ? 2 : 1, len);
  }
  case 1: {
    TSpec t = gen::tensor(gc);
    ref::NpyStyle st;
    st.big = draw(WL, 2);
    st.major = draw(WL, 4) == 3 ? 2 : 1;
    std::string s = ref::npy_encode(t, st);
    size_t k = 1 + draw(WL, 4);
    mutate_bytes(s, k);
    how = strf("NPY of %s with %zu byte edits", t.brief().c_str(), k);
    return s;
  }
  case 3: { // a header longer than a 16-bit length can say, or as long
    size_t n = pick(WL, std::vector<size_t>{65536, 65535, 65534, 65537, 66000, 70000, 131072, 200000, 2000000, 6000000});
    std::string a = "{'descr': '<i2', 'fortran_order': False, 'shape': (3,)", pad, d;
    unsigned k = (unsigned)draw(WL, 6);
    static const char *const FILL[] = {" ", "0", "1,", "(", "'", "9"};
    size_t room = n - a.size() - 4;
    while (pad.size() < room) pad += FILL[k];
    pad.resize(room);
    unsigned place = (unsigned)draw(WL, 4);
    if (k == 0 && place == 0) d = a + ", }" + pad + "\n";
    else if (k == 0 && place == 1) d = "{'descr': " + pad + "'<i2', 'fortran_order': False, 'shape': (3,), }\n";
    else if (k == 0 && place == 2) d = a + "," + pad + "}\n";
    else d = "{'descr': '<i2', 'fortran_order': False, 'shape': (" + pad + "3,), }\n";
    int64_t len = draw(WL, 4) == 3 ? (int64_t)pick(WL, std::vector<size_t>{0xFFFF, 0x10000, d.size() - 1, d.size() + 1, d.size() + 6}) : -1;
    how = strf("header of %zu bytes filled with '%s'", d.size(), FILL[k]);
    return npy_with(d, std::string(6, '\1'), draw(WL, 4) == 3 ? 1 : 2, len);
  }
  default: {
    size_t n = draw(WL, 300);
    std::string s = draw(WL, 2) ? "\x93NUMPY\x01" : "";
    if (!s.empty()) s += '\0';
    Rng r(draw(WL, 1 << 20));
    for (size_t i = 0; i < n; ++i) s += (char)(r.next() >> 11);
    how = strf("%zu random bytes", s.size());
    return s;
  }
  }
}
std::string good_npy() {
  gen::Cfg gc;
  gc.max_bytes = 3000;
  gc.big_weight = 0;
  ref::NpyStyle st;
  st.big = draw(WL, 2);
  return ref::npy_encode(gen::tensor(gc), st);
}
std::string bad_npz(std::string &how, std::vector<std::string> &names, size_t expand = 3000000) {
  size_t n = draw(WL, 4);
  std::vector<ref::Member> ms;
  std::string h;
  bool inner = false;
  for (size_t i = 0; i < n; ++i) {
    ref::Member m;
    switch (draw(WL, 7)) {
    case 5: m.name = gen::stored(gen::name()); break;
    case 6: m.name = strf("m%zu", i) + pick(WL, std::vector<std::string>{"%s%s%s%s%s%s%s%s%n%n", "%n%n%n%n%s", "%9999999d%s%s%s%s", "{}{0}", "$(x)`y`\n\t\"\\"}) + ".npy"; break;
    default: m.name = strf("m%zu.npy", i);
    }
    if (draw(WL, 3) == 2) {
      m.bytes = bad_npy(h);
      inner = true;
      how = "member is a " + h;
    } else {
      m.bytes = good_npy();
    }
    if (draw(WL, 40) == 39) { // a small file that expands to a lot
      m.bytes = npy_with(strf("{'descr': '|u1', 'fortran_order': False, 'shape': (%zu,), }\n", expand), std::string(expand, 0), 1);
      m.style.deflate = true;
      how = "expanding member";
    }
    m.style.deflate |= draw(WL, 2);
    m.style.zip64_local = draw(WL, 2);
    m.style.flush_every = (int)pick(WL, std::vector<int>{0, 70, 331});
    m.style.strategy = (int)draw(WL, 5);
    if (draw(WL, 4) == 3) m.style.odd = 1 + draw(WL, 1 << 24);
    names.push_back(m.name);
    ms.push_back(m);
  }
  std::string s = ref::zip_encode(ms);
  std::vector<ref::ZEntry> z;
  std::string err;
  ref::zip_decode(ref::source_of(s), z, err);
  size_t k = inner && draw(WL, 2) ? 0 : 1 + draw(WL, 3);
  size_t q = s.size() - 6;
  uint64_t cd = n ? (uint8_t)s[q] | (uint8_t)s[q + 1] << 8 | (uint8_t)s[q + 2] << 16 : 0;
  for (size_t i = 0; i < k; ++i) {
    switch (draw(WL, 6)) {
    case 0: { // a numeric field of some header
      static const unsigned lf[] = {0, 4, 6, 8, 14, 18, 22, 26, 28, 30, 40};
      static const unsigned cf[] = {0, 4, 6, 8, 10, 16, 20, 24, 28, 30, 32, 34, 42, 46};
      static const unsigned ef[] = {0, 4, 6, 8, 10, 12, 16, 20};
      unsigned where = (unsigned)draw(WL, 3);
      uint64_t at;
      if (where == 0 && !z.empty()) at = z[draw(WL, z.size())].off + lf[draw(WL, 11)];
      else if (where == 1) at = cd + cf[draw(WL, 14)];
      else at = s.size() - 22 + ef[draw(WL, 8)];
      int w = draw(WL, 2) ? 4 : 2;
      uint64_t v = pick(WL, std::vector<uint64_t>{0, 1, 8, 20, 0x7FFF, 0xFFFF, 0x8000, 0xFFFFFFFF, 0x7FFFFFFF, 0x80000000, s.size(), s.size() - 22, cd, 45, 46, 0xFFFE, 12});
      if (at + w <= s.size())
        for (int j = 0; j < w; ++j) s[at + j] = (char)(v >> (8 * j));
      how += strf("; field at %llu = %llx/%d", (unsigned long long)at, (unsigned long long)v, w);
      break;
    }
    case 1: { // the compressed data of an entry
      if (z.empty()) break;
      auto &e = z[draw(WL, z.size())];
      if (!e.csize || e.data + e.csize > s.size()) break;
      size_t m = 1 + draw(WL, 4);
      for (size_t j = 0; j < m; ++j) s[e.data + (draw(WL, 2) ? draw(WL, e.csize) : draw(WL, std::min<uint64_t>(e.csize, 40)))] = (char)draw(WL, 256);
      how += "; data edited";
      break;
    }
    case 2: { // stored bytes presented as deflate data, or the reverse
      if (z.empty()) break;
      auto &e = z[draw(WL, z.size())];
      size_t ix = s.find(e.name, cd);
      if (ix == std::string::npos || ix < 46 || e.off + 10 > s.size()) break;
      uint8_t m = (uint8_t)pick(WL, std::vector<int>{8, 0, 12, 1, 9, 255});
      s[e.off + 8] = (char)m;
      s[ix - 36] = (char)m;
      how += strf("; method %u", m);
      break;
    }
    case 3: { // ZIP64 fields of every kind
      if (z.empty()) break;
      auto &e = z[draw(WL, z.size())];
      size_t x = e.off + 30 + e.name.size();
      if (x + 20 > s.size()) break;
      unsigned c = (unsigned)draw(WL, 4);
      uint64_t v = pick(WL, std::vector<uint64_t>{0, 1, 0xFFFFFFFFFFFFFFFFull, 0x7FFFFFFFFFFFFFFFull, 1ull << 40, 1ull << 33});
      if (c == 0) s[x + 2] = (char)draw(WL, 256);
      else if (c == 1) s[x] = (char)draw(WL, 8);
      else
        for (int j = 0; j < 8; ++j) s[x + 4 + 8 * (c - 2) + j] = (char)(v >> (8 * j));
      how += "; ZIP64 field edited";
      break;
    }
    default:
      mutate_bytes(s, 1 + draw(WL, 3));
      how += "; bytes edited";
      if (s.size() < 22) return s;
    }
  }
  return s;
}

// An archive whose only member's data are arbitrary DEFLATE bits.
std::string raw_deflate(std::string &how, std::vector<std::string> &names) {
  std::string bits;
  unsigned mischief = 0;
  if (draw(WL, 2)) { // a stream with one rule broken
    std::string plain = good_npy();
    mischief = 1 + (unsigned)draw(WL, 15);
    bits = ref::deflate_odd(plain.substr(0, draw(WL, plain.size() + 1)), 1 + draw(WL, 1 << 24), mischief);
    if (bits.size() < 4) bits.resize(4);
  }
  size_t n = mischief ? bits.size() : 4 + draw(WL, 150);
  Rng r(draw(WL, 1 << 24));
  if (!mischief) for (size_t i = 0; i < n; ++i) bits += (char)(r.next() >> 13);
  static const uint8_t FIRST[] = {5, 4, 3, 2, 1, 0, 7};
  uint8_t type = FIRST[weighted(WL, {6, 2, 2, 1, 1, 1, 1})];
  if (!mischief) bits[0] = (char)((bits[0] & ~7) | type);
  if (!mischief && type >> 1 == 2 && draw(WL, 2)) { // a plausible dynamic table: short code lengths
    static const uint8_t LEN[] = {0, 1, 2, 2, 3, 3, 3, 4};
    uint64_t acc = 0;
    size_t have = 0, at = 2;
    bits[1] = (char)((bits[1] & 0x1F) | (draw(WL, 8) << 5));
    bits[2 < n ? 2 : 1] |= 1;
    for (size_t i = 0; i < 19 && at + 1 < n; ++i) {
      acc |= (uint64_t)LEN[r.next() >> 20 & 7] << have;
      for (have += 3; have >= 8 && at + 1 < n; have -= 8, acc >>= 8) bits[++at] = (char)acc;
    }
  }
  ref::Member m;
  m.name = "m0.npy";
  m.bytes = std::string(bits.size(), 'x'); // stored first, so that the sizes are those of the bits
  names.push_back(m.name);
  std::string s = ref::zip_encode({m});
  std::vector<ref::ZEntry> z;
  std::string err;
  ref::zip_decode(ref::source_of(s), z, err);
  memcpy(&s[z[0].data], bits.data(), bits.size());
  s[z[0].off + 8] = 8;
  size_t ix = s.find(m.name, z[0].data + z[0].csize);
  s[ix - 36] = 8;
  how = mischief ? strf("%zu deflate bytes with defect %u", n, mischief) : strf("%zu arbitrary deflate bytes", n);
  return s;
}

// what a caller does with the bytes; drawn once, executed under several memory states
struct Probe {
  bool archive;
  std::string bytes;
  std::vector<std::string> names;
  struct Q { unsigned kind; ref::DT dt; unsigned spell, flavor, how; bool throws; size_t area, name; };
  std::vector<Q> q;
};
std::string result_of(const Res &r, const Any *p, const Hdr *h) {
  NoLib nl;
  if (!r.ok()) return r.what;
  std::string s = "ok";
  if (p) s += strf(" %016llx", (unsigned long long)p->spec().hash());
  if (h) {
    s += strf(" hdr %d %d %d %zu", (int)h->dt, (int)h->e, (int)h->fortran, h->max_len);
    for (auto d : h->shape) s += strf(",%llu", (unsigned long long)d);
  }
  return s;
}
std::vector<std::string> experiment(const Probe &pr, uint8_t pattern) {
  std::vector<std::string> out;
  set_fill(pattern);
  uint64_t budget = 3000000 + 500 * pr.bytes.size() + 40 * A.limit;
  auto go = [&](const std::string &what, auto f, const Any *const *p, const Hdr *h) {
    scribble_stack(pattern);
    step_budget = R->steps + budget;
    Res r = attempt(what, f);
    step_budget = 0;
    std::string s = result_of(r, p ? *p : nullptr, h);
    out.push_back(what + " -> " + s);
    return r.ok();
  };
  ops::Reader rd;
  bool open = false;
  size_t nk = 0;
  for (auto &q : pr.q) {
    Ptr p;
    Hdr h;
    const Any *raw = nullptr;
    if (pr.archive) {
      if (!open || q.kind == 0) {
        rd.destroy();
        open = go(q.how % 2 ? "open file" : "open string", [&] { q.how % 2 ? rd.open("/simfs/adv", q.spell) : rd.open_string(pr.bytes, q.spell); }, nullptr, nullptr);
        if (!open) continue;
        std::vector<std::string> k;
        go("keys", [&] {
          const auto &v = rd.keys();
          NoLib nl;
          k = v;
        }, nullptr, nullptr);
        nk = k.size();
        out.push_back(strf("%zu keys", nk));
      }
      if (!open) continue;
      std::string n = q.name < pr.names.size() ? pr.names[q.name] : "absent";
      if (q.spell % 3 == 2 && nk) {
        const std::string &k = rd.keys()[q.name % nk];
        n = k;
      }
      if (q.kind == 2) go("contains", [&] { (void)rd.contains(n); }, nullptr, nullptr);
      else if (q.kind == 1) go("peek", [&] { h = rd.peek(n); }, nullptr, &h);
      else go(strf("read as %s", ref::DT_NAME[q.dt]), [&] { p = rd.read(q.dt, n, q.spell % 2, q.flavor); raw = p.get(); }, &raw, nullptr);
      continue;
    }
    std::istringstream is1(pr.bytes);
    ops::SimBuf sb;
    std::istream is2(&sb);
    std::istream *is = &is1;
    if (q.how == 1) {
      sb.data = pr.bytes;
      sb.in_area = q.area;
      sb.chunked = false;
      sb.start_reading();
      is = &is2;
    }
    if (q.throws) is->exceptions(std::ios::failbit | std::ios::badbit | (q.area % 2 ? std::ios::eofbit : std::ios::goodbit));
    std::string what = strf("%s as %s, delivery %u%s", q.kind == 1 ? "peek" : "load", ref::DT_NAME[q.dt], q.how, q.throws ? ", exceptions" : "");
    if (q.kind == 1) go(what, [&] { h = q.how == 2 ? ops::peek("/simfs/adv") : ops::peek(*is, q.spell); }, nullptr, &h);
    else go(what, [&] { p = q.how == 2 ? ops::load(q.dt, "/simfs/adv", q.spell, q.flavor) : ops::load(q.dt, *is, q.spell, q.flavor); raw = p.get(); }, &raw, nullptr);
  }
  return out;
}
} // namespace

void c08() {
  A.limit = 4 << 20;
  A.live_cap = 64 << 20;
  pick_piece();
  for (int step = 0; step < 6; ++step) {
    OpSpan sp;
    if (step && draw(WL, 4) == 0) break;
    Probe pr;
    std::string how;
    unsigned form = (unsigned)weighted(WL, {4, 4, 2});
    pr.archive = form != 0;
    pr.bytes = form == 0 ? bad_npy(how) : form == 1 ? bad_npz(how, pr.names) : raw_deflate(how, pr.names);
    uint64_t refused = A.limit_hits;
    if (step == 0) describe("%s: %s", pr.archive ? "archive" : "NPY", how.c_str());
    size_t nq = 1 + draw(WL, pr.archive ? 6 : 4);
    for (size_t i = 0; i < nq; ++i) {
      Probe::Q q;
      q.kind = (unsigned)draw(WL, 3);
      q.dt = (ref::DT)draw(WL, ref::NDT);
      q.spell = (unsigned)draw(WL, 6);
      q.flavor = draw(WL, 4) == 3;
      q.how = (unsigned)draw(WL, 3);
      q.throws = draw(WL, 5) == 4;
      q.area = pick(WL, std::vector<size_t>{4096, 1, 5, 64});
      q.name = draw(WL, 4);
      pr.q.push_back(q);
    }
    io = IoCfg();
    fs_put("/simfs/adv", pr.bytes);
    nontrivial();
    auto a = experiment(pr, 0x00);
    if (form == 2) count("probe.raw_deflate");
    // 1032 bytes is the most that one byte of DEFLATE data can stand for
    if (form == 2 && 1032 * pr.bytes.size() < A.limit && A.limit_hits != refused)
      violation("C08:runaway", "%s, which cannot hold more than %zu bytes, use up %llu bytes of memory", how.c_str(), 1032 * pr.bytes.size(), (unsigned long long)A.limit);
#ifndef SIM_ASAN
    auto b = experiment(pr, 0xA5);
    for (size_t i = 0; i < a.size(); ++i)
      if (i >= b.size() || a[i] != b[i])
        violation("C08:indeterminate", "%s: the result depends on what memory held before: '%s' or '%s'", how.c_str(), a[i].c_str(), i < b.size() ? b[i].c_str() : "nothing");
#endif
    for (auto &x : a) note_sig(fnv(x.data(), std::min<size_t>(x.size(), 60)));
    if (fs_open_handles()) violation("C08:handles", "%zu files left open", fs_open_handles());
  }
}

// =================================================================== C10
namespace {
struct Held { Ptr p; TSpec t; };
gen::Cfg tiny(uint64_t max = 6000) {
  gen::Cfg gc;
  gc.max_bytes = max;
  gc.big_weight = 1;
  return gc;
}
// arms a failing allocation, aimed at the number of allocations the same kind of operation made before
struct Aim {
  std::map<unsigned, uint64_t> last;
  uint64_t fired0 = 0;
  void arm(unsigned kind) {
    uint64_t n = last.count(kind) ? last[kind] + 2 : 24;
    if (draw(IO, 5) == 4) { // no fault this time: learns the count, and checks the healthy path
      alloc_arm(-1, 0);
      A.n = 0;
    } else {
      alloc_arm((int64_t)draw(IO, n), pick(IO, std::vector<int64_t>{1, -1, 2}));
    }
    fired0 = A.fired;
  }
  bool disarm(unsigned kind) {
    bool f = A.fired > fired0;
    if (!f) last[kind] = A.n;
    alloc_disarm();
    if (f) nontrivial();
    return f;
  }
};
} // namespace

void c10() {
  pick_piece();
  set_fill((uint8_t)pick(WL, std::vector<unsigned>{0xA5, 0, 0xFF, 0x31}));
  Aim aim;
  std::vector<Held> pool;
  struct F { TSpec t; bool big; };
  std::map<std::string, F> files;
  static const char *const P[] = {"/simfs/a.npy", "/simfs/b.npy"};
  ops::Writer w;
  Archive wa;
  bool wfile = false, wbroken = false, wclosed = false;
  npy::endian_t we = npy::endian_t::NATIVE;
  ops::Reader rd;
  Archive ra;
  std::string rbytes;
  auto fail = [&](const char *what, const Res &r, bool fired) {
    if (!r.ok() && !fired) violation("C10:fails", "%s failed although no allocation did: %s", what, r.what.c_str());
  };
  auto fresh = [&](int dt = -1) {
    gen::Cfg gc = tiny();
    gc.only_dt = dt;
    return gen::tensor(gc);
  };
  auto close_writer = [&](bool injected) {
    (void)injected;
    w.destroy();
    wa = Archive();
    wbroken = wclosed = false;
  };
  for (int step = 0; step < 24; ++step) {
    OpSpan sp;
    size_t k = weighted(WL, {step ? 1u : 0u, 6, 4, 4, 2, 4, 5, 5, 8, 3, 4, 8, 6, 4, 8});
    if (k == 0) break;
    unsigned key = (unsigned)k * 100;
    if (step == 0) describe("operation kind %zu first", k);
    if (k == 1 || pool.empty()) { // construct
      TSpec t = fresh();
      Ptr p;
      key = 100 + t.dt;
      unsigned how = (unsigned)draw(WL, 4), flavor = draw(WL, 4) == 3;
      aim.arm(key);
      Res r = attempt("make " + t.brief(), [&] { p = ops::make(t, flavor, how); });
      bool f = aim.disarm(key);
      fail("constructing", r, f);
      if (r.ok()) {
        check_tensor(*p, t, "C10:partial", "a tensor constructed while an allocation failed");
        if (pool.size() > 3) pool.erase(pool.begin());
        if (!flavor) pool.push_back({std::move(p), t});
      }
    } else if (k == 2) { // copy construct
      Held &h = pool[draw(WL, pool.size())];
      Ptr p;
      key = 200 + h.t.dt;
      aim.arm(key);
      Res r = attempt("copy " + h.t.brief(), [&] { p = h.p->clone(); });
      bool f = aim.disarm(key);
      fail("copying", r, f);
      if (r.ok()) check_tensor(*p, h.t, "C10:partial", "a copy");
    } else if (k == 3 || k == 4) { // assignment
      Held &h = pool[draw(WL, pool.size())];
      TSpec t = fresh(h.t.dt);
      Ptr q = ops::make(t);
      key += h.t.dt;
      aim.arm(key);
      Res r = attempt(strf("%s %s = %s", k == 3 ? "copy-assign" : "move-assign", h.t.brief().c_str(), t.brief().c_str()), [&] { k == 3 ? h.p->assign(*q) : h.p->assign_move(*q); });
      bool f = aim.disarm(key);
      fail("assignment", r, f);
      TSpec now = h.p->spec();
      if (r.ok() ? !t.same(now) : !t.same(now) && !h.t.same(now))
        violation("C10:half-assigned", "after an assignment that %s, %s := %s holds %s: %s", res_str(r).c_str(), h.t.brief().c_str(), t.brief().c_str(), now.brief().c_str(),
                  t.diff(now).c_str());
      if (k == 3) check_tensor(*q, t, "C10:source", "the source of an assignment");
      h.t = now;
    } else if (k == 5) { // element copies
      Held &h = pool[draw(WL, pool.size())];
      TSpec t = h.t;
      if (t.dt == ref::UN) {
        for (auto &s : t.str) s = std::u32string(1 + draw(WL, 20), (char32_t)('A' + draw(WL, 26)));
      } else {
        gen::fill(t, 1, draw(WL, 1000));
      }
      Ptr q = ops::make(t);
      unsigned how = (unsigned)draw(WL, 3);
      key += h.t.dt * 3 + how;
      aim.arm(key);
      Res r = attempt(strf("copy values into %s (way %u)", t.brief().c_str(), how), [&] { h.p->copy_from(*q, how); });
      bool f = aim.disarm(key);
      fail("copying values", r, f);
      TSpec now = h.p->spec();
      if (r.ok() ? !t.same(now) : !t.same(now) && !h.t.same(now))
        violation("C10:half-assigned", "copying values into %s %s and left a mixture: %s", h.t.brief().c_str(), res_str(r).c_str(), t.diff(now).c_str());
      h.t = now;
    } else if (k == 6) { // save to a path
      Held &h = pool[draw(WL, pool.size())];
      std::string path = P[draw(WL, 2)];
      npy::endian_t e = gen::endian();
      unsigned spell = (unsigned)draw(WL, 4);
      key += h.t.dt * 2 + eff_big(e);
      aim.arm(key);
      Res r = attempt("save " + h.t.brief() + " to " + path, [&] { h.p->save(path, e, spell); });
      bool f = aim.disarm(key);
      fail("save", r, f);
      files.erase(path);
      if (r.ok()) {
        check_npy_bytes(fs_get(path), h.t, eff_big(e), "C10:partial", "a save that returned normally");
        files[path] = {ref::canonical(h.t), eff_big(e)};
      }
    } else if (k == 7) { // save to a stream
      Held &h = pool[draw(WL, pool.size())];
      npy::endian_t e = gen::endian();
      unsigned spell = (unsigned)draw(WL, 3), kind = (unsigned)draw(WL, 2);
      std::ostringstream os;
      ops::SimBuf sb;
      sb.start_writing(64);
      std::ostream os2(&sb);
      std::ostream &o = kind ? os2 : os;
      key += h.t.dt * 4 + eff_big(e) * 2 + kind;
      aim.arm(key);
      Res r = attempt("save " + h.t.brief() + " to a stream", [&] { h.p->save(o, e, spell); });
      bool f = aim.disarm(key);
      fail("save", r, f);
      if (r.ok() && o.good()) {
        o.flush();
        check_npy_bytes(kind ? sb.written() : os.str(), h.t, eff_big(e), "C10:partial", "a save to a stream that reports no failure");
      }
      if (!f && !o) violation("C10:fails", "saving to a stream left it failed although no allocation failed");
    } else if (k == 8 || k == 9) { // load, peek
      std::string path = P[draw(WL, 2)];
      if (!files.count(path)) {
        Held &h = pool[draw(WL, pool.size())];
        npy::endian_t e = gen::endian();
        ref::NpyStyle st;
        st.big = eff_big(e);
        fs_put(path, ref::npy_encode(h.t, st));
        files[path] = {ref::canonical(h.t), eff_big(e)};
      }
      F &fl = files[path];
      unsigned spell = (unsigned)draw(WL, 3), flavor = draw(WL, 4) == 3, how = (unsigned)draw(WL, 3);
      bool throws = how && draw(WL, 3) == 2;
      std::istringstream is1(fs_get(path));
      ops::SimBuf sb;
      sb.data = fs_get(path);
      sb.start_reading();
      std::istream is2(&sb);
      std::istream &is = how == 1 ? is1 : is2;
      if (throws) is.exceptions(std::ios::badbit | std::ios::failbit);
      Ptr p;
      Hdr h;
      key += fl.t.dt * 12 + fl.big * 6 + how * 2 + flavor;
      Res r;
      aim.arm(key);
      if (k == 8) r = attempt(strf("load %s (%s, delivery %u)", path.c_str(), fl.t.brief().c_str(), how), [&] { p = how ? ops::load(fl.t.dt, is, spell, flavor) : ops::load(fl.t.dt, path, spell, flavor); });
      else r = attempt(strf("peek %s (delivery %u)", path.c_str(), how), [&] { h = how ? ops::peek(is, spell) : ops::peek(path); });
      bool f = aim.disarm(key);
      fail(k == 8 ? "load" : "peek", r, f);
      if (r.ok() && k == 8) check_tensor(*p, fl.t, "C10:partial", "a load that returned normally");
      if (r.ok() && k == 9) check_hdr(h, fl.t, fl.big, "C10:partial", "a peek that returned normally");
    } else if (k == 10) { // a new writer
      close_writer(false);
      wfile = draw(WL, 2);
      npy::compression_method_t c = gen::compression();
      we = gen::endian();
      unsigned ctor = (unsigned)draw(WL, 3);
      wa.big = eff_big(we);
      key += wfile * 3 + ctor;
      aim.arm(key);
      Res r = attempt(wfile ? "new file writer" : "new string writer", [&] { wfile ? w.open("/simfs/w.npz", c, we, ctor) : w.open_string(c, we); });
      bool f = aim.disarm(key);
      fail("creating a writer", r, f);
      // a file writer whose buffer could not be allocated may report it through is_open and refuse
      if (r.ok() && f) wbroken = true;
    } else if (k == 11) { // write
      if (!w.alive() || wclosed) continue;
      Held &h = pool[draw(WL, pool.size())];
      std::string n = gen::name();
      key += 1 + h.t.dt * 4 + wfile * 2;
      aim.arm(key);
      Res r = attempt("write " + gen::brief(n) + " " + h.t.brief(), [&] { w.write(n, *h.p); });
      bool f = aim.disarm(key);
      if (!r.ok() && !f && !wbroken) violation("C10:fails", "write failed although no allocation did: %s", r.what.c_str());
      if (r.ok()) wa.items.push_back({gen::stored(n), ref::canonical(h.t)});
      else wbroken = true; // from here on it may refuse
    } else if (k == 12) { // close
      if (!w.alive() || wclosed) continue;
      key += wfile;
      aim.arm(key);
      Res r = attempt("close", [&] { w.close(); });
      bool f = aim.disarm(key);
      if (!r.ok() && !f && !wbroken) violation("C10:fails", "close failed although no allocation did: %s", r.what.c_str());
      bool again = false;
      if (!r.ok()) {
        wbroken = true;
        Res r2 = attempt("close again", [&] { w.close(); });
        again = r2.ok();
      }
      if (r.ok() || again) {
        std::string out;
        if (wfile) {
          out = fs_get("/simfs/w.npz");
        } else {
          for (int round = 0; round < 2; ++round) {
            if (round == 0) aim.arm(key + 1);
            Res s = attempt("str", [&] {
              std::string x = w.s->str();
              NoLib nl;
              out = x;
            });
            bool g = round == 0 && aim.disarm(key + 1);
            if (!s.ok() && !g) violation("C10:fails", "str() failed although no allocation did: %s", s.what.c_str());
            if (s.ok()) break;
          }
        }
        check_zip(out, wa, "C10:archive", "an archive whose close returned normally", true);
        if (wfile) wclosed = true;
        else {
          ra = wa;
          rd.destroy();
          rbytes = out;
          wclosed = true;
        }
      }
      Ptr q = ops::make(pool[0].t);
      if (wclosed && draw(WL, 2)) {
        Res s = attempt("write after close", [&] { w.write("late", *q); });
        if (s.ok()) violation("C10:archive", "a write after close returned normally");
      }
      if (draw(WL, 2)) close_writer(false);
    } else if (k == 13) { // destruction under failing allocations must not terminate
      if (!w.alive()) continue;
      aim.arm(key);
      attempt("destroy the writer", [&] { w.destroy(); });
      bool f = aim.disarm(key);
      if (!f && !wbroken && wfile) check_zip(fs_get("/simfs/w.npz"), wa, "C10:archive", "an archive finished by the destructor", true);
      close_writer(true);
    } else { // reader
      if (rbytes.empty()) continue;
      if (!rd.alive()) {
        bool file = draw(WL, 2);
        if (file) fs_put("/simfs/r.npz", rbytes);
        unsigned ctor = (unsigned)draw(WL, 3);
        key += file;
        aim.arm(key);
        Res r = attempt("open a reader", [&] { file ? rd.open("/simfs/r.npz", ctor) : rd.open_string(rbytes, ctor); });
        bool f = aim.disarm(key);
        fail("opening a reader", r, f);
        if (r.ok()) check_keys(rd, ra, "C10:partial", "a reader whose construction returned normally");
        else rd.destroy();
        continue;
      }
      if (ra.items.empty()) continue;
      std::string n = ra.items[draw(WL, ra.items.size())].name;
      const Item *it = ra.find(n);
      if (draw(WL, 5) == 4) { // look-ups
        std::string ask = draw(WL, 2) ? "not there, and with a name too long for any small buffer" : n;
        bool has = false, want = ra.lookup(ask) != nullptr;
        aim.arm(key + 40);
        Res r = attempt("contains " + gen::brief(ask), [&] { has = rd.contains(ask); });
        bool f = aim.disarm(key + 40);
        fail("contains", r, f);
        if (r.ok() && has != want) violation("C10:partial", "contains(%s) says %d", gen::brief(ask).c_str(), (int)has);
        check_keys(rd, ra, "C10:reader", "a reader after a look-up");
        continue;
      }
      bool pk = draw(WL, 3) == 2;
      unsigned spell = (unsigned)draw(WL, 2), flavor = draw(WL, 4) == 3;
      key += 2 + pk + it->t.dt * 2;
      for (int round = 0; round < 2; ++round) {
        Ptr p;
        Hdr h;
        Res r;
        if (round == 0) aim.arm(key);
        if (pk) r = attempt("peek " + gen::brief(n), [&] { h = rd.peek(n); });
        else r = attempt("read " + gen::brief(n), [&] { p = rd.read(it->t.dt, n, spell, flavor); });
        bool f = round == 0 ? aim.disarm(key) : false;
        if (round == 0) fail("reading an entry", r, f);
        else expect_ok(r, "C10:reader", "an entry read again after an allocation failure");
        if (r.ok() && pk) check_hdr(h, it->t, ra.big, "C10:partial", "a peek that returned normally");
        if (r.ok() && !pk) check_tensor(*p, it->t, "C10:partial", "a read that returned normally");
        if (r.ok() && round == 0) break;
      }
    }
    note_sig(k * 2);
    // nothing else may have changed
    for (auto &h : pool) check_tensor(*h.p, h.t, "C10:damage", "a tensor not taking part");
  }
  for (auto &f : files) {
    Ptr p;
    expect_ok(attempt("load " + f.first + " at the end", [&] { p = ops::load(f.second.t.dt, f.first, 0); }), "C10:damage", "loading a file not taking part");
    check_tensor(*p, f.second.t, "C10:damage", "a file not taking part");
  }
}

// =================================================================== C11
namespace {
struct Job {
  unsigned kind;
  TSpec t, t2;
  std::string bytes, name, path;
  npy::endian_t e;
  npy::compression_method_t c;
  ref::DT dt;
  unsigned spell, flavor, how;
  std::vector<std::string> names;
  std::vector<TSpec> ts;
  int64_t alloc_at, alloc_len;
  IoCfg fault;
  size_t stream_fail;
  bool throws;
};
Job draw_job() {
  Job j;
  j.kind = (unsigned)weighted(WL, {5, 5, 5, 4, 5, 4, 3});
  gen::Cfg gc = tiny(3000);
  j.t = gen::tensor(gc);
  gc.only_dt = j.t.dt;
  j.t2 = gen::tensor(gc);
  j.e = gen::endian();
  j.c = gen::compression();
  j.dt = draw(WL, 4) == 3 ? (ref::DT)draw(WL, ref::NDT) : j.t.dt;
  j.spell = (unsigned)draw(WL, 4);
  j.flavor = draw(WL, 4) == 3;
  j.how = (unsigned)draw(WL, 3);
  j.name = gen::name();
  j.path = draw(WL, 8) == 7 ? "/simfs/absent" : "/simfs/j";
  j.throws = draw(WL, 5) == 4;
  std::string how;
  ref::NpyStyle st;
  st.big = eff_big(j.e);
  if (j.kind == 1) {
    j.bytes = draw(WL, 2) ? ref::npy_encode(j.t, st) : bad_npy(how);
    if (draw(WL, 3) == 2) j.bytes.resize(draw(WL, j.bytes.size() + 1));
  }
  if (j.kind == 3) {
    if (draw(WL, 2)) {
      j.bytes = bad_npz(how, j.names);
    } else {
      std::vector<ref::Member> ms;
      size_t n = draw(WL, 4);
      for (size_t i = 0; i < n; ++i) {
        ref::Member m;
        m.name = strf("m%zu.npy", i);
        m.bytes = ref::npy_encode(j.t, st);
        m.style.deflate = draw(WL, 2);
        if (draw(WL, 4) == 3) m.style.odd = 1 + draw(WL, 1 << 24);
        j.names.push_back(m.name);
        ms.push_back(m);
      }
      j.bytes = ref::zip_encode(ms);
      if (draw(WL, 3) == 2) j.bytes[draw(WL, j.bytes.size())] ^= (char)(1 << draw(WL, 8));
    }
  }
  if (j.kind == 2 || j.kind == 4) {
    size_t n = draw(WL, 4);
    gc.only_dt = -1;
    for (size_t i = 0; i < n; ++i) j.ts.push_back(gen::tensor(gc)), j.names.push_back(gen::name());
  }
  j.alloc_at = -1;
  j.alloc_len = 1;
  unsigned f = (unsigned)draw(IO, 4);
  if (f == 1) {
    j.alloc_at = (int64_t)draw(IO, draw(IO, 3) ? 16 : 90);
    j.alloc_len = draw(IO, 3) ? 1 : -1;
  } else if (f >= 2) {
    j.fault.shot_cls = (IoCfg::Cls)(1 + draw(IO, 5));
    j.fault.shot_in = (int64_t)draw(IO, 4);
    j.fault.shot_len = draw(IO, 2) ? -1 : 1;
    if (draw(IO, 6) == 5) j.fault.disk_free = (int64_t)draw(IO, 3000);
  }
  j.stream_fail = draw(IO, 3) == 2 ? draw(IO, 600) : ~(size_t)0;
  return j;
}
void do_job(const Job &j) {
  Ptr a, b;
  std::vector<Ptr> ts;
  {
    a = ops::make(j.t, j.flavor);
    b = ops::make(j.t2);
    for (auto &t : j.ts) ts.push_back(ops::make(t));
  }
  auto prime = [&] {
    io = j.fault;
    if (j.alloc_at >= 0) alloc_arm(j.alloc_at, j.alloc_len);
  };
  auto calm = [&] {
    io = IoCfg();
    alloc_disarm();
  };
  if (j.kind == 0) { // save
    ops::SimBuf sb;
    sb.start_writing(16);
    if (j.stream_fail != ~(size_t)0) sb.fail_at = (int64_t)j.stream_fail, sb.fail_throws = j.throws;
    std::ostream o2(&sb);
    std::ostringstream o1;
    prime();
    attempt("save", [&] {
      if (j.how == 0) a->save(j.path, j.e, j.spell);
      else a->save(j.how == 1 ? o1 : o2, j.e, j.spell);
    });
    calm();
  } else if (j.kind == 1) { // load and peek
    fs_put("/simfs/j", j.bytes);
    for (int pk = 0; pk < 2; ++pk) {
      std::istringstream i1(j.bytes);
      ops::SimBuf sb;
      sb.data = j.bytes;
      sb.chunked = false;
      if (j.stream_fail != ~(size_t)0) sb.fail_at = (int64_t)j.stream_fail, sb.fail_throws = j.throws;
      sb.start_reading();
      std::istream i2(&sb);
      std::istream &is = j.how == 1 ? i1 : i2;
      if (j.throws) is.exceptions(std::ios::failbit | std::ios::badbit);
      prime();
      attempt(pk ? "peek" : "load", [&] {
        if (pk) {
          if (j.how == 0) ops::peek(j.path);
          else ops::peek(is, j.spell);
        } else {
          Ptr p = j.how == 0 ? ops::load(j.dt, j.path, j.spell, j.flavor) : ops::load(j.dt, is, j.spell, j.flavor);
        }
      });
      calm();
    }
  } else if (j.kind == 2 || j.kind == 4) { // an archive writer, faults from its construction or only later
    ops::Writer w;
    if (j.kind == 2) prime();
    attempt("new writer", [&] { j.how == 0 ? w.open_string(j.c, j.e) : w.open(j.path == "/simfs/j" ? "/simfs/j.npz" : "/nowhere/x.npz", j.c, j.e, j.how); });
    if (j.kind == 4) prime();
    for (size_t i = 0; i < ts.size(); ++i)
      if (w.alive()) {
        attempt("write", [&] { w.write(j.names[i], *ts[i]); });
        if (j.spell == 3) {
          ops::Thrower th;
          th.emit = 10;
          attempt("rejected write", [&] { w.write("t", th); });
        }
      }
    if (w.alive() && j.spell % 2) {
      Res q = attempt("close", [&] { w.close(); });
      if (q.ok() && w.f && (w.is_open() || fs_open_handles()))
        violation("C11:handles", "after close() of a file writer returned, is_open() is %d and %zu files are open", (int)w.is_open(), fs_open_handles());
    }
    if (w.alive() && j.how == 0) attempt("str", [&] { std::string s = w.s->str(); });
    attempt("destroy", [&] { w.destroy(); });
    calm();
  } else if (j.kind == 3) { // an archive reader
    ops::Reader r;
    fs_put("/simfs/j.npz", j.bytes);
    prime();
    attempt("open", [&] { j.how == 0 ? r.open_string(j.bytes, j.spell) : r.open("/simfs/j.npz", j.spell); });
    if (r.alive())
      for (size_t i = 0; i <= j.names.size(); ++i) {
        std::string n = i < j.names.size() ? j.names[i] : "absent";
        attempt("read", [&] { Ptr p = r.read(j.dt, n, j.spell % 2, j.flavor); });
        attempt("peek", [&] { r.peek(n); });
        if (i == 0) attempt("contains", [&] { r.contains(n); });
      }
    if (r.f) {
      if (!r.is_open() || fs_open_handles() != 1)
        violation("C11:handles", "is_open() of a file reader in use is %d and %zu files are open", (int)r.is_open(), fs_open_handles());
      if (j.spell >= 2) {
        attempt("close the reader", [&] { r.close(); });
        if (r.is_open() || fs_open_handles())
          violation("C11:handles", "after close() of a file reader, is_open() is %d and %zu files are open", (int)r.is_open(), fs_open_handles());
        if (j.names.size()) attempt("read from a closed reader", [&] { Ptr p = r.read(j.dt, j.names[0], 0, j.flavor); });
      }
    }
    attempt("destroy", [&] { r.destroy(); });
    calm();
  } else if (j.kind == 5) { // tensors
    prime();
    attempt("copy", [&] { Ptr c = a->clone(); });
    calm();
    prime();
    if (!j.flavor) attempt("assign", [&] { j.how ? a->assign(*b) : a->assign_move(*b); });
    calm();
    prime();
    attempt("make", [&] { Ptr c = ops::make(j.t, j.flavor, j.how); });
    calm();
  } else { // round trip
    prime();
    attempt("save", [&] { a->save("/simfs/j2", j.e, j.spell); });
    attempt("load", [&] { Ptr p = ops::load(j.t.dt, "/simfs/j2", j.spell, j.flavor); });
    calm();
  }
}
} // namespace

void c11() {
  A.limit = 8 << 20;
  pick_piece();
  set_fill(0xA5);
  std::vector<Job> plan;
  size_t n = 1 + draw(WL, 5);
  for (size_t i = 0; i < n; ++i) {
    OpSpan sp;
    plan.push_back(draw_job());
  }
  describe("%zu jobs, first of kind %u", n, plan[0].kind);
  uint64_t blocks[5], bytes[5], a0 = R->allocs;
  for (int round = 0; round < 5; ++round) {
    for (auto &j : plan) {
      do_job(j);
      if (fs_open_handles())
        violation("C11:handles", "%zu files are still open after every object was destroyed (job kind %u)", fs_open_handles(), j.kind);
    }
    blocks[round] = A.live_lib_blocks;
    bytes[round] = A.live_lib_bytes;
  }
  if (R->allocs > a0) nontrivial();
  for (auto &j : plan) note_sig(j.kind * 100 + j.t.dt + 10000 * (j.alloc_at >= 0) + 20000 * j.fault.shot_cls);
  // caches may fill during the first rounds; what still grows afterwards leaks
  if (blocks[2] > blocks[1] && blocks[3] > blocks[2] && blocks[4] > blocks[3])
    violation("C11:leak", "every repetition leaves %llu more blocks (%llu bytes) allocated", (unsigned long long)(blocks[4] - blocks[3]), (unsigned long long)(bytes[4] - bytes[3]));
  if (blocks[4] > 2000) violation("C11:leak", "%llu blocks stay allocated after every object was destroyed", (unsigned long long)blocks[4]);
}
} // namespace wl

namespace wl {
// earlier operations of a process, failing ones included
void noise_step() {
  Job j = draw_job();
  do_job(j);
  io = IoCfg();
}
std::string adversarial_npy(std::string &how) { return bad_npy(how); }
std::string adversarial_npz(std::string &how, std::vector<std::string> &names) { return bad_npz(how, names, 300000); }
} // namespace wl
