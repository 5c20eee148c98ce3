#include "gen.h"
#include <algorithm>

namespace gen {
using namespace sim;
using ref::DT;

const std::vector<uint64_t> &boundary_sizes() {
  static const std::vector<uint64_t> v = {512, 4096, 8191, 8192, 8193, 16384, 32768, 65536, 1 << 20, (1 << 20) + 1, 2 << 20, 3 << 19};
  return v;
}

void fill(TSpec &t, unsigned pattern, uint64_t seed) {
  Rng r(seed * 0x9E3779B97F4A7C15ull + pattern);
  uint64_t n = t.count();
  if (t.dt == ref::UN) return;
  size_t bytes = n * ref::dt_size(t.dt);
  t.raw.assign(bytes, '\0');
  char *p = bytes ? &t.raw[0] : nullptr;
  switch (pattern) {
  case 0: // ramp
    for (size_t i = 0; i < bytes; ++i) p[i] = (char)(i + seed);
    break;
  case 1: // random
    for (size_t i = 0; i < bytes; i += 8) {
      uint64_t v = r.next();
      memcpy(p + i, &v, std::min<size_t>(8, bytes - i));
    }
    break;
  case 2: break; // zeros
  case 3: memset(p, 0xFF, bytes); break;
  case 4: // few symbols, runs
    for (size_t i = 0; i < bytes;) {
      uint64_t v = r.next();
      size_t run = 1 + v % 300;
      for (; run && i < bytes; --run) p[i++] = (char)((v >> 32) % 4 * 37);
    }
    break;
  case 5: { // repeats at long distances
    size_t period = 1 + r.next() % 40000;
    for (size_t i = 0; i < bytes; ++i) p[i] = i < period ? (char)r.next() : p[i - period];
    break;
  }
  default: // mixed: blocks of noise and text
    for (size_t i = 0; i < bytes; ++i) p[i] = (i / 700) % 2 ? (char)r.next() : "libnpy tensor data "[i % 19];
  }
  if (t.dt == ref::B1)
    for (auto &c : t.raw) c &= 1;
}

static void fill_strings(TSpec &t, const Cfg &c) {
  uint64_t n = t.count();
  t.str.assign(n, std::u32string());
  if (!n) return;
  uint64_t seed = draw(WL, 1 << 16);
  size_t maxl = pick(WL, std::vector<size_t>{3, 1, 0, 8, 20, 64, 300, 1100, 12000, 70000});
  if (n > 300 && maxl > 8) maxl = 8;
  if (n * maxl > 40000 && (n > 2 || c.max_bytes < 20000)) maxl = 40000 / n;
  unsigned cls = (unsigned)draw(WL, 5);
  bool nul = draw(WL, 4) == 3;
  Rng r(seed + 77);
  for (auto &s : t.str) {
    size_t len = maxl ? r.next() % (maxl + 1) : 0;
    for (size_t i = 0; i < len; ++i) {
      uint32_t ch;
      switch (cls) {
      case 0: ch = 'a' + r.next() % 26; break;
      case 1: ch = 1 + r.next() % 0xFF; break;
      case 2: ch = 0x100 + r.next() % 0xFF00; break;
      case 3: ch = 1 + r.next() % 0x10FFFF; break;
      default: ch = (uint32_t)r.next() | 1; // any 32 bits at all
      }
      if (nul && r.next() % 4 == 0) ch = 0;
      s.push_back((char32_t)ch);
    }
    if (!c.trailing_nul)
      while (!s.empty() && s.back() == 0) s.back() = 'z';
  }
}

TSpec tensor(const Cfg &c) {
  TSpec t;
  t.dt = c.only_dt >= 0 ? (DT)c.only_dt : (DT)draw(WL, c.strings ? ref::NDT : ref::UN);
  t.fortran = draw(WL, 2);
  size_t item = ref::dt_size(t.dt);
  bool str = t.dt == ref::UN;
  auto dims = [&](std::initializer_list<uint64_t> l) { t.shape.assign(l); };
  size_t kind = weighted(WL, {8, 3, 10, c.zero ? 3u : 0u, c.long_headers ? 4u : 0u, c.max_bytes >= 4096 ? 5u : 0u, str ? 0u : c.big_weight, 3});
  bool bigcase = kind == 6;
  switch (kind) {
  case 0: dims({range(WL, 1, 9)}); break;
  case 1: break; // scalar
  case 2: {
    size_t nd = range(WL, 2, 4);
    for (size_t i = 0; i < nd; ++i) t.shape.push_back(range(WL, 1, 6));
    break;
  }
  case 3: { // zero-sized, sometimes with huge other dimensions
    size_t nd = range(WL, 1, 4);
    size_t z = draw(WL, nd);
    uint64_t prod = 1;
    for (size_t i = 0; i < nd; ++i) {
      uint64_t d = pick(WL, std::vector<uint64_t>{1, 2, 10, 100, 12345, 1000000007, 4294967296ull, 5000000000ull, 1ull << 40});
      if (prod > (1ull << 56) / d) d = 1;
      prod *= d;
      t.shape.push_back(i == z ? 0 : d);
    }
    break;
  }
  case 4: { // many dimensions: headers of every length
    size_t nd = range(WL, 5, 64);
    uint64_t prod = 1;
    unsigned wide = (unsigned)draw(WL, 3);
    for (size_t i = 0; i < nd; ++i) {
      uint64_t d = draw(WL, 12) == 11 ? 2 : 1;
      if (wide && prod == 1 && i + 1 == nd) d = pick(WL, std::vector<uint64_t>{1, 9, 10, 99, 100, 999, 1000});
      if (prod * d * item > c.max_bytes) d = 1;
      prod *= d;
      t.shape.push_back(d);
    }
    if (wide == 2 && c.zero) { // long digits, no elements
      for (auto &d : t.shape)
        if (d == 1 && prod < (1ull << 50)) { uint64_t m = pick(WL, std::vector<uint64_t>{1, 10, 1000}); d = m; prod *= m; }
      t.shape[draw(WL, nd)] = 0;
    }
    break;
  }
  case 5: // sized around a buffer boundary
  case 6: { // and around the big ones
    auto &b = boundary_sizes();
    uint64_t target = bigcase ? b[8 + draw(WL, b.size() - 8)] : b[draw(WL, 8)];
    while (target > c.max_bytes && !bigcase) target /= 2;
    int64_t adj = (int64_t)pick(WL, std::vector<uint64_t>{0, 1, 2, 128, 129, 127, 64, 192}) * -1;
    if (draw(WL, 3) == 2) adj = -adj;
    int64_t n = ((int64_t)target + adj) / (int64_t)item;
    size_t unit = draw(WL, 4);
    if (unit == 2) { // boundaries counted in elements
      static const uint64_t EN[] = {256, 512, 1000, 1024, 2048, 4096, 8192, 10000, 16384, 32768, 65536, 131072};
      n = (int64_t)(bigcase ? EN[8 + draw(WL, 4)] : EN[draw(WL, 9)]);
      while (!bigcase && (uint64_t)n * item > c.max_bytes) n /= 2;
      n += pick(WL, std::vector<int64_t>{0, -1, 1, -2, 2, 3});
    } else if (unit == 3) { // any size
      n = (int64_t)range(WL, 1, std::max<uint64_t>(1, (bigcase ? 300000 : c.max_bytes) / item));
    }
    if (n < 1) n = 1;
    if (str && n > 2000) n = 2000;
    if (n % 2 == 0 && draw(WL, 2)) dims({2, (uint64_t)n / 2});
    else dims({(uint64_t)n});
    break;
  }
  default: { // one long dimension
    uint64_t n = range(WL, 1, std::max<uint64_t>(1, std::min<uint64_t>(c.max_bytes, 4000) / item));
    if (str && n > 200) n = 200;
    dims({n});
  }
  }
  if (str) {
    fill_strings(t, c);
  } else {
    unsigned pat = (unsigned)draw(WL, 7);
    fill(t, pat, draw(WL, 1 << 16));
  }
  return t;
}

npy::endian_t endian() {
  static const npy::endian_t e[] = {npy::endian_t::NATIVE, npy::endian_t::LITTLE, npy::endian_t::BIG};
  return e[draw(WL, 3)];
}
npy::compression_method_t compression() {
  return draw(WL, 2) ? npy::compression_method_t::DEFLATED : npy::compression_method_t::STORED;
}
std::string name() {
  switch (weighted(WL, {8, 4, 2, 2, 1, 1, 1, 1, 1, 1, 1})) {
  case 0: return std::string(1, (char)('a' + draw(WL, 6)));
  case 1: return std::string(1, (char)('a' + draw(WL, 6))) + ".npy";
  case 2: return "arr_" + std::to_string(draw(WL, 12));
  case 3: return "dir/sub/x" + std::to_string(draw(WL, 3));
  case 4: return "";
  case 5: return pick(WL, std::vector<std::string>{".npy", "npy", "x.NPY", "a.npy.npy", "npy.", "xnpy", "a.npyx", "py", ".np"});
  case 6: return pick(WL, std::vector<std::string>{"with space and 'quotes'", "100%s%n%s%n%d", "%5000d%s%s%s%s%s%s%s%s", "..\\up\n", "/abs/path", "../up"});
  case 7: return "\xc3\xa9t\xc3\xa9\xe2\x82\xac";
  case 8: return std::string(range(WL, 1, 300), 'n');
  case 9: return std::string("nul\0inside", 10);
  default: return std::string(pick(WL, std::vector<size_t>{1000, 4000, 8150, 8191, 8192, 30000, 60000}), 'L');
  }
}
std::string stored(const std::string &n) {
  return n.size() >= 4 && n.compare(n.size() - 4, 4, ".npy") == 0 ? n : n + ".npy";
}
std::string brief(const std::string &n) {
  std::string s;
  for (char c : n.substr(0, 24)) s += c >= 32 && c < 127 ? c : '?';
  if (n.size() > 24) s += strf("...(%zu)", n.size());
  return "'" + s + "'";
}
void no_io_faults() { io = IoCfg(); }
void benign_io() {
  IoCfg c;
  switch (weighted(IO, {3, 3, 3, 1})) {
  case 0: break;
  case 1:
    c.r_short = (unsigned)pick(IO, std::vector<uint64_t>{0, 100, 500});
    c.w_short = (unsigned)pick(IO, std::vector<uint64_t>{0, 100, 500});
    break;
  case 2:
    c.r_short = 200;
    c.w_short = 200;
    c.r_eintr = 150;
    c.w_eintr = 150;
    break;
  default:
    c.r_short = 700;
    c.w_short = 700;
    c.r_eintr = 300;
    c.w_eintr = 300;
  }
  io = c;
}
} // namespace gen
