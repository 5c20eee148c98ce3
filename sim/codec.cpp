#include "codec.h"
#include <algorithm>
#include <cstdarg>
#include <cstdio>
#include <cstring>
#include <unordered_map>
#include <zlib.h>

namespace ref {
const char *const DT_NAME[NDT] = {"i1", "u1", "i2", "u2", "i4", "u4", "i8", "u8", "f4", "f8", "c8", "c16", "b1", "U"};
static const char *const CODE[NDT] = {"i1", "u1", "i2", "u2", "i4", "u4", "i8", "u8", "f4", "f8", "c8", "c16", "b1", "U"};
size_t dt_size(DT d) {
  static const size_t s[NDT] = {1, 1, 2, 2, 4, 4, 8, 8, 4, 8, 8, 16, 1, 4};
  return s[d];
}
size_t dt_comp(DT d) {
  static const size_t s[NDT] = {1, 1, 2, 2, 4, 4, 8, 8, 4, 8, 4, 8, 1, 4};
  return s[d];
}
static std::string fmt(const char *f, ...) {
  char b[800];
  va_list ap;
  va_start(ap, f);
  vsnprintf(b, sizeof b, f, ap);
  va_end(ap);
  return b;
}
uint64_t TSpec::count() const {
  uint64_t n = 1;
  for (auto d : shape) n *= d;
  return n;
}
bool TSpec::same(const TSpec &o) const {
  return dt == o.dt && fortran == o.fortran && shape == o.shape && raw == o.raw && str == o.str;
}
static std::string shape_str(const std::vector<uint64_t> &s) {
  std::string r = "(";
  size_t i = 0;
  for (auto d : s) {
    if (i++ == 8) { r += fmt("...%zu dims", s.size()); break; }
    r += fmt("%llu,", (unsigned long long)d);
  }
  return r + ")";
}
std::string TSpec::brief() const {
  std::string r = std::string(DT_NAME[dt]) + shape_str(shape) + (fortran ? "F" : "C");
  if (dt == UN) r += fmt(" maxlen %zu", max_len(*this));
  return r;
}
std::string TSpec::diff(const TSpec &o) const {
  if (dt != o.dt) return fmt("element type %s instead of %s", DT_NAME[o.dt], DT_NAME[dt]);
  if (fortran != o.fortran) return fmt("fortran_order %d instead of %d", o.fortran, fortran);
  if (shape != o.shape) return "shape " + shape_str(o.shape) + " instead of " + shape_str(shape);
  if (raw.size() != o.raw.size()) return fmt("%zu value bytes instead of %zu", o.raw.size(), raw.size());
  for (size_t i = 0; i < raw.size(); ++i)
    if (raw[i] != o.raw[i])
      return fmt("element %zu of %zu differs (byte %zu: %02x instead of %02x)", i / dt_size(dt), raw.size() / dt_size(dt), i,
                 (uint8_t)o.raw[i], (uint8_t)raw[i]);
  if (str.size() != o.str.size()) return fmt("%zu strings instead of %zu", o.str.size(), str.size());
  for (size_t i = 0; i < str.size(); ++i)
    if (str[i] != o.str[i]) return fmt("string %zu differs (length %zu instead of %zu)", i, o.str[i].size(), str[i].size());
  return "equal";
}
uint64_t TSpec::hash() const {
  uint64_t h = 1469598103934665603ull;
  auto add = [&](const void *p, size_t n) {
    const uint8_t *b = (const uint8_t *)p;
    for (size_t i = 0; i < n; ++i) h = (h ^ b[i]) * 1099511628211ull;
  };
  add(&dt, sizeof dt);
  add(&fortran, 1);
  for (auto d : shape) add(&d, 8);
  add(raw.data(), raw.size());
  for (auto &s : str) { size_t n = s.size(); add(&n, 8); add(s.data(), n * 4); }
  return h;
}
size_t max_len(const TSpec &t) {
  size_t m = 0;
  for (auto &s : t.str) m = std::max(m, s.size());
  return m;
}
TSpec canonical(TSpec t) {
  for (auto &s : t.str)
    while (!s.empty() && s.back() == 0) s.pop_back();
  return t;
}

static void put_swapped(std::string &out, const char *p, size_t n, size_t comp, bool big) {
  if (!big || comp == 1) {
    out.append(p, n);
    return;
  }
  size_t base = out.size();
  out.resize(base + n);
  for (size_t i = 0; i < n; i += comp)
    for (size_t j = 0; j < comp; ++j) out[base + i + j] = p[i + comp - 1 - j];
}
std::string payload(const TSpec &t, bool big, size_t ulen) {
  std::string out;
  if (t.dt == UN) {
    std::string le;
    for (auto &s : t.str)
      for (size_t i = 0; i < ulen; ++i) {
        uint32_t c = i < s.size() ? (uint32_t)s[i] : 0;
        for (int k = 0; k < 4; ++k) le += (char)(c >> (8 * k));
      }
    put_swapped(out, le.data(), le.size(), 4, big);
  } else {
    out.reserve(t.raw.size());
    put_swapped(out, t.raw.data(), t.raw.size(), dt_comp(t.dt), big);
  }
  return out;
}
std::string descr(DT d, bool big, size_t ulen) {
  if (d == UN) return fmt("%cU%zu", big ? '>' : '<', ulen);
  if (dt_size(d) == 1) return std::string("|") + CODE[d];
  return std::string(big ? ">" : "<") + CODE[d];
}

// ---------------------------------------------------------------- NPY reader
bool npy_decode(const char *p, size_t n, bool strict, Npy &out, std::string &err) {
  out = Npy();
  auto bad = [&](const std::string &m) { err = m; return false; };
  if (n < 10) return bad("shorter than an NPY header");
  if (memcmp(p, "\x93NUMPY", 6) != 0) return bad("wrong magic string");
  out.major = (uint8_t)p[6];
  if (p[7] != 0 || (out.major != 1 && out.major != 2)) return bad(fmt("version %d.%d", out.major, p[7]));
  size_t len, pos;
  if (out.major == 1) {
    len = (uint8_t)p[8] | ((uint8_t)p[9] << 8);
    pos = 10;
  } else {
    if (n < 12) return bad("shorter than an NPY header");
    len = (uint8_t)p[8] | ((uint8_t)p[9] << 8) | ((uint32_t)(uint8_t)p[10] << 16) | ((size_t)(uint8_t)p[11] << 24);
    pos = 12;
  }
  if (pos + len > n) return bad(fmt("header length %zu runs past the end (%zu bytes)", len, n));
  std::string d(p + pos, len);
  out.header = pos + len;
  if (strict && out.header % 64) return bad(fmt("header size %zu is not a multiple of 64", out.header));
  if (strict && (d.empty() || d.back() != '\n')) return bad("header does not end in a newline");
  // dictionary literal
  size_t i = 0;
  auto ws = [&] { while (i < d.size() && (d[i] == ' ' || d[i] == '\n')) ++i; };
  auto lit = [&](char c) { ws(); if (i < d.size() && d[i] == c) { ++i; return true; } return false; };
  auto str = [&](std::string &s) {
    ws();
    if (i >= d.size() || d[i] != '\'') return false;
    size_t e = d.find('\'', i + 1);
    if (e == std::string::npos) return false;
    s = d.substr(i + 1, e - i - 1);
    i = e + 1;
    return true;
  };
  bool hd = false, hf = false, hs = false;
  if (!lit('{')) return bad("dictionary does not start with '{'");
  while (true) {
    ws();
    if (lit('}')) break;
    std::string key;
    if (!str(key)) return bad("dictionary key expected in " + d);
    if (!lit(':')) return bad("':' expected in " + d);
    if (key == "descr" && !hd) {
      if (!str(out.descr)) return bad("descr is not a string");
      hd = true;
    } else if (key == "fortran_order" && !hf) {
      ws();
      if (d.compare(i, 4, "True") == 0) { out.t.fortran = true; i += 4; }
      else if (d.compare(i, 5, "False") == 0) { out.t.fortran = false; i += 5; }
      else return bad("fortran_order is not a boolean");
      hf = true;
    } else if (key == "shape" && !hs) {
      if (!lit('(')) return bad("shape is not a tuple");
      size_t commas = 0;
      while (!lit(')')) {
        ws();
        if (out.t.shape.size() > commas) return bad("',' expected in shape of " + d);
        if (i >= d.size() || d[i] < '0' || d[i] > '9') return bad("malformed shape in " + d);
        uint64_t v = 0;
        if (d[i] == '0' && i + 1 < d.size() && d[i + 1] >= '0' && d[i + 1] <= '9') return bad("leading zero in shape");
        while (i < d.size() && d[i] >= '0' && d[i] <= '9') {
          if (__builtin_mul_overflow(v, (uint64_t)10, &v) || __builtin_add_overflow(v, (uint64_t)(d[i] - '0'), &v))
            return bad("shape overflows");
          ++i;
        }
        out.t.shape.push_back(v);
        if (lit(',')) ++commas;
      }
      if (out.t.shape.size() == 1 && commas != 1) return bad("a one-element shape is not a tuple in " + d);
      hs = true;
    } else {
      return bad("unexpected key '" + key + "'");
    }
    ws();
    if (!lit(',')) {
      if (!lit('}')) return bad("',' or '}' expected in " + d);
      break;
    }
  }
  while (i < d.size() && (d[i] == ' ' || (d[i] == '\n' && i + 1 == d.size()))) ++i;
  if (i != d.size()) return bad("trailing characters after the dictionary: " + d);
  if (!hd || !hf || !hs) return bad("missing key in " + d);
  // descr
  std::string &c = out.descr;
  if (c.size() < 3) return bad("descr '" + c + "'");
  out.big = c[0] == '>';
  bool known = false;
  if (c[1] == 'U' && (c[0] == '<' || c[0] == '>')) {
    out.t.dt = UN;
    out.ulen = 0;
    for (size_t k = 2; k < c.size(); ++k) {
      if (c[k] < '0' || c[k] > '9') return bad("descr '" + c + "'");
      out.ulen = out.ulen * 10 + (c[k] - '0');
    }
    known = true;
  } else {
    for (int k = 0; k < UN; ++k)
      if (descr((DT)k, out.big, 0) == c) {
        out.t.dt = (DT)k;
        known = true;
      }
  }
  if (!known) return bad("descr '" + c + "' is not one NumPy would write for a supported type");
  uint64_t cnt = 1;
  for (auto s : out.t.shape)
    if (s == 0) cnt = 0;
  if (cnt)
    for (auto s : out.t.shape)
      if (__builtin_mul_overflow(cnt, s, &cnt)) return bad("shape overflows");
  uint64_t item = out.t.dt == UN ? 4 * out.ulen : dt_size(out.t.dt);
  uint64_t bytes;
  if (__builtin_mul_overflow(cnt, item, &bytes) || bytes > n - out.header)
    return bad(fmt("%zu data bytes, shape %s of %s needs %llu", n - out.header, shape_str(out.t.shape).c_str(), c.c_str(),
                   (unsigned long long)(cnt * item)));
  out.total = out.header + bytes;
  const char *q = p + out.header;
  std::string le;
  put_swapped(le, q, bytes, dt_comp(out.t.dt), out.big);
  if (out.t.dt == UN) {
    if (cnt > (64u << 20)) return bad("too many strings");
    for (uint64_t e = 0; e < cnt; ++e) {
      std::u32string s;
      for (size_t k = 0; k < out.ulen; ++k) {
        const uint8_t *b = (const uint8_t *)le.data() + (e * out.ulen + k) * 4;
        s.push_back((char32_t)(b[0] | (b[1] << 8) | (b[2] << 16) | ((uint32_t)b[3] << 24)));
      }
      while (!s.empty() && s.back() == 0) s.pop_back();
      out.t.str.push_back(s);
    }
  } else {
    out.t.raw = le;
  }
  return true;
}

// ---------------------------------------------------------------- ZIP reader
Source source_of(const std::string &s) {
  Source r;
  r.size = s.size();
  const std::string *ps = &s;
  r.read = [ps](uint64_t off, char *p, size_t n) -> size_t {
    if (off >= ps->size()) return 0;
    n = std::min<uint64_t>(n, ps->size() - off);
    memcpy(p, ps->data() + off, n);
    return n;
  };
  return r;
}
uint32_t crc32_ref(const char *p, size_t n, uint32_t crc) {
  while (n) {
    size_t k = std::min<size_t>(n, 1u << 30);
    crc = (uint32_t)::crc32(crc, (const Bytef *)p, (uInt)k);
    p += k;
    n -= k;
  }
  return crc;
}
namespace {
struct Rd {
  const Source &s;
  uint64_t pos;
  bool ok = true;
  uint64_t num(int k) {
    unsigned char b[8] = {0};
    if (s.read(pos, (char *)b, k) != (size_t)k) ok = false;
    pos += k;
    uint64_t v = 0;
    for (int i = k - 1; i >= 0; --i) v = v << 8 | b[i];
    return v;
  }
  std::string str(size_t n) {
    std::string r(n, '\0');
    if (n && s.read(pos, &r[0], n) != n) ok = false;
    pos += n;
    return r;
  }
};
bool extra64(const std::string &x, ZEntry &e, bool want_off, bool local, std::string &err) {
  size_t i = 0;
  bool seen = false;
  while (i < x.size()) {
    if (x.size() - i < 4) { err = "extra field of " + e.name + " is cut off"; return false; }
    auto u16 = [&](size_t k) { return (uint16_t)((uint8_t)x[k] | ((uint8_t)x[k + 1] << 8)); };
    uint16_t tag = u16(i), len = u16(i + 2);
    if (i + 4 + len > x.size()) { err = "extra field of " + e.name + " runs past its area"; return false; }
    if (tag == 1) {
      if (seen) { err = "two ZIP64 extra fields"; return false; }
      seen = true;
      size_t k = i + 4, end = i + 4 + len;
      auto u64 = [&](uint64_t &v) {
        if (end - k < 8) return false;
        v = 0;
        for (int b = 7; b >= 0; --b) v = v << 8 | (uint8_t)x[k + b];
        k += 8;
        return true;
      };
      if (local && e.usize == 0xFFFFFFFF && e.csize != 0xFFFFFFFF) { /* allowed by readers */ }
      if (e.usize == 0xFFFFFFFF && !u64(e.usize)) { err = "ZIP64 field of " + e.name + " lacks the size"; return false; }
      if (e.csize == 0xFFFFFFFF && !u64(e.csize)) { err = "ZIP64 field of " + e.name + " lacks the compressed size"; return false; }
      if (want_off && e.off == 0xFFFFFFFF && !u64(e.off)) { err = "ZIP64 field of " + e.name + " lacks the offset"; return false; }
    }
    i += 4 + len;
  }
  if (!seen && (e.usize == 0xFFFFFFFF || e.csize == 0xFFFFFFFF || (want_off && e.off == 0xFFFFFFFF))) {
    err = "ZIP64 placeholder without a ZIP64 extra field in " + e.name;
    return false;
  }
  return true;
}
} // namespace

bool zip_decode(const Source &src, std::vector<ZEntry> &out, std::string &err) {
  out.clear();
  auto bad = [&](const std::string &m) { err = m; return false; };
  if (src.size < 22) return bad(fmt("%llu bytes: too short for a ZIP end record", (unsigned long long)src.size));
  uint64_t eo = src.size - 22;
  Rd r{src, eo};
  if (r.num(4) != 0x06054b50) return bad("no end-of-central-directory record at the end");
  uint64_t disk = r.num(2), cddisk = r.num(2), n1 = r.num(2), n2 = r.num(2), csz = r.num(4), coff = r.num(4), clen = r.num(2);
  if (disk || cddisk) return bad("end record names other disks");
  if (clen) return bad("end record announces a comment that is not there");
  if (n1 != n2) return bad("end record's two entry counts differ");
  uint64_t n = n1, cend = eo;
  if (n1 == 0xFFFF || csz == 0xFFFFFFFF || coff == 0xFFFFFFFF) {
    // a ZIP64 end record must be present, or the plain values must be literal
    Rd l{src, eo >= 20 ? eo - 20 : 0};
    if (eo >= 20 && l.num(4) == 0x07064b50) {
      l.num(4);
      uint64_t zo = l.num(8);
      Rd z{src, zo};
      if (z.num(4) != 0x06064b50) return bad("ZIP64 locator does not point at a ZIP64 end record");
      z.num(8); z.num(2); z.num(2); z.num(4); z.num(4);
      uint64_t a = z.num(8), b = z.num(8), c = z.num(8), d = z.num(8);
      if (!z.ok || a != b) return bad("ZIP64 end record is inconsistent");
      n = a; csz = c; coff = d;
      cend = zo;
    }
  }
  if (coff + csz != cend) return bad(fmt("central directory [%llu,+%llu) does not end at the end record (%llu)", (unsigned long long)coff,
                                         (unsigned long long)csz, (unsigned long long)cend));
  Rd c{src, coff};
  for (uint64_t i = 0; i < n; ++i) {
    ZEntry e;
    if (c.num(4) != 0x02014b50) return bad(fmt("central directory entry %llu of %llu has no signature", (unsigned long long)i, (unsigned long long)n));
    c.num(2);
    e.version = (uint16_t)c.num(2);
    e.flags = (uint16_t)c.num(2);
    e.method = (uint16_t)c.num(2);
    uint64_t dostime = c.num(4);
    (void)dostime;
    e.crc = (uint32_t)c.num(4);
    e.csize = c.num(4);
    e.usize = c.num(4);
    uint64_t nl = c.num(2), xl = c.num(2), ml = c.num(2), ds = c.num(2);
    c.num(2);
    c.num(4);
    e.off = c.num(4);
    e.name = c.str(nl);
    std::string x = c.str(xl);
    c.str(ml);
    if (!c.ok || c.pos > cend) return bad("central directory is cut off");
    if (ds) return bad("entry on another disk");
    bool z64 = e.csize == 0xFFFFFFFF || e.usize == 0xFFFFFFFF || e.off == 0xFFFFFFFF;
    if (!extra64(x, e, true, false, err)) return false;
    if (z64 && e.version < 45) return bad("ZIP64 entry with version needed below 4.5");
    // local header
    Rd l{src, e.off};
    if (e.off >= coff || l.num(4) != 0x04034b50) return bad("no local header at the offset recorded for " + e.name);
    ZEntry h;
    h.name = e.name;
    uint64_t lv = l.num(2);
    h.flags = (uint16_t)l.num(2);
    h.method = (uint16_t)l.num(2);
    l.num(4);
    h.crc = (uint32_t)l.num(4);
    h.csize = l.num(4);
    h.usize = l.num(4);
    uint64_t lnl = l.num(2), lxl = l.num(2);
    std::string ln = l.str(lnl), lx = l.str(lxl);
    if (!l.ok) return bad("local header of " + e.name + " is cut off");
    bool lz64 = h.csize == 0xFFFFFFFF || h.usize == 0xFFFFFFFF;
    if (!extra64(lx, h, false, true, err)) return false;
    if (lz64 && lv < 45) return bad("ZIP64 local header with version needed below 4.5");
    if (ln != e.name) return bad("local and central names differ for " + e.name);
    if (h.flags != e.flags || h.method != e.method) return bad("local and central flags or method differ for " + e.name);
    if (e.flags & ~0x0806) return bad(fmt("unexpected general purpose flags %x", e.flags));
    if (h.crc != e.crc || h.csize != e.csize || h.usize != e.usize) return bad("local and central sizes or CRC differ for " + e.name);
    if (e.method != 0 && e.method != 8) return bad(fmt("compression method %d", e.method));
    if (e.method == 0 && e.csize != e.usize) return bad("stored entry with differing sizes: " + e.name);
    e.data = l.pos;
    if (e.data + e.csize > coff) return bad("data of " + e.name + " runs into the central directory");
    out.push_back(e);
  }
  if (c.pos != cend) return bad(fmt("central directory has %llu bytes beyond its %llu entries", (unsigned long long)(cend - c.pos), (unsigned long long)n));
  std::vector<std::pair<uint64_t, uint64_t>> ext;
  for (auto &e : out) ext.push_back({e.off, e.data + e.csize});
  std::sort(ext.begin(), ext.end());
  for (size_t i = 1; i < ext.size(); ++i)
    if (ext[i].first < ext[i - 1].second) return bad("two entries overlap");
  return true;
}

bool zip_member(const Source &src, const ZEntry &e, std::string &out, std::string &err) {
  std::string in(e.csize, '\0');
  if (src.read(e.data, &in[0], in.size()) != in.size()) { err = "data of " + e.name + " is cut off"; return false; }
  if (e.method == 0) {
    out.swap(in);
  } else {
    out.clear();
    z_stream z;
    memset(&z, 0, sizeof z);
    if (inflateInit2(&z, -15) != Z_OK) { err = "zlib init"; return false; }
    z.next_in = (Bytef *)in.data();
    z.avail_in = (uInt)in.size();
    std::string buf(1 << 18, '\0');
    int ret = Z_OK;
    do {
      z.next_out = (Bytef *)&buf[0];
      z.avail_out = (uInt)buf.size();
      ret = inflate(&z, Z_NO_FLUSH);
      out.append(buf.data(), buf.size() - z.avail_out);
    } while (ret == Z_OK);
    bool all = z.avail_in == 0;
    inflateEnd(&z);
    if (ret != Z_STREAM_END) { err = fmt("deflate data of %s is invalid (zlib %d)", e.name.c_str(), ret); return false; }
    if (!all) { err = "deflate data of " + e.name + " ends before its recorded size"; return false; }
  }
  if (out.size() != e.usize) { err = fmt("%s inflates to %zu bytes, recorded %llu", e.name.c_str(), out.size(), (unsigned long long)e.usize); return false; }
  if (crc32_ref(out.data(), out.size()) != e.crc) { err = "CRC of " + e.name + " does not match"; return false; }
  return true;
}
bool inflate_ref(const std::string &in, std::string &out) {
  z_stream z;
  memset(&z, 0, sizeof z);
  if (inflateInit2(&z, -15) != Z_OK) return false;
  std::string buf(1 << 16, '\0');
  out.clear();
  z.next_in = (Bytef *)in.data();
  z.avail_in = (uInt)in.size();
  int ret;
  do {
    z.next_out = (Bytef *)&buf[0];
    z.avail_out = (uInt)buf.size();
    ret = inflate(&z, Z_NO_FLUSH);
    out.append(buf.data(), buf.size() - z.avail_out);
  } while (ret == Z_OK && out.size() < (64u << 20));
  bool ok = ret == Z_STREAM_END && z.avail_in == 0;
  inflateEnd(&z);
  return ok;
}

// ------------------------------------------------- an unusual DEFLATE encoder
namespace {
struct Rng { // SplitMix64
  uint64_t s;
  explicit Rng(uint64_t seed) : s(seed) {}
  uint64_t next() {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
};
struct Bits {
  std::string out;
  uint64_t acc = 0;
  int n = 0;
  void put(uint32_t v, int k) {
    acc |= (uint64_t)v << n;
    for (n += k; n >= 8; n -= 8, acc >>= 8) out += (char)acc;
  }
  void align() {
    if (n) put(0, 8 - n);
  }
  void code(uint32_t c, int len) { // Huffman codes go most significant bit first
    uint32_t r = 0;
    for (int i = 0; i < len; ++i) r |= (c >> i & 1) << (len - 1 - i);
    put(r, len);
  }
};
struct Tok { int lit, len, dist; };
const int LBASE[] = {3, 4, 5, 6, 7, 8, 9, 10, 11, 13, 15, 17, 19, 23, 27, 31, 35, 43, 51, 59, 67, 83, 99, 115, 131, 163, 195, 227, 258};
const int LEXTRA[] = {0, 0, 0, 0, 0, 0, 0, 0, 1, 1, 1, 1, 2, 2, 2, 2, 3, 3, 3, 3, 4, 4, 4, 4, 5, 5, 5, 5, 0};
const int DBASE[] = {1, 2, 3, 4, 5, 7, 9, 13, 17, 25, 33, 49, 65, 97, 129, 193, 257, 385, 513, 769, 1025, 1537, 2049, 3073, 4097, 6145, 8193, 12289, 16385, 24577};
const int DEXTRA[] = {0, 0, 0, 0, 1, 1, 2, 2, 3, 3, 4, 4, 5, 5, 6, 6, 7, 7, 8, 8, 9, 9, 10, 10, 11, 11, 12, 12, 13, 13};
int len_sym(int len) {
  int i = 28;
  while (LBASE[i] > len) --i;
  return i;
}
int dist_sym(int d) {
  int i = 29;
  while (DBASE[i] > d) --i;
  return i;
}
// a random complete prefix code over the symbols in use
void random_code(Rng &r, const std::vector<int> &used, size_t total, int max, std::vector<int> &len) {
  len.assign(total, 0);
  if (used.empty()) return;
  if (used.size() == 1) { len[used[0]] = 1; return; }
  std::vector<int> leaf{0};
  unsigned skew = (unsigned)(r.next() >> 20) % 4; // 0: balanced ... 3: as deep as it gets
  while (leaf.size() < used.size()) {
    size_t best = leaf.size();
    for (int t = 0; t < 1 + (int)skew * 3 || best == leaf.size(); ++t) {
      size_t k = (r.next() >> 16) % leaf.size();
      // splitting this leaf must leave room for the rest
      uint64_t room = 0;
      if (leaf[k] >= max) {
        for (size_t j = 0; j < leaf.size(); ++j)
          if (leaf[j] < max) { k = j; break; }
      }
      for (size_t j = 0; j < leaf.size(); ++j)
        room += j == k ? (uint64_t)2 << (max - leaf[j] - 1) : (uint64_t)1 << (max - leaf[j]);
      if (room < used.size()) continue; // cannot happen for a complete code; kept as a guard
      if (best == leaf.size() || (skew ? leaf[k] > leaf[best] : leaf[k] < leaf[best])) best = k;
    }
    ++leaf[best];
    leaf.push_back(leaf[best]);
  }
  std::vector<int> order(used);
  for (size_t i = order.size(); i > 1; --i) std::swap(order[i - 1], order[(r.next() >> 16) % i]);
  for (size_t i = 0; i < order.size(); ++i) len[order[i]] = leaf[i];
}
std::vector<uint32_t> codes_of(const std::vector<int> &len) {
  uint32_t count[17] = {0}, next[17] = {0};
  for (int l : len) ++count[l];
  count[0] = 0;
  for (int i = 1; i <= 15; ++i) next[i] = (next[i - 1] + count[i - 1]) << 1;
  std::vector<uint32_t> c(len.size());
  for (size_t i = 0; i < len.size(); ++i)
    if (len[i]) c[i] = next[len[i]]++;
  return c;
}
} // namespace
std::string deflate_odd(const std::string &in, uint64_t seed, unsigned mischief) {
  Rng r(seed);
  auto rnd = [&](uint64_t n) { return (int)((r.next() >> 11) % n); };
  Bits b;
  size_t pos = 0;
  std::unordered_map<uint32_t, uint32_t> last;
  size_t hashed = 0;
  int style = rnd(4); // 0 mixed blocks, 1 dynamic only, 2 fixed only, 3 mostly long blocks
  int eager = 1 + rnd(4), empties = rnd(3);
  int prev = 1;
  bool fin = false;
  while (!fin) {
    size_t left = in.size() - pos, n;
    int kind = rnd(8);
    n = kind == 0 && empties ? 0 : style == 3 || kind > 4 ? left : std::min<size_t>(left, kind < 3 ? rnd(40) : rnd(3000));
    int type = style == 1 ? 2 : style == 2 ? 1 : rnd(5) ? 2 : rnd(2);
    if (type == 0) n = std::min<size_t>(n, 65535);
    bool ending = mischief && rnd(3) == 0;
    fin = pos + n == in.size() && (!empties || rnd(2));
    b.put((fin ? 1 : 0) | (mischief == 1 && ending ? 3 : type) << 1, 3);
    if (type == 0) {
      b.align();
      b.put((uint32_t)n, 16);
      b.put((uint32_t)n ^ 0xFFFF ^ (mischief == 2 && ending), 16);
      b.out.append(in, pos, n);
      pos += n;
      continue;
    }
    std::vector<Tok> toks;
    size_t end = pos + n;
    while (pos < end) {
      int best = 0, at = 0;
      if (pos && end - pos >= 3 && rnd(eager + 1)) {
        int cand[5] = {prev, 1, 1 + rnd(std::min<size_t>(pos, 16)), 0, 32768};
        if (pos + 4 <= in.size()) {
          uint32_t h;
          for (; hashed + 4 <= in.size() && hashed < pos; ++hashed) memcpy(&h, &in[hashed], 4), last[h] = (uint32_t)hashed;
          memcpy(&h, &in[pos], 4);
          auto it = last.find(h);
          if (it != last.end()) cand[3] = (int)(pos - it->second);
        }
        for (int d : cand) {
          if (d < 1 || d > 32768 || (size_t)d > pos) continue;
          int l = 0;
          while (l < 258 && pos + l < end && in[pos + l] == in[pos + l - d]) ++l;
          if (l >= 3 && (l > best || rnd(3) == 0)) best = l, at = d;
        }
      }
      if (best >= 3) {
        if (rnd(4) == 0) best = 3 + rnd(best - 2);
        toks.push_back({-1, best, at});
        prev = at;
        pos += best;
      } else {
        toks.push_back({(unsigned char)in[pos++], 0, 0});
      }
    }
    if (mischief == 3 && ending) toks.push_back({-1, 3 + rnd(256), 32768 - rnd(2000)}); // reaches before the start
    std::vector<int> ll, dl;
    if (type == 1) {
      ll.assign(288, 8);
      for (int i = 144; i < 256; ++i) ll[i] = 9;
      for (int i = 256; i < 280; ++i) ll[i] = 7;
      dl.assign(32, 5);
    } else {
      std::vector<char> lu(286, 0), du(30, 0);
      lu[256] = 1;
      for (auto &t : toks) {
        if (t.lit >= 0) lu[t.lit] = 1;
        else lu[257 + len_sym(t.len)] = 1, du[dist_sym(t.dist)] = 1;
      }
      int more = rnd(4);
      for (int i = 0; i < (more == 3 ? 60 : more); ++i) lu[rnd(286)] = 1;
      more = rnd(4);
      for (int i = 0; i < (more == 3 ? 10 : more == 2); ++i) du[rnd(30)] = 1;
      std::vector<int> a, d;
      for (int i = 0; i < 286; ++i) if (lu[i]) a.push_back(i);
      for (int i = 0; i < 30; ++i) if (du[i]) d.push_back(i);
      random_code(r, a, 286, 15, ll);
      random_code(r, d, 30, 15, dl);
      std::vector<int> wl(ll), wd(dl); // as written
      if (ending) {
        auto &w = rnd(2) ? wl : wd;
        if (mischief == 4) std::fill(w.begin(), w.end(), 0);                             // no codes at all
        if (mischief == 5) { std::fill(w.begin(), w.end(), 0); w[rnd(w.size())] = 1 + rnd(15); } // a single one
        if (mischief == 6) w[rnd(w.size())] = rnd(16);                                   // not complete, or too many
        if (mischief == 7) { int k = rnd(w.size()); for (size_t j = k; j < w.size(); ++j) w[j] = 0; }
      }
      int hlit = 286, hdist = 30;
      if (rnd(2)) while (hlit > 257 && !wl[hlit - 1]) --hlit;
      if (rnd(2)) while (hdist > 1 && !wd[hdist - 1]) --hdist;
      std::vector<int> all(wl.begin(), wl.begin() + hlit);
      all.insert(all.end(), wd.begin(), wd.begin() + hdist);
      // run-length coded, now and then
      struct Cl { int sym, extra, bits; };
      std::vector<Cl> cl;
      int rle = rnd(4);
      for (size_t i = 0; i < all.size();) {
        size_t run = 1;
        while (i + run < all.size() && all[i + run] == all[i]) ++run;
        if (rle && all[i] == 0 && run >= 3) {
          int k = (int)std::min<size_t>(run, 138);
          if (rnd(3) == 0) k = 3 + rnd(k - 2);
          if (k <= 10) cl.push_back({17, k - 3, 3});
          else cl.push_back({18, k - 11, 7});
          i += k;
        } else if (rle && i && all[i] == all[i - 1] && run >= 3) {
          int k = (int)std::min<size_t>(run, 6);
          cl.push_back({16, k - 3, 2});
          i += k;
        } else {
          cl.push_back({all[i++], 0, 0});
        }
      }
      std::vector<char> cu(19, 0);
      for (auto &c : cl) cu[c.sym] = 1;
      std::vector<int> cs, cln;
      for (int i = 0; i < 19; ++i) if (cu[i]) cs.push_back(i);
      while (cs.size() < 2 || rnd(4) == 0) {
        int k = rnd(19);
        if (!cu[k]) cu[k] = 1, cs.push_back(k);
        else if (cs.size() >= 2) break;
      }
      random_code(r, cs, 19, 7, cln);
      std::vector<int> cw(cln);
      if (mischief == 8 && ending) cw[rnd(19)] = rnd(8);
      if (mischief == 9 && ending) { std::fill(cw.begin(), cw.end(), 0); if (rnd(2)) cw[rnd(19)] = 1 + rnd(7); }
      static const int ORD[19] = {16, 17, 18, 0, 8, 7, 9, 6, 10, 5, 11, 4, 12, 3, 13, 2, 14, 1, 15};
      int hclen = 19;
      if (rnd(2)) while (hclen > 4 && !cw[ORD[hclen - 1]]) --hclen;
      b.put(mischief == 10 && ending ? 30 + rnd(2) : hlit - 257, 5);
      b.put(mischief == 11 && ending ? 30 + rnd(2) : hdist - 1, 5);
      b.put(hclen - 4, 4);
      for (int i = 0; i < hclen; ++i) b.put(cw[ORD[i]], 3);
      auto cc = codes_of(cln);
      for (auto &c : cl) {
        b.code(cc[c.sym], cln[c.sym]);
        if (c.bits) b.put(c.extra, c.bits);
      }
    }
    auto lc = codes_of(ll), dc = codes_of(dl);
    for (auto &t : toks) {
      if (t.lit >= 0) { b.code(lc[t.lit], ll[t.lit]); continue; }
      int s = len_sym(t.len);
      if (mischief == 12 && ending && type == 1) s = 29 + rnd(2); // 286, 287
      b.code(lc[257 + s], ll[257 + s]);
      if (s < 29) b.put(t.len - LBASE[s], LEXTRA[s]);
      int q = dist_sym(t.dist);
      bool out = mischief == 13 && ending && type == 1;
      b.code(dc[out ? 30 : q], dl[out ? 30 : q]);
      b.put(t.dist - DBASE[q], DEXTRA[q]);
    }
    if (!(mischief == 14 && ending)) b.code(lc[256], ll[256]);
  }
  b.align();
  if (mischief == 15 && !b.out.empty()) b.out.resize(1 + rnd(b.out.size()));
  if (mischief >= 4)
    for (int i = rnd(40); i > 0; --i) b.out += (char)rnd(256);
  return b.out;
}

// ------------------------------------------------------------- NumPy as peer
std::string npy_encode(const TSpec &t, const NpyStyle &s) {
  size_t ul = max_len(t) + s.extra_ulen;
  std::string d = "{'descr': '" + (s.descr.empty() ? descr(t.dt, s.big, ul) : s.descr) + "', 'fortran_order': " +
                  (t.fortran ? "True" : "False") + ", 'shape': (";
  if (!s.descr.empty() && s.descr[0] == '[') // a structured dtype is a list, not a string
    d = "{'descr': " + s.descr + ", 'fortran_order': " + (t.fortran ? "True" : "False") + ", 'shape': (";
  for (size_t i = 0; i < t.shape.size(); ++i) {
    d += fmt("%llu", (unsigned long long)t.shape[i]);
    if (s.py2_long) d += "L";
    if (i + 1 < t.shape.size()) d += ", ";
  }
  if (t.shape.size() == 1) d += ",";
  d += "), }";
  size_t pre = s.major == 1 ? 10 : 12;
  size_t pad = (s.align - (pre + d.size() + 1) % s.align) % s.align;
  if (s.align == 64 && pad == 0) pad = 0;
  d += std::string(pad, ' ');
  d += '\n';
  std::string out = "\x93NUMPY";
  out += (char)s.major;
  out += '\0';
  for (int i = 0; i < (s.major == 1 ? 2 : 4); ++i) out += (char)(d.size() >> (8 * i));
  out += d;
  out += payload(t, s.big, ul);
  return out;
}

static void le(std::string &s, uint64_t v, int n) {
  for (int i = 0; i < n; ++i) s += (char)(v >> (8 * i));
}
std::string zip_encode(const std::vector<Member> &ms) {
  std::string out, cd;
  for (auto &m : ms) {
    const ZipStyle &s = m.style;
    std::string data, back;
    bool odd = s.deflate && s.odd && m.bytes.size() < (1u << 18);
    if (odd) {
      data = deflate_odd(m.bytes, s.odd);
      odd = inflate_ref(data, back) && back == m.bytes;
    }
    if (odd) {
    } else if (s.deflate) {
      data.clear();
      z_stream z;
      memset(&z, 0, sizeof z);
      deflateInit2(&z, s.level, Z_DEFLATED, -s.wbits, s.mem, s.strategy);
      std::string buf(1 << 16, '\0');
      size_t step = s.flush_every ? s.flush_every : m.bytes.size() + 1, pos = 0;
      int ret = Z_OK;
      do {
        size_t k = std::min(step, m.bytes.size() - pos);
        z.next_in = (Bytef *)m.bytes.data() + pos;
        z.avail_in = (uInt)k;
        pos += k;
        int fl = pos == m.bytes.size() ? Z_FINISH : (s.flush_every % 3 == 0 ? Z_FULL_FLUSH : s.flush_every % 3 == 1 ? Z_SYNC_FLUSH : Z_BLOCK);
        do {
          z.next_out = (Bytef *)&buf[0];
          z.avail_out = (uInt)buf.size();
          ret = deflate(&z, fl);
          data.append(buf.data(), buf.size() - z.avail_out);
        } while (z.avail_out == 0);
      } while (ret != Z_STREAM_END);
      deflateEnd(&z);
    } else {
      data = m.bytes;
    }
    uint32_t crc = crc32_ref(m.bytes.data(), m.bytes.size());
    uint64_t off = out.size();
    uint16_t flags = s.flags | (s.descriptor ? 8 : 0);
    le(out, 0x04034b50, 4);
    le(out, s.zip64_local ? std::max<int>(45, s.need) : s.need, 2);
    le(out, flags, 2);
    le(out, s.deflate ? 8 : 0, 2);
    le(out, s.time, 2);
    le(out, s.date, 2);
    le(out, s.descriptor ? 0 : crc, 4);
    uint64_t cs = s.descriptor ? 0 : data.size(), us = s.descriptor ? 0 : m.bytes.size();
    bool hide = s.zip64_local && !s.zip64_literal;
    le(out, hide ? 0xFFFFFFFFu : cs, 4);
    le(out, hide ? 0xFFFFFFFFu : us, 4);
    le(out, m.name.size(), 2);
    le(out, s.zip64_local ? 20 : 0, 2);
    out += m.name;
    if (s.zip64_local) {
      le(out, 1, 2);
      le(out, 16, 2);
      le(out, us, 8);
      le(out, cs, 8);
    }
    out += data;
    if (s.descriptor) {
      le(out, 0x08074b50, 4);
      le(out, crc, 4);
      le(out, data.size(), s.zip64_local ? 8 : 4);
      le(out, m.bytes.size(), s.zip64_local ? 8 : 4);
    }
    le(cd, 0x02014b50, 4);
    le(cd, s.zip64_local ? std::max<int>(45, s.made) : s.made, 2);
    le(cd, s.zip64_local ? std::max<int>(45, s.need) : s.need, 2);
    le(cd, flags, 2);
    le(cd, s.deflate ? 8 : 0, 2);
    le(cd, s.time, 2);
    le(cd, s.date, 2);
    le(cd, crc, 4);
    le(cd, data.size(), 4);
    le(cd, m.bytes.size(), 4);
    le(cd, m.name.size(), 2);
    le(cd, 0, 2);
    le(cd, 0, 2);
    le(cd, 0, 2);
    le(cd, 0, 2);
    le(cd, s.attr, 4);
    le(cd, off, 4);
    cd += m.name;
  }
  uint64_t coff = out.size();
  out += cd;
  le(out, 0x06054b50, 4);
  le(out, 0, 2);
  le(out, 0, 2);
  le(out, ms.size(), 2);
  le(out, ms.size(), 2);
  le(out, cd.size(), 4);
  le(out, coff, 4);
  le(out, 0, 2);
  return out;
}
} // namespace ref
