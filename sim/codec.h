// Reference model and independent codecs: the tensor model, a strict NPY
// reader, a strict ZIP reader (zlib inflate, its own structure parser) and
// encoders that play the NumPy peer. Nothing here uses the library under test.
#pragma once
#include <cstdint>
#include <functional>
#include <string>
#include <vector>

namespace ref {

enum DT { I1, U1, I2, U2, I4, U4, I8, U8, F4, F8, C8, C16, B1, UN, NDT };
extern const char *const DT_NAME[NDT];
size_t dt_size(DT d); // bytes per element (UN: per character)
size_t dt_comp(DT d); // bytes per independently ordered component

// The model of a tensor: what a user put in, and must get out.
struct TSpec {
  DT dt = U1;
  std::vector<uint64_t> shape;
  bool fortran = false;
  std::string raw;                 // elements, little-endian, in memory order
  std::vector<std::u32string> str; // for UN
  uint64_t count() const;
  bool same(const TSpec &o) const;
  std::string brief() const;
  std::string diff(const TSpec &o) const; // first difference, for messages
  uint64_t hash() const;
};
size_t max_len(const TSpec &t); // longest string
TSpec canonical(TSpec t);       // strings lose trailing NULs, as NumPy defines

std::string payload(const TSpec &t, bool big, size_t ulen);
std::string descr(DT d, bool big, size_t ulen);

struct Npy {
  TSpec t;
  bool big = false;
  size_t ulen = 0;
  std::string descr;
  int major = 1;
  size_t header = 0; // bytes up to the data
  size_t total = 0;  // bytes including the data
};
// Strict reader of NPY 1.0/2.0. `strict` also demands what libnpy promises
// about its own files (64-byte alignment, newline, exactly three keys).
bool npy_decode(const char *p, size_t n, bool strict, Npy &out, std::string &err);

// ------------------------------------------------------------------- ZIP
struct Source {
  uint64_t size = 0;
  std::function<size_t(uint64_t, char *, size_t)> read;
};
Source source_of(const std::string &s); // s must outlive it
struct ZEntry {
  std::string name;
  uint16_t method = 0, flags = 0, version = 0;
  uint32_t crc = 0;
  uint64_t csize = 0, usize = 0, off = 0, data = 0;
};
bool zip_decode(const Source &src, std::vector<ZEntry> &out, std::string &err);
bool zip_member(const Source &src, const ZEntry &e, std::string &out, std::string &err);
uint32_t crc32_ref(const char *p, size_t n, uint32_t crc = 0);
bool inflate_ref(const std::string &in, std::string &out); // false unless exactly one valid stream
// DEFLATE by an encoder that chooses block types, code lengths, matches and
// table encodings at random. Mischief > 0 breaks one rule of the format.
std::string deflate_odd(const std::string &in, uint64_t seed, unsigned mischief = 0);

// ---------------------------------------------------------- NumPy as a peer
struct NpyStyle {
  int major = 1;
  bool big = false;
  size_t align = 64;   // 16 in old NumPy
  bool py2_long = false;
  size_t extra_ulen = 0;
  std::string descr;   // overrides
  bool bare_true = false;
};
std::string npy_encode(const TSpec &t, const NpyStyle &s);
struct ZipStyle {
  bool deflate = false;
  int level = 6, strategy = 0, wbits = 15, mem = 8, flush_every = 0;
  bool zip64_local = true; // numpy opens members with force_zip64=True
  bool zip64_literal = false; // Pythons before 3.11 kept the sizes in the header as well
  uint16_t made = 20, need = 20, time = 0, date = 0x21;
  uint32_t attr = 0600u << 16;
  uint16_t flags = 0;
  bool descriptor = false; // sizes after the data (non-seekable output)
  uint64_t odd = 0;        // seed of an encoder that makes unusual choices; 0 = zlib
};
struct Member { std::string name, bytes; ZipStyle style; };
std::string zip_encode(const std::vector<Member> &m);

} // namespace ref
