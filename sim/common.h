// Pieces shared by the workloads: archive models and the checks on them.
#pragma once
#include "gen.h"
#include <ios>
#include <locale>
#include <map>
#include <sstream>

namespace wl {
using namespace sim;
using ops::Any;
using ops::attempt;
using ops::Hdr;
using ops::Res;
using ref::TSpec;
using Ptr = std::unique_ptr<Any>;

struct Item {
  std::string name; // as stored
  TSpec t;          // canonical
};
// The model of one archive: acknowledged entries in writing order.
struct Archive {
  std::vector<Item> items;
  bool big = false;
  const Item *find(const std::string &stored) const {
    const Item *r = nullptr;
    for (auto &i : items)
      if (i.name == stored) r = &i;
    return r;
  }
  const Item *lookup(const std::string &n) const {
    const Item *r = find(n);
    return r ? r : find(n + ".npy");
  }
};

void expect_ok(const Res &r, const char *cls, const std::string &what);
void check_tensor(const Any &got, const TSpec &want, const char *cls, const std::string &what);
void check_hdr(const Hdr &h, const TSpec &t, bool big, const char *cls, const std::string &what);
// strict independent decoding
void check_npy_bytes(const std::string &bytes, const TSpec &t, int want_big, const char *cls, const std::string &what);
void check_zip(const ref::Source &src, const Archive &a, const char *cls, const std::string &what, bool gaps_ok = false);
void check_zip(const std::string &bytes, const Archive &a, const char *cls, const std::string &what, bool gaps_ok = false);
// everything a reader over `a` must answer: keys, contains, peek, read
void check_reader(ops::Reader &r, const Archive &a, const char *cls, const std::string &what);
void check_keys(ops::Reader &r, const Archive &a, const char *cls, const std::string &what);
std::string res_str(const Res &r);
void scribble_stack(uint8_t v); // leaves a pattern where library frames will live
void set_fill(uint8_t v);
inline bool native_big() { return npy::native_endian() == npy::endian_t::BIG; }
inline bool eff_big(npy::endian_t e) { return e == npy::endian_t::NATIVE ? native_big() : e == npy::endian_t::BIG; }
void pick_piece();
size_t many(); // a number of entries past what small counters and tables hold
TSpec tiny(size_t i); // the i-th of many small tensors
// a caller's stream in a drawn formatting state (flags, width, fill, locale), usually the default one
void odd_stream(std::ios &s);
// what else a caller set up in a stream; operations leave it alone
struct Settings {
  std::ios_base::iostate mask;
  std::ios_base::fmtflags flags;
  std::streamsize precision;
  char fill;
  std::locale loc;
  std::streambuf *buf;
  std::ostream *tie;
  explicit Settings(const std::ios &s) : mask(s.exceptions()), flags(s.flags()), precision(s.precision()), fill(s.fill()), loc(s.getloc()), buf(s.rdbuf()), tie(s.tie()) {}
  void check(const std::ios &s, const char *cls, const std::string &what) const;
};
// state of the process that belongs to the application: locales, directory, rounding mode, masks
struct Process {
  std::locale loc;
  std::string cloc, cwd, tz;
  int round;
  unsigned umask_;
  Process();
  std::string diff(const Process &now) const; // empty: the same
};
const std::locale &locale_of(unsigned id); // 0 classic, 1-4 other punctuation, 5 also other white space
void foreign_big(const char *cls_read, const char *cls_list); // a NumPy archive of gigabytes on a sparse disk
void noise_step(); // one drawn earlier operation, possibly failing
std::string adversarial_npy(std::string &how);
std::string adversarial_npz(std::string &how, std::vector<std::string> &names);
} // namespace wl
