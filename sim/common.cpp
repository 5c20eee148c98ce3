#include "common.h"
#include "workloads.h"
#include <algorithm>
#include <cfenv>
#include <clocale>
#include <cstdlib>
#include <set>
#include <sys/stat.h>
#include <unistd.h>

namespace wl {
namespace {
// locales as real systems have them: de_DE, en_IN, fr_FR and a hostile one
struct Punct : std::numpunct<char> {
  char dp, ts;
  std::string g;
  Punct(char d, char t, const char *gr) : dp(d), ts(t), g(gr) {}
  char do_decimal_point() const override { return dp; }
  char do_thousands_sep() const override { return ts; }
  std::string do_grouping() const override { return g; }
  std::string do_truename() const override { return "vrai"; }
  std::string do_falsename() const override { return "faux"; }
};
struct NoSpace : std::ctype<char> { // blanks are not white space, commas and quotes are
  static const mask *tab() {
    static mask t[table_size];
    std::copy(classic_table(), classic_table() + table_size, t);
    t[(int)' '] = punct;
    t[(int)','] = space;
    t[(int)'\''] = space;
    return t;
  }
  NoSpace() : std::ctype<char>(tab()) {}
};
struct Backwards : std::collate<char> { // the last comes first
  int do_compare(const char *a, const char *b, const char *c, const char *d) const override {
    return -std::string(a, b).compare(std::string(c, d));
  }
};
struct Flip : std::codecvt<char, char, std::mbstate_t> { // files in another character set
  result conv(const char *f, const char *fe, const char *&fn, char *t, char *te, char *&tn) const {
    for (; f != fe && t != te; ++f, ++t) *t = *f ^ 0x20;
    fn = f;
    tn = t;
    return f == fe ? ok : partial;
  }
  result do_out(state_type &, const char *f, const char *fe, const char *&fn, char *t, char *te, char *&tn) const override { return conv(f, fe, fn, t, te, tn); }
  result do_in(state_type &, const char *f, const char *fe, const char *&fn, char *t, char *te, char *&tn) const override { return conv(f, fe, fn, t, te, tn); }
  bool do_always_noconv() const noexcept override { return false; }
  int do_encoding() const noexcept override { return 1; }
  int do_max_length() const noexcept override { return 1; }
  int do_length(state_type &, const char *f, const char *fe, size_t n) const override { return (int)std::min<size_t>(fe - f, n); }
};
struct Marked : std::num_put<char> { // numbers do not look like numbers
  template <class V> iter_type put_marked(iter_type i, std::ios_base &io, char_type f, V v) const {
    *i++ = '#';
    return std::num_put<char>::do_put(i, io, f, v);
  }
  iter_type do_put(iter_type i, std::ios_base &io, char_type f, long v) const override { return put_marked(i, io, f, v); }
  iter_type do_put(iter_type i, std::ios_base &io, char_type f, unsigned long v) const override { return put_marked(i, io, f, v); }
};
struct Off : std::num_get<char> { // and are read as something else
  template <class V> iter_type get_off(iter_type i, iter_type e, std::ios_base &io, std::ios_base::iostate &st, V &v) const {
    i = std::num_get<char>::do_get(i, e, io, st, v);
    ++v;
    return i;
  }
  iter_type do_get(iter_type i, iter_type e, std::ios_base &io, std::ios_base::iostate &st, unsigned long &v) const override { return get_off(i, e, io, st, v); }
  iter_type do_get(iter_type i, iter_type e, std::ios_base &io, std::ios_base::iostate &st, long &v) const override { return get_off(i, e, io, st, v); }
};
}
const std::locale &locale_of(unsigned id) {
  static const std::locale l[] = {std::locale::classic(),
                                  std::locale(std::locale::classic(), new Punct(',', '.', "\3")),
                                  std::locale(std::locale::classic(), new Punct('.', ',', "\3\2")),
                                  std::locale(std::locale::classic(), new Punct(',', ' ', "\1")).combine<std::collate<char>>(std::locale(std::locale::classic(), new Backwards)),
                                  std::locale(std::locale::classic(), new Punct('.', ')', "\1")),
                                  std::locale(std::locale(std::locale::classic(), new Punct('.', ',', "\1")), new NoSpace),
                                  std::locale(std::locale(std::locale(std::locale::classic(), new Backwards), new Marked), new Off),
                                  std::locale(std::locale::classic(), new Flip)};
  return l[id];
}
size_t many() { return pick(WL, std::vector<size_t>{20, 33, 65, 129, 257, 300, 520}); }
TSpec tiny(size_t i) {
  TSpec t;
  t.dt = i % 3 ? ref::U1 : ref::I4;
  t.shape.assign(1, i % 5);
  gen::fill(t, 0, i * 7);
  return t;
}
void odd_stream(std::ios &s) {
  if (draw(IO, 5) != 4) return;
  unsigned f = (unsigned)draw(IO, 64);
  if (f & 1) s.setf(std::ios::hex, std::ios::basefield);
  if (f & 2) s.setf(std::ios::showbase | std::ios::showpos | std::ios::uppercase | std::ios::left);
  if (f & 4) s.unsetf(std::ios::skipws);
  if (f & 8) s.fill('*');
  if (f & 16) s.width((std::streamsize)pick(IO, std::vector<unsigned>{13, 1, 100, 300, 5000}));
  if (f & 32) s.imbue(locale_of((unsigned)draw(IO, 7)));
  count("stream.formatting");
}
void Settings::check(const std::ios &s, const char *cls, const std::string &what) const {
  Settings n(s);
  const char *d = n.mask != mask ? "exception mask" : n.flags != flags ? "format flags" : n.precision != precision ? "precision" : n.fill != fill ? "fill character" : n.loc != loc ? "locale" : n.buf != buf ? "buffer" : n.tie != tie ? "tied stream" : nullptr;
  if (d) violation(cls, "%s changed the %s of the caller's stream", what.c_str(), d);
}
Process::Process() : round(fegetround()) {
  const char *c = setlocale(LC_ALL, nullptr), *t = getenv("TZ");
  cloc = c ? c : "";
  tz = t ? t : "";
  char b[4096];
  cwd = getcwd(b, sizeof b) ? b : "";
  umask_ = umask(022);
  umask(umask_);
}
std::string Process::diff(const Process &n) const {
  if (n.loc != loc) return "the global locale";
  if (n.cloc != cloc) return "the C locale";
  if (n.tz != tz) return "the time zone";
  if (n.cwd != cwd) return "the working directory";
  if (n.round != round) return "the rounding mode";
  if (n.umask_ != umask_) return "the file mode mask";
  return "";
}
std::string res_str(const Res &r) { return r.ok() ? "returned normally" : "threw " + r.what; }
void expect_ok(const Res &r, const char *cls, const std::string &what) {
  if (!r.ok()) violation(cls, "%s failed although nothing was wrong: %s", what.c_str(), r.what.c_str());
}
void check_tensor(const Any &got, const TSpec &want, const char *cls, const std::string &what) {
  TSpec s = got.spec();
  if (!want.same(s)) violation(cls, "%s: %s (tensor %s)", what.c_str(), want.diff(s).c_str(), want.brief().c_str());
}
void check_hdr(const Hdr &h, const TSpec &t, bool big, const char *cls, const std::string &what) {
  std::string why;
  if (!ops::hdr_matches(h, t, big, why)) violation(cls, "%s: %s (tensor %s)", what.c_str(), why.c_str(), t.brief().c_str());
}
void check_npy_bytes(const std::string &bytes, const TSpec &t, int want_big, const char *cls, const std::string &what) {
  ref::Npy n;
  std::string err;
  if (!ref::npy_decode(bytes.data(), bytes.size(), true, n, err))
    violation(cls, "%s: not a valid NPY file: %s (tensor %s)", what.c_str(), err.c_str(), t.brief().c_str());
  if (n.total != bytes.size()) violation(cls, "%s: %zu bytes where the header announces %zu", what.c_str(), bytes.size(), n.total);
  if (want_big >= 0 && (t.dt == ref::UN || ref::dt_size(t.dt) > 1) && n.big != (want_big == 1))
    violation(cls, "%s: written in the wrong byte order", what.c_str());
  TSpec c = ref::canonical(t);
  if (!c.same(n.t)) violation(cls, "%s: an independent reader gets %s (tensor %s)", what.c_str(), c.diff(n.t).c_str(), t.brief().c_str());
}
void check_zip(const ref::Source &src, const Archive &a, const char *cls, const std::string &what, bool gaps_ok) {
  std::vector<ref::ZEntry> z;
  std::string err;
  if (!ref::zip_decode(src, z, err)) violation(cls, "%s: not a valid ZIP archive: %s", what.c_str(), err.c_str());
  if (z.size() != a.items.size()) violation(cls, "%s: the archive lists %zu entries, %zu were acknowledged", what.c_str(), z.size(), a.items.size());
  uint64_t at = 0;
  for (size_t i = 0; i < z.size(); ++i) {
    if (z[i].name != a.items[i].name)
      violation(cls, "%s: entry %zu is named %s instead of %s", what.c_str(), i, gen::brief(z[i].name).c_str(), gen::brief(a.items[i].name).c_str());
    if (!gaps_ok && z[i].off != at) violation(cls, "%s: %llu stray bytes before entry %zu", what.c_str(), (unsigned long long)(z[i].off - at), i);
    at = z[i].data + z[i].csize;
    std::string bytes;
    if (!ref::zip_member(src, z[i], bytes, err)) violation(cls, "%s: %s", what.c_str(), err.c_str());
    check_npy_bytes(bytes, a.items[i].t, a.big, cls, what + " member " + gen::brief(z[i].name));
  }
  // nothing that looks like a second end record may lie between the entries and the directory
  if (src.size < (1u << 26)) {
    std::string all(src.size, '\0');
    src.read(0, &all[0], all.size());
    uint64_t coff = (uint8_t)all[all.size() - 6] | (uint8_t)all[all.size() - 5] << 8 | (uint8_t)all[all.size() - 4] << 16 | (uint64_t)(uint8_t)all[all.size() - 3] << 24;
    if (coff != 0xFFFFFFFF && coff > at) {
      std::string gap = all.substr(at, coff - at);
      if (gap.find("PK\x05\x06") != std::string::npos || gap.find("PK\x01\x02") != std::string::npos)
        violation(cls, "%s: more than one central directory or end record", what.c_str());
      if (!gaps_ok) violation(cls, "%s: %zu stray bytes before the central directory", what.c_str(), gap.size());
    }
  }
}
void check_zip(const std::string &bytes, const Archive &a, const char *cls, const std::string &what, bool gaps_ok) {
  check_zip(ref::source_of(bytes), a, cls, what, gaps_ok);
}

void check_keys(ops::Reader &r, const Archive &a, const char *cls, const std::string &what) {
  std::vector<std::string> k;
  Res q = attempt("keys", [&] {
    const auto &v = r.keys();
    NoLib nl;
    k = v;
  });
  expect_ok(q, cls, what + " keys()");
  if (!std::is_sorted(k.begin(), k.end())) violation(cls, "%s: keys() is not sorted", what.c_str());
  std::map<std::string, size_t> times;
  for (auto &i : a.items) times[i.name]++;
  std::map<std::string, size_t> got;
  for (auto &n : k) got[n]++;
  for (auto &g : got)
    if (!times.count(g.first)) violation(cls, "%s: keys() lists %s, which was never written", what.c_str(), gen::brief(g.first).c_str());
    else if (g.second > times[g.first]) violation(cls, "%s: keys() lists %s %zu times", what.c_str(), gen::brief(g.first).c_str(), g.second);
  for (auto &t : times)
    if (!got.count(t.first)) violation(cls, "%s: keys() lacks %s", what.c_str(), gen::brief(t.first).c_str());
}
void check_reader(ops::Reader &r, const Archive &a, const char *cls, const std::string &what) {
  check_keys(r, a, cls, what);
  std::set<std::string> done;
  for (auto &it : a.items) {
    if (!done.insert(it.name).second) continue;
    const Item *want = a.find(it.name);
    bool c = false;
    Res q = attempt("contains " + gen::brief(it.name), [&] { c = r.contains(it.name); });
    expect_ok(q, cls, what + " contains()");
    if (!c) violation(cls, "%s: contains(%s) is false", what.c_str(), gen::brief(it.name).c_str());
    Ptr p;
    q = attempt("read " + gen::brief(it.name), [&] { p = r.read(want->t.dt, it.name, 0); });
    expect_ok(q, cls, what + " read of " + gen::brief(it.name));
    check_tensor(*p, want->t, cls, what + " read of " + gen::brief(it.name));
    Hdr h;
    q = attempt("peek " + gen::brief(it.name), [&] { h = r.peek(it.name); });
    expect_ok(q, cls, what + " peek of " + gen::brief(it.name));
    check_hdr(h, want->t, a.big, cls, what + " peek of " + gen::brief(it.name));
  }
}
__attribute__((noinline)) void scribble_stack(uint8_t v) {
#ifndef SIM_ASAN
  volatile char buf[96 * 1024];
  for (size_t i = 0; i < sizeof buf; ++i) buf[i] = (char)v;
#else
  (void)v;
#endif
}
void set_fill(uint8_t v) { A.fill = v; }
void pick_piece() { ops::piece = pick(WL, std::vector<size_t>{7, 1, 2, 64, 1000, 1 << 20}); }
} // namespace wl
