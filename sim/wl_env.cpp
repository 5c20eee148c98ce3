// C15: one plan of operations, performed in a reference environment and in a
// drawn one; every byte and every result must agree.
#include "common.h"
#include "workloads.h"
#include <clocale>
#include <cstdlib>
#include <fstream>
#include <iomanip>
#include <locale>
#include <cerrno>
#include <cfenv>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

namespace wl {
std::string early_outcome();
namespace {
// what early_outcome() gives in a new process, before main
std::string before_main() {
  int fd[2];
  std::string out;
  if (pipe(fd)) return out;
  pid_t pid = fork();
  if (pid == 0) {
    dup2(fd[1], 1);
    char *argv[] = {(char *)"npysim", nullptr};
    char *envp[] = {(char *)"NPYSIM_BEFORE_MAIN=1", nullptr};
    execve("/proc/self/exe", argv, envp);
    _exit(127);
  }
  close(fd[1]);
  char buf[65536];
  ssize_t k;
  while ((k = read(fd[0], buf, sizeof buf)) > 0) out.append(buf, (size_t)k);
  close(fd[0]);
  int st = 0;
  waitpid(pid, &st, 0);
  if (WIFSIGNALED(st)) out += strf("ended by signal %d", WTERMSIG(st));
  return out;
}
struct Env {
  uint64_t clock = 1700000000ull;
  unsigned loc = 0, sloc = 0, width = 13; // global, and imbued in the caller's stream
  bool cloc = false;          // C locale and time zone
  unsigned tz = 0;
  unsigned fill = 0xA5, stack = 0;
  unsigned backend = 0, where = 0, spelling = 0, ctor = 0, fmt = 0;
  size_t area = 4096, piece = 1 << 20;
  bool benign = false;
  unsigned noise = 0;
  bool unwinding = false;    // the operation runs in a destructor while an exception is in flight
  const char *var = nullptr; // what every environment variable holds
  int err = 0, round = FE_TONEAREST; // errno and the rounding mode the caller left
  bool differs() const {
    return loc || sloc || cloc || tz || stack || backend || where || spelling || fmt || benign || noise || err || round != FE_TONEAREST || clock != 1700000000ull || area != 4096 || fill != 0xA5 || piece != 1 << 20;
  }
  std::string text() const {
    return strf("clock %llu, locale %u/%u%s, zone %u, heap %02x, backend %u, path %u, spelling %u/%u, stream state %u, buffer %zu, %s, %u earlier operations, errno %d, rounding %x, variables %s%s", (unsigned long long)clock,
                loc, sloc, cloc ? " C.UTF-8" : "", tz, fill, backend, where, spelling, ctor, fmt, area, benign ? "short transfers" : "plain delivery", noise, err, (unsigned)round, var ? var : "as they are", unwinding ? ", while an exception is in flight" : "");
  }
};
Env draw_env() {
  Env e;
  e.clock = pick(WL, std::vector<uint64_t>{1700000000ull, 0ull, 315532800ull, 951782400ull, 1709210096ull, 2147483647ull, 4102444800ull, 4354819198ull, 253402300799ull}) + draw(WL, 90000);
  e.loc = (unsigned)weighted(WL, {3, 2, 2, 2, 2, 1, 2, 2}); // the last converts what files hold
  e.sloc = (unsigned)weighted(WL, {3, 1, 1, 1, 1, 1, 1});
  e.cloc = draw(WL, 8) == 7;
  e.tz = (unsigned)draw(WL, 3);
  e.fill = pick(WL, std::vector<unsigned>{0xA5, 0, 0xFF, 0x31, 0x7B});
  e.stack = (unsigned)draw(WL, 256);
  e.backend = (unsigned)draw(WL, 4);
  e.where = (unsigned)weighted(WL, {4, 1, 1, 1});
  e.spelling = (unsigned)draw(WL, 6);
  e.ctor = (unsigned)draw(WL, 3);
  e.fmt = (unsigned)draw(WL, 512);
  if (e.fmt & 16) e.width = pick(WL, std::vector<unsigned>{13, 1, 100, 300, 5000});
  e.area = pick(WL, std::vector<size_t>{4096, 0, 1, 2, 3, 17, 512, 70000});
  e.piece = pick(WL, std::vector<size_t>{1 << 20, 7, 1, 64});
  e.benign = draw(WL, 3) == 2;
  e.noise = (unsigned)weighted(WL, {6, 3, 2, 1});
  e.unwinding = draw(WL, 6) == 5;
  if (draw(WL, 3) == 2) e.var = pick(WL, std::vector<const char *>{"1", "0", "1700000000", "", "big", "de_DE.UTF-8"});
  if (draw(WL, 3) == 2) {
    e.err = pick(WL, std::vector<int>{0, ERANGE, EINTR, ENOENT, EIO, ENOMEM, EILSEQ});
    e.round = pick(WL, std::vector<int>{FE_TONEAREST, FE_UPWARD, FE_DOWNWARD, FE_TOWARDZERO});
  }
  return e;
}
void dress(std::ios &s, const Env &e) {
  if (e.sloc || e.loc == 7) s.imbue(locale_of(e.sloc)); // the caller's own file is not converted
  if (e.fmt & 1) s.setf(std::ios::hex, std::ios::basefield);
  if (e.fmt & 2) s.setf(std::ios::showbase | std::ios::showpos | std::ios::uppercase);
  if (e.fmt & 4) s.unsetf(std::ios::skipws);
  if (e.fmt & 8) s.fill('*');
  if (e.fmt & 16) s.width(e.width);
  if (e.fmt & 32) s.setf(std::ios::boolalpha | std::ios::unitbuf);
  if (e.fmt & 64) s.setf(std::ios::left, std::ios::adjustfield);
  if (e.fmt & 128) s.setf(std::ios::oct, std::ios::basefield);
  if (e.fmt & 256) s.precision(0);
}

struct Act {
  unsigned kind = 0; // 0 save, 1 archive, 2 load, 3 peek, 4 read an archive
  TSpec t;
  unsigned flavor = 0;
  npy::endian_t e;
  npy::compression_method_t c;
  std::vector<TSpec> ts;
  std::vector<std::string> names;
  std::vector<bool> reject;
  std::string bytes;
  ref::DT dt;
  std::string text;
};
Act draw_act() {
  Act a;
  a.kind = (unsigned)weighted(WL, {5, 4, 4, 2, 3});
  gen::Cfg gc;
  gc.max_bytes = 5000;
  gc.big_weight = 1;
  a.t = gen::tensor(gc);
  a.flavor = draw(WL, 4) == 3;
  a.e = gen::endian();
  a.c = gen::compression();
  a.dt = a.t.dt;
  if (a.kind == 0) a.text = "save " + a.t.brief();
  if (a.kind == 1) {
    size_t n = draw(WL, 4);
    gen::Cfg g2 = gc;
    g2.big_weight = 2;
    for (size_t i = 0; i < n; ++i) a.ts.push_back(gen::tensor(g2)), a.names.push_back(gen::name()), a.reject.push_back(draw(WL, 8) == 7);
    a.text = strf("archive of %zu", n);
  }
  if (a.kind == 2 || a.kind == 3) {
    ref::NpyStyle st;
    st.big = draw(WL, 2);
    if (draw(WL, 3) == 2) {
      a.bytes = adversarial_npy(a.text);
      a.dt = (ref::DT)draw(WL, ref::NDT);
    } else {
      a.bytes = ref::npy_encode(a.t, st);
      a.text = a.t.brief();
    }
    a.text = (a.kind == 2 ? "load " : "peek ") + a.text;
  }
  if (a.kind == 4) {
    if (draw(WL, 3) == 2) {
      a.bytes = adversarial_npz(a.text, a.names);
    } else {
      std::vector<ref::Member> ms;
      size_t n = 1 + draw(WL, 3);
      for (size_t i = 0; i < n; ++i) {
        ref::Member m;
        m.name = strf("m%zu.npy", i);
        ref::NpyStyle st;
        st.big = draw(WL, 2);
        TSpec t = gen::tensor(gc);
        a.ts.push_back(t);
        m.bytes = ref::npy_encode(t, st);
        m.style.deflate = draw(WL, 2);
        if (draw(WL, 4) == 3) m.style.odd = 1 + draw(WL, 1 << 24);
        m.style.time = (uint16_t)draw(WL, 40000);
        a.names.push_back(m.name);
        ms.push_back(m);
      }
      a.bytes = ref::zip_encode(ms);
      a.text = strf("archive of %zu", n);
    }
    a.text = "read " + a.text;
  }
  return a;
}
std::unique_ptr<Process> entered;
void enter(const Env &e) {
  set_clock(e.clock * 1000000000ull);
  set_fill((uint8_t)e.fill);
  ops::piece = e.piece;
  static const char *const TZ[] = {"UTC0", "XST-13:30", "YST11"};
  setenv("TZ", TZ[e.tz], 1);
  tzset();
  if (e.cloc) setlocale(LC_ALL, "C.UTF-8");
  std::locale::global(locale_of(e.loc));
  env_text = e.var;
  R->unwinding = e.unwinding;
  if (e.benign) gen::benign_io();
  fesetround(e.round);
  entered.reset(new Process);
}
void leave() {
  std::string d = entered->diff(Process());
  fesetround(FE_TONEAREST);
  env_text = nullptr;
  R->unwinding = 0;
  io = IoCfg();
  std::locale::global(std::locale::classic());
  setlocale(LC_ALL, "C");
  if (!d.empty()) violation("C15:changes-environment", "an operation changed %s", d.c_str());
}
std::string outcome(const Res &r) { return r.ok() ? "ok" : "throws"; }
std::string show(const Hdr &h) {
  std::string s = strf(" %d %d %d %zu", (int)h.dt, (int)h.e, (int)h.fortran, h.max_len);
  for (auto d : h.shape) s += strf(",%llu", (unsigned long long)d);
  return s;
}
// performs the operation; the outcome with every byte produced
std::string perform(const Act &a, const Env &e) {
  for (unsigned i = 0; i < e.noise; ++i) {
    set_clock(e.clock * 1000000000ull);
    std::locale::global(locale_of(e.loc));
    noise_step();
  }
  std::string out;
  Ptr t;
  std::vector<Ptr> ts;
  if (a.kind == 0) t = ops::make(a.t, a.flavor);
  if (a.kind == 1)
    for (auto &x : a.ts) ts.push_back(ops::make(x, a.flavor));
  static const char *const WHERE[] = {"/simfs/env", "env.npy", "/simfs/dir/with space/a.npz", "/simfs/x.npy.gz"};
  std::string path = WHERE[e.where];
  if (a.kind >= 2) fs_put(path, a.bytes);
  else fs_remove(path);
  enter(e);
  scribble_stack((uint8_t)e.stack);
  R->own_errno = 1;
  errno = e.err;
  if (a.kind == 0) {
    Res r;
    if (e.backend == 0) {
      r = attempt(a.text + " to a path", [&] { t->save(path, a.e, e.spelling); });
      leave();
      return outcome(r) + ":" + fs_get(path);
    }
    if (e.backend == 1) {
      std::ostringstream os;
      dress(os, e);
      r = attempt(a.text + " to a string stream", [&] { t->save(os, a.e, e.spelling); });
      leave();
      return outcome(r) + ":" + os.str();
    }
    if (e.backend == 2) {
      ops::SimBuf sb;
      sb.start_writing(e.area);
      std::ostream os(&sb);
      dress(os, e);
      r = attempt(a.text + " to a custom stream", [&] { t->save(os, a.e, e.spelling); });
      os.flush();
      leave();
      return outcome(r) + ":" + sb.written();
    }
    {
      std::vector<char> buf(e.area + 1);
      std::ofstream os;
      {
        LibScope ls;
        os.rdbuf()->pubsetbuf(e.area ? buf.data() : nullptr, (std::streamsize)e.area);
        os.open(path, std::ios::binary | std::ios::out);
      }
      dress(os, e);
      r = attempt(a.text + " to a file stream", [&] { t->save(os, a.e, e.spelling); });
      LibScope ls;
      os.close();
    }
    leave();
    return outcome(r) + ":" + fs_get(path);
  }
  if (a.kind == 1) {
    ops::Writer w;
    bool file = e.backend % 2;
    Res r = attempt(file ? "new file writer" : "new string writer", [&] { file ? w.open(path, a.c, a.e, e.ctor) : w.open_string(a.c, a.e); });
    out += outcome(r);
    for (size_t i = 0; r.ok() && i < ts.size(); ++i) {
      if (a.reject[i]) {
        ops::Thrower th;
        th.emit = i * 30;
        out += outcome(attempt("rejected write", [&] { w.write("bad", th); }));
      }
      if (e.noise && i % 2) { // the world moves on between two writes
        set_clock((e.clock + 100000 * i) * 1000000000ull);
        scribble_stack((uint8_t)(e.stack + i));
      }
      out += outcome(attempt("write " + gen::brief(a.names[i]), [&] { w.write(a.names[i], *ts[i]); }));
    }
    bool explicitly = file ? e.spelling % 2 : true;
    if (explicitly) out += outcome(attempt("close", [&] { w.close(); }));
    else out += "ok";
    std::string str;
    if (!file)
      attempt("str", [&] {
        std::string x = w.s->str();
        NoLib nl;
        str = x;
      });
    attempt("destroy", [&] { w.destroy(); });
    leave();
    return out + ":" + (file ? fs_get(path) : str);
  }
  if (a.kind == 2 || a.kind == 3) {
    Ptr p;
    Hdr h;
    Res r;
    auto via = [&](std::istream &is) {
      dress(is, e);
      if (a.kind == 2) r = attempt(a.text + " from a stream", [&] { p = ops::load(a.dt, is, e.spelling, a.flavor); });
      else r = attempt(a.text + " from a stream", [&] { h = ops::peek(is, e.spelling); });
    };
    if (e.backend == 0) {
      if (a.kind == 2) r = attempt(a.text + " from a path", [&] { p = ops::load(a.dt, path, e.spelling, a.flavor); });
      else r = attempt(a.text + " from a path", [&] { h = ops::peek(path); });
    } else if (e.backend == 1) {
      std::istringstream is(a.bytes);
      via(is);
    } else if (e.backend == 2) {
      ops::SimBuf sb;
      sb.data = a.bytes;
      sb.in_area = e.area ? e.area : 1;
      sb.start_reading();
      std::istream is(&sb);
      via(is);
    } else {
      std::ifstream is;
      {
        LibScope ls;
        is.open(path, std::ios::binary | std::ios::in);
      }
      via(is);
      LibScope ls;
      is.close();
    }
    leave();
    if (!r.ok()) return "throws";
    return a.kind == 2 ? "ok " + p->spec().brief() + strf(" %016llx", (unsigned long long)p->spec().hash()) : "ok" + show(h);
  }
  ops::Reader rd;
  bool file = e.backend % 2;
  Res r = attempt(a.text + ": open", [&] { file ? rd.open(path, e.ctor) : rd.open_string(a.bytes, e.ctor); });
  out = outcome(r);
  if (r.ok()) {
    attempt("keys", [&] {
      const auto &v = rd.keys();
      NoLib nl;
      for (auto &k : v) out += " " + gen::brief(k);
    });
    for (size_t i = 0; i < a.names.size(); ++i) {
      Ptr p;
      Hdr h;
      Res x = attempt("peek", [&] { h = rd.peek(a.names[i]); });
      out += " " + outcome(x);
      if (!x.ok()) continue;
      out += show(h);
      ref::DT dt = i < a.ts.size() ? a.ts[i].dt : h.dt;
      x = attempt("read", [&] { p = rd.read(dt, a.names[i], e.spelling % 2, a.flavor); });
      out += " " + outcome(x);
      if (x.ok()) out += strf(" %016llx", (unsigned long long)p->spec().hash());
    }
  }
  rd.destroy();
  leave();
  return out;
}
} // namespace

void c15() {
  A.limit = 16 << 20;
  size_t n = 1 + draw(WL, 4);
  std::vector<Act> plan;
  for (size_t i = 0; i < n; ++i) {
    OpSpan sp;
    plan.push_back(draw_act());
  }
  describe("%zu operations, first: %s", n, plan[0].text.c_str());
  std::vector<std::string> base;
  for (auto &a : plan) base.push_back(perform(a, Env()));
  for (int round = 0; round < 3; ++round) {
    OpSpan sp;
    if (round && draw(WL, 3) == 0) break;
    Env e = draw_env();
    bool each = draw(WL, 2); // another environment for each operation
    for (size_t i = 0; i < n; ++i) {
      if (i && each) e = draw_env();
      if (e.differs()) nontrivial();
      ev("environment: %s", e.text().c_str());
      std::string got = perform(plan[i], e);
      note_sig(plan[i].kind * 1000 + e.loc * 100 + e.backend * 10 + (e.noise != 0));
      if (got != base[i]) {
        size_t k = 0;
        while (k < got.size() && k < base[i].size() && got[k] == base[i][k]) ++k;
        violation(plan[i].kind < 2 ? "C15:output" : "C15:parsing", "%s: the result differs (at byte %zu of %zu and %zu) under %s", plan[i].text.c_str(), k, base[i].size(), got.size(),
                  e.text().c_str());
      }
    }
  }
  if (fs_open_handles()) violation("C15:handles", "%zu files left open", fs_open_handles());
}
// a program that uses the library before main, after drawn earlier operations here
void c15e() {
  for (size_t i = draw(WL, 3); i; --i) noise_step();
  nontrivial();
  describe("saves and loads before main");
  std::string want = early_outcome(), got = before_main();
  ev("a new process saves and loads before main: %zu bytes", got.size());
  size_t k = 0;
  while (k < got.size() && k < want.size() && got[k] == want[k]) ++k;
  if (got != want)
    violation("C15:before-main", "what is saved and loaded before main differs at %zu of %zu and %zu: \"%s\", not \"%s\"", k, got.size(), want.size(),
              gen::brief(got.substr(k < 20 ? 0 : k - 20, 90)).c_str(), gen::brief(want.substr(k < 20 ? 0 : k - 20, 90)).c_str());
}
} // namespace wl
