// C09: threads on separate objects, or sharing tensors and files only for
// reading, under a drawn interleaving with a race detector on every access.
#include "common.h"
#include "sched.h"
#include "workloads.h"
#include <fstream>
#include <locale>
#include <sched.h>

namespace wl {
namespace {
enum Op { SAVE, SAVE_STREAM, LOAD, LOAD_STREAM, PEEK, WRITER, STRING_WRITER, READER, STRING_READER, SHARED_TENSOR, BAD_NPY, BAD_NPZ, OBJECTS, BAD_WRITE, OTHER_WORK, NOPS };
const char *const OP_NAME[NOPS] = {"save", "save to a stream", "load", "load from a stream", "peek", "write an archive", "write an archive in memory", "read an archive",
                                   "read an archive in memory", "use a shared tensor", "load malformed data", "open a malformed archive", "copy tensors", "rejected write", "work without the library"};
struct Step {
  Op op = SAVE;
  TSpec t, t2;
  unsigned flavor = 0, how = 0, spelling = 0, area = 4096;
  npy::endian_t e = npy::endian_t::NATIVE;
  npy::compression_method_t c = npy::compression_method_t::STORED;
  std::string path, bytes, text;
  ref::DT dt = ref::U1;
  std::vector<TSpec> ts;
  std::vector<std::string> names;
  const Archive *shared_archive = nullptr;
  Archive own;
  const TSpec *shared_spec = nullptr;
  const Any *shared = nullptr;
  int64_t fail_alloc = -1, fail_io = -1; // this operation meets a fault; the others must not notice
  std::string outcome;                   // for operations without a model
};
std::unique_ptr<Process> process; // as the application set it up
std::string number;
TSpec small() {
  gen::Cfg g;
  g.max_bytes = 700;
  g.big_weight = 1;
  g.long_headers = draw(WL, 4) == 3;
  TSpec t = gen::tensor(g);
  return t;
}
TSpec medium() { // now and then larger than the stream and codec buffers
  gen::Cfg g;
  bool big = draw(WL, 60) == 59;
  g.max_bytes = big ? 300000 : 1200;
  g.big_weight = big ? 4 : 0;
  return gen::tensor(g);
}
Archive encode_archive(std::string &bytes, unsigned n, bool with_big) {
  Archive a;
  std::vector<ref::Member> ms;
  ref::NpyStyle ns;
  a.big = ns.big = draw(WL, 2);
  for (unsigned i = 0; i < n; ++i) {
    Item it;
    it.name = strf("m%u.npy", i);
    it.t = with_big ? medium() : small();
    ref::Member m;
    m.name = it.name;
    m.bytes = ref::npy_encode(it.t, ns);
    m.style.deflate = draw(WL, 2);
    if (draw(WL, 4) == 3) m.style.odd = 1 + draw(WL, 1 << 24);
    m.style.zip64_local = draw(WL, 2);
    it.t = ref::canonical(it.t);
    ms.push_back(m);
    a.items.push_back(it);
  }
  bytes = ref::zip_encode(ms);
  return a;
}
bool faulty(const Step &s) { return s.fail_alloc >= 0 || s.fail_io >= 0; }

std::string hdr_text(const Hdr &h) {
  std::string r = strf("%s/%d/%d/%zu (", ref::DT_NAME[h.dt], (int)h.e, (int)h.fortran, h.max_len);
  for (auto d : h.shape) r += strf("%llu,", (unsigned long long)d);
  return r + ")";
}
// Performs one step on the calling thread. Every library call is inside attempt().
void perform(Step &s) {
  const char *K = "C09:result";
  std::string what = strf("%s %s", OP_NAME[s.op], s.text.c_str());
  bool f = faulty(s);
  auto arm = [&] { tl_alloc_fail = s.fail_alloc, tl_io_fail = s.fail_io; };
  auto disarm = [&] { tl_alloc_fail = tl_io_fail = -1; };
  auto run = [&](auto body) { // true when it returned normally
    arm();
    Res r = attempt(what, body);
    disarm();
    if (!f) expect_ok(r, K, what);
    else if (r.kind == ops::NON_STD) violation("C09:result", "%s threw something that is not a std::exception", what.c_str());
    s.outcome = res_str(r);
    return r.ok();
  };
  switch (s.op) {
  case SAVE: {
    Ptr t = ops::make(s.t, s.flavor);
    if (run([&] { t->save(s.path, s.e, s.spelling); })) {
      check_npy_bytes(fs_get(s.path), s.t, (int)eff_big(s.e), K, what);
      Ptr p;
      Res r = attempt("load it back", [&] { p = ops::load(s.t.dt, s.path, s.spelling, s.flavor); });
      expect_ok(r, K, what + ", loading it back");
      check_tensor(*p, ref::canonical(s.t), K, what + ", loading it back");
    }
    break;
  }
  case SAVE_STREAM: {
    Ptr t = ops::make(s.t, s.flavor);
    ops::SimBuf sb;
    sb.chunked = false;
    sb.start_writing(s.area);
    std::ostream os(&sb);
    bool ok = run([&] { t->save(os, s.e, s.spelling); os.flush(); });
    if (ok && os.good()) check_npy_bytes(sb.written(), s.t, (int)eff_big(s.e), K, what);
    else if (ok && !f) violation(K, "%s left the stream failed", what.c_str());
    break;
  }
  case LOAD: {
    Ptr p;
    if (run([&] { p = ops::load(s.t.dt, s.path, s.spelling, s.flavor); })) check_tensor(*p, ref::canonical(s.t), K, what);
    break;
  }
  case LOAD_STREAM: {
    std::string b = s.bytes;
    std::istringstream is(b);
    Ptr p;
    if (run([&] { p = ops::load(s.t.dt, is, s.spelling, s.flavor); })) check_tensor(*p, ref::canonical(s.t), K, what);
    break;
  }
  case PEEK: {
    Hdr h;
    if (run([&] { h = ops::peek(s.path); })) check_hdr(h, s.t, s.e == npy::endian_t::BIG, K, what);
    break;
  }
  case WRITER:
  case STRING_WRITER: {
    std::vector<Ptr> ts;
    for (auto &t : s.ts) ts.push_back(ops::make(t, s.flavor));
    ops::Writer w;
    Archive a;
    a.big = eff_big(s.e);
    std::string out;
    bool ok = run([&] {
      if (s.op == WRITER) w.open(s.path, s.c, s.e, s.how);
      else w.open_string(s.c, s.e);
      for (size_t i = 0; i < ts.size(); ++i) w.write(s.names[i], *ts[i]);
      w.close();
      if (s.op == STRING_WRITER) out = w.s->str();
      w.destroy();
    });
    if (ok) {
      for (size_t i = 0; i < ts.size(); ++i) a.items.push_back({gen::stored(s.names[i]), ref::canonical(s.ts[i])});
      check_zip(s.op == WRITER ? fs_get(s.path) : out, a, K, what);
    } else {
      attempt("destroy the writer", [&] { w.destroy(); });
    }
    break;
  }
  case READER:
  case STRING_READER: {
    ops::Reader r;
    const Archive &a = s.op == READER ? *s.shared_archive : s.own;
    std::string own_bytes = s.bytes;
    bool ok = run([&] {
      if (s.op == READER) r.open(s.path, s.how);
      else r.open_string(own_bytes, s.how);
    });
    if (ok) check_reader(r, a, K, what);
    attempt("destroy the reader", [&] { r.destroy(); });
    break;
  }
  case SHARED_TENSOR: {
    ops::SimBuf sb;
    sb.chunked = false;
    sb.start_writing(s.area);
    std::ostream os(&sb);
    Ptr c;
    bool ok = run([&] {
      if (s.how == 0) const_cast<Any *>(s.shared)->save(os, s.e, s.spelling), os.flush();
      if (s.how == 1) c = s.shared->clone();
      if (s.how == 2) {
        ops::Writer w;
        w.open_string(s.c, s.e);
        s.shared->write(*w.s, "x");
        w.close();
        s.outcome = w.s->str();
      }
      if (s.how == 3) const_cast<Any *>(s.shared)->save(s.path, s.e, s.spelling);
    });
    const TSpec &t = *s.shared_spec;
    if (ok && s.how == 0 && os.good()) check_npy_bytes(sb.written(), t, (int)eff_big(s.e), K, what);
    if (ok && s.how == 1) check_tensor(*c, ref::canonical(t), K, what);
    if (ok && s.how == 3) check_npy_bytes(fs_get(s.path), t, (int)eff_big(s.e), K, what);
    Res q = attempt("look at the shared tensor", [&] { TSpec x = s.shared->spec(); NoLib nl; if (!ref::canonical(t).same(ref::canonical(x))) violation(K, "%s: the shared tensor changed", what.c_str()); });
    expect_ok(q, K, "reading a shared tensor");
    break;
  }
  case BAD_NPY: {
    std::string b = s.bytes;
    std::istringstream is(b);
    Ptr p;
    Hdr h;
    arm();
    Res r = attempt(what, [&] {
      if (s.how & 1) h = ops::peek(is, s.spelling);
      else p = ops::load(s.dt, is, s.spelling, s.flavor);
    });
    disarm();
    s.outcome = res_str(r);
    if (r.ok()) s.outcome += s.how & 1 ? hdr_text(h) : p->spec().brief() + strf(" %llx", (unsigned long long)p->spec().hash());
    break;
  }
  case BAD_NPZ: {
    ops::Reader rd;
    std::string b = s.bytes;
    arm();
    Res r = attempt(what, [&] { rd.open_string(b, s.how); });
    disarm();
    s.outcome = res_str(r);
    if (r.ok()) {
      std::vector<std::string> keys;
      Res q = attempt("keys", [&] { const auto &k = rd.keys(); NoLib nl; keys = k; });
      for (size_t i = 0; i < keys.size() && i < 6; ++i) {
        s.outcome += "|" + keys[i];
        Hdr h;
        q = attempt("peek " + gen::brief(keys[i]), [&] { h = rd.peek(keys[i]); });
        s.outcome += res_str(q) + (q.ok() ? hdr_text(h) : "");
        Ptr p;
        q = attempt("read " + gen::brief(keys[i]), [&] { p = rd.read(q.ok() ? h.dt : s.dt, keys[i], 0); });
        s.outcome += res_str(q);
        if (q.ok()) s.outcome += p->spec().brief() + strf(" %llx", (unsigned long long)p->spec().hash());
      }
    }
    attempt("destroy the reader", [&] { rd.destroy(); });
    break;
  }
  case OBJECTS: {
    Ptr a = ops::make(s.t, s.flavor), b, c = ops::make(s.t2, s.flavor);
    bool ok = run([&] {
      b = a->clone();
      c->assign(*b);
      b->assign_move(*c);
    });
    if (ok) check_tensor(*b, ref::canonical(s.t), K, what);
    break;
  }
  case OTHER_WORK: { // what belongs to the application stays as it set it up
    for (unsigned i = 0; i < 24; ++i) {
      {
        LibScope ls;
        sched_yield();
      }
      std::string d = process->diff(Process());
      if (!d.empty()) violation("C09:application", "%s changed under a thread that does other work", d.c_str());
      std::ostringstream o;
      o << 1234567 << ' ' << 0.5;
      if (o.str() != number) violation("C09:application", "a thread that does other work formats a number as %s, not %s", o.str().c_str(), number.c_str());
    }
    break;
  }
  default: { // a write whose tensor refuses half way, then a good one
    Ptr t = ops::make(s.t, s.flavor);
    ops::Thrower th;
    th.where = (int)(s.how & 1);
    th.emit = s.area % 300;
    ops::Writer w;
    std::string out;
    bool ok = run([&] {
      w.open_string(s.c, s.e);
      try {
        w.write("bad", th);
      } catch (std::exception &) {
      }
      w.write("good", *t);
      w.close();
      out = w.s->str();
    });
    if (ok) {
      Archive a;
      a.big = eff_big(s.e);
      a.items.push_back({"good.npy", ref::canonical(s.t)});
      check_zip(out, a, K, what, true);
    }
    attempt("destroy the writer", [&] { w.destroy(); });
  }
  }
}
void warm_runtime() { // first-use initialisation inside libstdc++ and libc is not the library's
  std::ostringstream o;
  o << 1 << ' ' << 2u << 3ull << 4.5 << std::hex << 1 << true << (const void *)&o;
  std::istringstream i("1 2 3 4.5 x");
  int n; unsigned u; unsigned long long ull; double d; char ch; std::string str;
  i >> n >> u >> ull >> d >> ch;
  std::getline(i, str);
  std::wostringstream wo;
  wo << 1 << L'x';
  const auto &ct = std::use_facet<std::ctype<char>>(std::locale::classic());
  const auto &wt = std::use_facet<std::ctype<wchar_t>>(std::locale::classic());
  for (int c = 0; c < 256; ++c) ct.widen((char)c), ct.narrow((char)c, '?'), wt.widen((char)c), wt.narrow((wchar_t)c, '?');
  char nb[4];
  const char raw[4] = {'a', 'b', 'c', 'd'};
  ct.narrow(raw, raw + 4, '?', nb);
  ct.widen(raw, raw + 4, nb);
  try { throw std::runtime_error("warm"); } catch (std::exception &) {}
  fs_put("/simfs/warm", "x");
  { std::ifstream f("/simfs/warm"); std::string q; f >> q; }
  { std::fstream f("/simfs/warm", std::ios::in | std::ios::out | std::ios::binary); }
  { std::ofstream f("/simfs/warm"); f << 1; }
  fs_remove("/simfs/warm");
}
} // namespace

void c09() {
  warm_runtime();
  A.limit = 8u << 20;
  std::locale::global(locale_of(draw(WL, 2) ? 1 + (unsigned)draw(WL, 6) : 0));
  ops::lasting_arguments = true;
  process.reset(new Process);
  {
    std::ostringstream o;
    o << 1234567 << ' ' << 0.5;
    number = o.str();
  }
  unsigned nt = 2 + (unsigned)draw(WL, 3);
  unsigned mag = pick(SC, std::vector<unsigned>{6, 0, 2, 4, 8, 10, 12, 14, 16});
  pick_piece();
  // shared, read-only things
  std::vector<std::pair<TSpec, bool>> files;
  for (unsigned i = 0; i < 2; ++i) {
    ref::NpyStyle st;
    st.big = draw(WL, 2);
    TSpec t = medium();
    fs_put(strf("/simfs/shared%u.npy", i), ref::npy_encode(t, st));
    files.push_back({t, st.big});
  }
  std::string zbytes;
  Archive shared_archive = encode_archive(zbytes, 1 + (unsigned)draw(WL, 3), true);
  fs_put("/simfs/shared.npz", zbytes);
  bool share_tensor = draw(WL, 3) == 2;
  TSpec sspec;
  Ptr stensor;
  if (share_tensor) {
    if (draw(WL, 3) == 2) { // the class with the most specialised members
      gen::Cfg g;
      g.max_bytes = 1200;
      g.big_weight = 0;
      g.only_dt = ref::UN;
      sspec = gen::tensor(g);
    } else
      sspec = medium();
    stensor = ops::make(sspec, draw(WL, 3) == 2);
  }
  // same operation on every thread at once: the classic way to meet on hidden state
  int focus = draw(WL, 3) == 2 ? (int)draw(WL, NOPS) : -1;
  if (share_tensor && focus < 0 && draw(WL, 2)) focus = SHARED_TENSOR;
  std::vector<std::vector<Step>> script(nt);
  bool faults = draw(WL, 3) == 2;
  for (unsigned k = 0; k < nt; ++k) {
    unsigned n = 1 + (unsigned)draw(WL, 4);
    for (unsigned j = 0; j < n; ++j) {
      OpSpan span;
      Step s;
      s.op = focus >= 0 && draw(WL, 4) != 3 ? (Op)focus : (Op)weighted(WL, {3, 3, 3, 3, 2, 3, 3, 3, 3, 2, 2, 2, 2, 1, 2});
      if (s.op == SHARED_TENSOR && !share_tensor) s.op = SAVE_STREAM;
      if (s.op == OTHER_WORK) { script[k].push_back(std::move(s)); continue; }
      s.flavor = draw(WL, 4) == 3;
      s.how = (unsigned)draw(WL, 4);
      s.spelling = (unsigned)draw(WL, 6);
      s.area = pick(WL, std::vector<unsigned>{4096, 0, 1, 17, 512});
      s.e = gen::endian();
      s.c = gen::compression();
      s.path = strf("/simfs/t%u_%u.npy", k, j);
      switch (s.op) {
      case LOAD:
      case PEEK: {
        unsigned which = (unsigned)draw(WL, 3);
        if (which < 2) {
          s.t = files[which].first;
          s.path = strf("/simfs/shared%u.npy", which);
          s.e = files[which].second ? npy::endian_t::BIG : npy::endian_t::LITTLE;
        } else {
          s.t = medium();
          ref::NpyStyle st;
          st.big = draw(WL, 2);
          s.e = st.big ? npy::endian_t::BIG : npy::endian_t::LITTLE;
          fs_put(s.path, ref::npy_encode(s.t, st));
        }
        break;
      }
      case LOAD_STREAM: {
        s.t = medium();
        ref::NpyStyle st;
        st.big = draw(WL, 2);
        s.bytes = ref::npy_encode(s.t, st);
        break;
      }
      case WRITER:
      case STRING_WRITER: {
        unsigned m = (unsigned)draw(WL, 4);
        for (unsigned i = 0; i < m; ++i) s.ts.push_back(medium()), s.names.push_back(strf("e%u%s", i, draw(WL, 2) ? ".npy" : ""));
        s.path = strf("/simfs/t%u_%u.npz", k, j);
        break;
      }
      case READER:
        s.path = "/simfs/shared.npz";
        s.shared_archive = &shared_archive;
        break;
      case STRING_READER: s.own = encode_archive(s.bytes, 1 + (unsigned)draw(WL, 2), true); break;
      case SHARED_TENSOR:
        s.shared = stensor.get();
        s.shared_spec = &sspec;
        break;
      case BAD_NPY:
        s.bytes = adversarial_npy(s.text);
        s.dt = (ref::DT)draw(WL, ref::NDT);
        break;
      case BAD_NPZ: s.bytes = adversarial_npz(s.text, s.names); s.dt = (ref::DT)draw(WL, ref::NDT); break;
      case OBJECTS:
        s.t = medium();
        s.t2 = medium();
        s.t2 = s.t; // same class and element type
        break;
      default: s.t = medium();
      }
      if (s.text.empty() && !s.t.shape.empty()) s.text = s.t.brief();
      if (faults && s.op != BAD_NPY && s.op != BAD_NPZ && draw(WL, 3) == 2) {
        if (draw(WL, 2)) s.fail_alloc = (int64_t)draw(WL, 40);
        else s.fail_io = (int64_t)draw(WL, 12);
      }
      script[k].push_back(std::move(s));
    }
  }
  if (draw(WL, 3) == 2) gen::benign_io();
  std::vector<std::function<void()>> bodies;
  for (auto &sc : script)
    bodies.push_back([&sc] {
      for (auto &s : sc) perform(s);
    });
  run_threads(bodies, mag);
  io = IoCfg();
  std::string changed = process->diff(Process());
  std::locale::global(std::locale::classic());
  if (!changed.empty()) violation("C09:application", "%s is not as it was before the threads ran", changed.c_str());
  if (thread_stats.switches_inside >= 2) nontrivial();
  count("threads", nt);
  count("switches.inside_library", thread_stats.switches_inside);
  count("cells.shared", thread_stats.shared_cells);
  count("lock_waits", thread_stats.blocked);
  // what has no exact model must come out as it does alone
  for (auto &sc : script)
    for (auto &s : sc)
      if (s.op == BAD_NPY || s.op == BAD_NPZ) {
        std::string was = s.outcome;
        s.outcome.clear();
        perform(s);
        if (s.outcome != was)
          violation("C09:alone", "%s %s: among other threads: %.300s; alone: %.300s", OP_NAME[s.op], s.text.c_str(), was.c_str(), s.outcome.c_str());
      }
  if (fs_open_handles()) violation("C09:result", "%zu files stay open after all threads are done", fs_open_handles());
  uint64_t sig = nt * 100 + mag;
  for (auto &sc : script)
    for (auto &s : sc) sig = mix(sig, s.op);
  note_sig(sig);
  note_sig(R->switches);
  describe("%u threads, switch distance 2^%u, %llu switches", nt, mag, (unsigned long long)thread_stats.switches_inside);
}
} // namespace wl
