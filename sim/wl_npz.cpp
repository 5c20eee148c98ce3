// Workloads over NPZ archives: C02, C03, C05, C07, C12, C13.
#include "common.h"
#include "workloads.h"
#include <algorithm>
#include <fstream>
#include <set>

namespace wl {

namespace {
const char *const PATHS[] = {"/simfs/a.npz", "/simfs/b.npz", "/simfs/dir/c.npz", "e/d.npz"};
uint8_t pick_fill() { return (uint8_t)pick(WL, std::vector<unsigned>{0xA5, 0, 0xFF, 0x50}); }

// A writer together with what it has acknowledged.
struct WSlot {
  ops::Writer w;
  Archive a;
  std::string path; // empty: in memory
  npy::compression_method_t c;
  npy::endian_t e;
  bool closed = false;
};
std::string str_of(ops::Writer &w) {
  std::string out;
  Res r = attempt("str", [&] {
    std::string s = w.s->str();
    NoLib nl;
    out = s;
  });
  expect_ok(r, "str-fails", "str()");
  return out;
}
gen::Cfg small_cfg(uint64_t max = 20000) {
  gen::Cfg gc;
  gc.max_bytes = max;
  gc.big_weight = 1;
  return gc;
}
} // namespace

// ------------------------------------------------------------------------ C02
namespace {
struct Stored {
  Archive a;
  bool file = true;
  std::string path, bytes;
};
struct RSlot {
  ops::Reader r;
  std::shared_ptr<Stored> s;
  bool open = false;
};
// one question to a reader
void ask(RSlot &rs, const char *cls) {
  const Archive &a = rs.s->a;
  size_t k = weighted(WL, {8, 4, 3, 3, 2, 2});
  std::string n;
  const Item *it = nullptr;
  if (!a.items.empty() && k != 3) {
    it = &a.items[draw(WL, a.items.size())];
    n = it->name;
    if (draw(WL, 2)) n = n.substr(0, n.size() - 4); // the name without its suffix
  } else {
    n = gen::name() + pick(WL, std::vector<std::string>{"", "_", ".npy.npy", ".NPY", "\0"});
    if (!a.items.empty() && draw(WL, 2)) { // a name close to one that is there
      n = a.items[draw(WL, a.items.size())].name;
      switch (draw(WL, 4)) {
      case 0: n.resize(draw(WL, n.size() + 1)); break;
      case 1: n.erase(0, 1); break;
      case 2: n[draw(WL, n.size())] ^= 32; break;
      default: n += n.substr(0, 1);
      }
    }
  }
  it = a.lookup(n);
  unsigned spell = (unsigned)draw(WL, 2), flavor = draw(WL, 4) == 3;
  std::string what = gen::brief(n);
  if (k == 1) {
    Hdr h;
    Res r = attempt("peek " + what, [&] { h = rs.r.peek(n); });
    if (!it) {
      if (r.kind != ops::INVALID_ARGUMENT) violation(cls, "peek of the absent name %s %s", what.c_str(), res_str(r).c_str());
      return;
    }
    expect_ok(r, cls, "peek of " + what);
    check_hdr(h, it->t, a.big, cls, "peek of " + what);
    nontrivial();
  } else if (k == 2) {
    bool c = false;
    expect_ok(attempt("contains " + what, [&] { c = rs.r.contains(n); }), cls, "contains");
    if (c != (a.find(n) != nullptr)) violation(cls, "contains(%s) is %d", what.c_str(), (int)c);
  } else if (k == 4 && it) { // wrong element type
    ref::DT d = (ref::DT)draw(WL, ref::NDT);
    if (d == it->t.dt) return;
    Ptr p;
    Res r = attempt(strf("read %s as %s", what.c_str(), ref::DT_NAME[d]), [&] { p = rs.r.read(d, n, spell, flavor); });
    if (r.ok()) violation(cls, "reading %s of %s as %s returned a tensor", what.c_str(), ref::DT_NAME[it->t.dt], ref::DT_NAME[d]);
  } else if (k == 5) {
    check_keys(rs.r, a, cls, "reader");
  } else {
    Ptr p;
    ref::DT d = it ? it->t.dt : (ref::DT)draw(WL, ref::NDT);
    Res r = attempt("read " + what, [&] { p = rs.r.read(d, n, spell, flavor); });
    if (!it) {
      if (r.kind != ops::INVALID_ARGUMENT) violation(cls, "read of the absent name %s %s", what.c_str(), res_str(r).c_str());
      return;
    }
    expect_ok(r, cls, "read of " + what);
    check_tensor(*p, it->t, cls, "read of " + what);
    nontrivial();
  }
}
} // namespace

void c02() {
  gen::benign_io();
  pick_piece();
  set_fill(pick_fill());
  std::map<std::string, std::shared_ptr<Stored>> files;
  std::vector<std::shared_ptr<Stored>> mem;
  std::vector<WSlot> ws;
  std::vector<RSlot> rs;
  auto in_use = [&](const std::string &p) {
    for (auto &w : ws)
      if (w.path == p) return true;
    for (auto &r : rs)
      if (r.open && r.s->file && r.s->path == p) return true;
    return false;
  };
  auto finish = [&](size_t i) {
    WSlot &w = ws[i];
    auto st = std::make_shared<Stored>();
    st->a = w.a;
    st->a.big = eff_big(w.e);
    st->file = !w.path.empty();
    st->path = w.path;
    if (draw(WL, 3) < 2 || !st->file) {
      expect_ok(attempt("close", [&] { w.w.close(); }), "C02:close", "close()");
      if (draw(WL, 4) == 3) expect_ok(attempt("close again", [&] { w.w.close(); }), "C02:close", "a second close()");
      if (!st->file) st->bytes = str_of(w.w);
    }
    R->unwinding = draw(WL, 4) == 3;
    expect_ok(attempt("destroy writer", [&] { w.w.destroy(); }), "C02:close", "destroying the writer");
    R->unwinding = 0;
    if (st->file) files[st->path] = st;
    else mem.push_back(st);
    if (mem.size() > 2) mem.erase(mem.begin());
    ws.erase(ws.begin() + i);
  };
  auto open_reader = [&](std::shared_ptr<Stored> st) {
    RSlot r;
    r.s = st;
    std::string what = strf("open reader on %s (%zu entries)", st->file ? st->path.c_str() : "memory", st->a.items.size());
    unsigned ctor = (unsigned)draw(WL, 3);
    expect_ok(attempt(what, [&] { st->file ? r.r.open(st->path, ctor) : r.r.open_string(st->bytes, ctor); }), "C02:open", what);
    r.open = true;
    check_keys(r.r, st->a, "C02:keys", what);
    rs.push_back(std::move(r));
  };
  for (int step = 0; step < 40; ++step) {
    OpSpan sp;
    size_t k = weighted(WL, {8, 16, 40, 12, 24, 56, 4, 4, 1});
    if (k == 0) break;
    if (k == 8 && !ws.empty()) { // very many small entries
      WSlot &w = ws[draw(WL, ws.size())];
      size_t n = many(), first = w.a.items.size();
      if (first > 600) continue;
      for (size_t i = first; i < first + n; ++i) {
        TSpec t = tiny(i);
        Ptr p = ops::make(t);
        std::string nm = strf("e%zu", (i * 7919) % 10007);
        expect_ok(attempt("write one of many", [&] { w.w.write(nm, *p); }), "C02:write", "write of " + nm);
        w.a.items.push_back({gen::stored(nm), ref::canonical(t)});
      }
      count("many_entries");
      note_sig(77 * 32 + n);
    } else if (k == 1) {
      if (ws.size() >= 3) continue;
      WSlot w;
      w.c = gen::compression();
      w.e = gen::endian();
      unsigned ctor = (unsigned)draw(WL, 3);
      if (draw(WL, 3) == 2) {
        expect_ok(attempt("new string writer", [&] { w.w.open_string(w.c, w.e); }), "C02:open", "creating a writer");
      } else {
        std::string p = PATHS[draw(WL, 4)];
        if (in_use(p)) continue;
        w.path = p;
        files.erase(p);
        expect_ok(attempt("new file writer " + p, [&] { w.w.open(p, w.c, w.e, ctor); }), "C02:open", "creating a writer");
      }
      ws.push_back(std::move(w));
    } else if (k == 2 && !ws.empty()) {
      WSlot &w = ws[draw(WL, ws.size())];
      TSpec t = gen::tensor(small_cfg(8000));
      std::string n = gen::name();
      Ptr p = ops::make(t, draw(WL, 4) == 3);
      expect_ok(attempt(strf("write %s %s", gen::brief(n).c_str(), t.brief().c_str()), [&] { w.w.write(n, *p); }), "C02:write", "write of " + gen::brief(n));
      w.a.items.push_back({gen::stored(n), ref::canonical(t)});
      note_sig(t.dt + 32 * (int)w.c + 1024 * w.a.items.size());
    } else if (k == 3 && !ws.empty()) {
      finish(draw(WL, ws.size()));
    } else if (k == 4) {
      std::vector<std::shared_ptr<Stored>> all(mem);
      for (auto &f : files) all.push_back(f.second);
      if (all.empty() || rs.size() >= 4) continue;
      open_reader(all[draw(WL, all.size())]);
    } else if (k == 5 && !rs.empty()) {
      RSlot &r = rs[draw(WL, rs.size())];
      if (draw(WL, 12) == 11) expect_ok(attempt("move the reader", [&] { r.r.relocate(); }), "C02:answer", "moving a reader");
      if (draw(WL, 12) == 11 && !r.s->a.items.empty()) { // by the reader's own key
        const std::vector<std::string> &keys = r.r.keys();
        const std::string &key = keys[draw(WL, keys.size())];
        if (const Item *it = r.s->a.find(key)) {
          Ptr p;
          Hdr h;
          if (draw(WL, 2)) expect_ok(attempt("peek by key", [&] { h = r.r.peek(key); }), "C02:answer", "peek by a key of the reader"), check_hdr(h, it->t, r.s->a.big, "C02:answer", "peek by key");
          expect_ok(attempt("read by key", [&] { p = r.r.read(it->t.dt, key, 0, 0); }), "C02:answer", "read by a key of the reader");
          check_tensor(*p, it->t, "C02:answer", "read by key");
        }
      }
      ask(r, "C02:answer");
    } else if (k == 6 && !rs.empty()) {
      size_t i = draw(WL, rs.size());
      if (rs[i].r.f && draw(WL, 2)) { // close it first; what it knows of the directory remains
        expect_ok(attempt("close reader", [&] { rs[i].r.close(); }), "C02:close", "closing a reader");
        if (draw(WL, 2)) expect_ok(attempt("close reader again", [&] { rs[i].r.close(); }), "C02:close", "closing a reader again");
        check_keys(rs[i].r, rs[i].s->a, "C02:answer", "closed reader");
        if (!rs[i].s->a.items.empty()) {
          const Item &it = rs[i].s->a.items[draw(WL, rs[i].s->a.items.size())];
          const Item *last = rs[i].s->a.lookup(it.name);
          Ptr p;
          Res r = attempt("read from a closed reader", [&] { p = rs[i].r.read(last->t.dt, it.name, 0, false); });
          if (r.ok()) check_tensor(*p, last->t, "C02:answer", "read from a closed reader");
        }
      }
      expect_ok(attempt("destroy reader", [&] { rs[i].r.destroy(); }), "C02:close", "destroying a reader");
      rs.erase(rs.begin() + i);
    } else if (k == 7) {
      gen::benign_io();
    }
  }
  describe("%zu writers, %zu readers, %zu files, %zu in memory at the end", ws.size(), rs.size(), files.size(), mem.size());
  while (!ws.empty()) finish(ws.size() - 1);
  for (auto &r : rs) {
    check_reader(r.r, r.s->a, "C02:answer", "final questions to an open reader");
    nontrivial();
  }
  for (auto &r : rs) r.r.destroy();
  rs.clear();
  std::vector<std::shared_ptr<Stored>> all(mem);
  for (auto &f : files) all.push_back(f.second);
  for (auto &s : all) {
    open_reader(s);
    check_reader(rs.back().r, s->a, "C02:answer", "final reader");
    if (!s->a.items.empty()) nontrivial();
    rs.back().r.destroy();
  }
  if (fs_open_handles()) violation("C02:handles", "%zu files left open", fs_open_handles());
}

// ------------------------------------------------------------------------ C03
void c03() {
  gen::benign_io();
  pick_piece();
  set_fill(pick_fill());
  for (int step = 0; step < 8; ++step) {
    OpSpan sp;
    if (step && draw(WL, 4) == 0) break;
    unsigned kind = (unsigned)draw(WL, 4);
    npy::endian_t e = gen::endian();
    if (kind == 0) {
      gen::Cfg gc;
      gc.trailing_nul = draw(WL, 8) == 7;
      TSpec t = gen::tensor(gc);
      unsigned flavor = draw(WL, 3) == 2, spell = (unsigned)draw(WL, 4);
      Ptr p = ops::make(t, flavor);
      std::string what = strf("save %s endian %d", t.brief().c_str(), (int)e), bytes;
      if (draw(WL, 2)) {
        expect_ok(attempt(what, [&] { p->save("/simfs/a.npy", e, spell); }), "C03:save", what);
        bytes = fs_get("/simfs/a.npy");
      } else {
        std::ostringstream os;
        expect_ok(attempt(what, [&] { p->save(os, e, spell); }), "C03:save", what);
        if (!os) violation("C03:save", "%s left the stream failed", what.c_str());
        bytes = os.str();
      }
      check_npy_bytes(bytes, t, eff_big(e), "C03:npy", what);
      nontrivial();
      if (step == 0) describe("%s", what.c_str());
      note_sig(t.dt * 8 + eff_big(e) * 2 + t.fortran);
    } else {
      ops::Writer w;
      Archive a;
      a.big = eff_big(e);
      npy::compression_method_t c = gen::compression();
      bool file = kind != 2;
      std::string path = PATHS[draw(WL, 4)];
      unsigned ctor = (unsigned)draw(WL, 3);
      expect_ok(attempt("new writer", [&] { file ? w.open(path, c, e, ctor) : w.open_string(c, e); }), "C03:open", "creating a writer");
      size_t n = weighted(WL, {1, 4, 4, 3, 2, 1});
      if (draw(WL, 30) == 29) n = many();
      for (size_t i = 0; i < n; ++i) {
        gen::Cfg gc = small_cfg(n > 10 ? 600 : 40000);
        gc.trailing_nul = draw(WL, 8) == 7;
        TSpec t = gen::tensor(gc);
        std::string nm = gen::name();
        Ptr p = ops::make(t, draw(WL, 3) == 2);
        expect_ok(attempt("write " + gen::brief(nm) + " " + t.brief(), [&] { w.write(nm, *p); }), "C03:write", "write");
        a.items.push_back({gen::stored(nm), ref::canonical(t)});
        note_sig(t.dt * 8 + eff_big(e) * 2 + t.fortran + 1000 * (int)c);
      }
      std::string bytes;
      if (!file || draw(WL, 2)) expect_ok(attempt("close", [&] { w.close(); }), "C03:close", "close()");
      if (!file) bytes = str_of(w);
      expect_ok(attempt("destroy", [&] { w.destroy(); }), "C03:close", "destroying the writer");
      if (file) bytes = fs_get(path);
      if (step == 0) describe("archive of %zu entries, %s, %s", n, file ? "file" : "memory", c == npy::compression_method_t::STORED ? "stored" : "deflated");
      check_zip(bytes, a, "C03:zip", strf("archive of %zu entries", n));
      nontrivial();
    }
  }
}

// ------------------------------------------------------------------------ C13
void c13() {
  gen::benign_io();
  pick_piece();
  set_fill(pick_fill());
  struct W13 : WSlot {
    bool bad = false, failed = false, broken = false; // broken: may refuse from here on
    std::string snapshot;
    bool snap = false;
  };
  std::vector<std::unique_ptr<W13>> ws;
  auto bytes_of = [&](W13 &w) { return w.path.empty() ? str_of(w.w) : fs_get(w.path); };
  auto verify = [&](W13 &w, const std::string &bytes, const std::string &what) {
    check_zip(bytes, w.a, "C13:archive", what, w.failed);
    nontrivial();
  };
  auto check_snaps = [&](const char *after) {
    for (auto &w : ws)
      if (w->snap && bytes_of(*w) != w->snapshot) violation("C13:changed", "a closed archive changed after %s", after);
  };
  size_t nops = 0;
  bool faults = draw(WL, 3) == 2;
  uint64_t e0 = 0, f0 = 0;
  auto arm = [&](W13 &w) { // now and then the disk or the memory fails during the operation
    e0 = io_stat.errors, f0 = A.fired;
    if (!faults || !draw(IO, 2)) return;
    if (w.path.empty() || draw(IO, 2)) {
      alloc_arm((int64_t)draw(IO, 40), draw(IO, 3) ? 1 : -1);
    } else {
      unsigned q = (unsigned)draw(IO, 4);
      io.shot_cls = q == 3 ? IoCfg::CLOSE : q == 2 ? IoCfg::SEEK : IoCfg::WRITE;
      io.shot_in = q == 3 ? 0 : (int64_t)draw(IO, 3);
      io.shot_len = draw(IO, 2) ? -1 : 1;
    }
  };
  auto disarm = [&](W13 &w, const Res &r) { // whether the operation may have failed
    bool hit = io_stat.errors > e0 || A.fired > f0;
    alloc_disarm();
    io.shot_cls = IoCfg::NONE;
    if (hit) {
      count(io_stat.errors > e0 ? "fault.io_in_writer" : "fault.alloc_in_writer");
      w.broken = w.failed = true;
    }
    if (!r.ok() && w.broken) w.failed = true;
  };
  for (int step = 0; step < 30; ++step) {
    OpSpan sp;
    size_t k = weighted(WL, {8, 16, 32, 12, 20, 12, 12, 1});
    if (k == 0) break;
    ++nops;
    if (k == 1) {
      if (ws.size() >= 3) continue;
      std::unique_ptr<W13> w(new W13);
      w->bad = draw(WL, 8) == 7;
      w->c = w->bad ? (npy::compression_method_t)pick(WL, std::vector<int>{99, 1, 14, 0xFFFF}) : gen::compression();
      w->e = gen::endian();
      w->a.big = eff_big(w->e);
      unsigned ctor = (unsigned)draw(WL, 3);
      if (draw(WL, 2)) {
        expect_ok(attempt("new string writer", [&] { w->w.open_string(w->c, w->e); }), "C13:open", "creating a writer");
      } else {
        std::string p = PATHS[draw(WL, 4)];
        bool used = false;
        for (auto &x : ws) used |= x->path == p;
        if (used) continue;
        w->path = p;
        expect_ok(attempt("new file writer " + p, [&] { w->w.open(p, w->c, w->e, ctor); }), "C13:open", "creating a writer");
      }
      ws.push_back(std::move(w));
      continue;
    }
    if (ws.empty()) continue;
    size_t idx = draw(WL, ws.size());
    W13 &w = *ws[idx];
    if (k == 7) {
      if (w.closed || w.bad || w.broken || w.a.items.size() > 600) continue;
      size_t n = many(), first = w.a.items.size();
      for (size_t i = first; i < first + n; ++i) {
        TSpec t = tiny(i);
        Ptr p = ops::make(t);
        std::string nm = strf("e%zu", (i * 7919) % 10007);
        expect_ok(attempt("write one of many", [&] { w.w.write(nm, *p); }), "C13:write", "write of " + nm);
        w.a.items.push_back({gen::stored(nm), ref::canonical(t)});
      }
      count("many_entries");
    } else if (k == 2) {
      TSpec t = gen::tensor(small_cfg(3000));
      std::string n = gen::name();
      Ptr p = ops::make(t);
      arm(w);
      Res r = attempt(strf("write %s to writer %zu", gen::brief(n).c_str(), idx), [&] { w.w.write(n, *p); });
      disarm(w, r);
      if (w.closed) {
        if (r.ok()) violation("C13:write-after-close", "write after close() returned normally");
      } else if (w.bad) {
        if (r.ok()) violation("C13:bad-method", "write with an unsupported compression method returned normally");
        w.failed = true;
        count("fault.rejected_write");
      } else {
        if (!w.broken) expect_ok(r, "C13:write", "write of " + gen::brief(n));
        if (r.ok()) w.a.items.push_back({gen::stored(n), ref::canonical(t)});
      }
    } else if (k == 3) { // the tensor's own save fails half way
      ops::Thrower t;
      t.where = (int)draw(WL, 2);
      t.emit = pick(WL, std::vector<size_t>{0, 1, 100, 9000, 70000});
      std::string n = gen::name();
      Res r = attempt(strf("write a tensor that throws to writer %zu", idx), [&] { w.w.write(n, t); });
      if (r.ok()) violation("C13:thrower", "write of a tensor whose save throws returned normally");
      if (!w.closed) w.failed = true;
      count("fault.rejected_write");
    } else if (k == 4) {
      bool again = w.closed;
      arm(w);
      Res r = attempt(strf("close writer %zu", idx), [&] { w.w.close(); });
      disarm(w, r);
      if (again || !w.broken) expect_ok(r, "C13:close", again ? "a repeated close()" : "close()");
      if (!r.ok()) continue;
      std::string b = bytes_of(w);
      if (!again) verify(w, b, "after close");
      else if (b != w.snapshot) violation("C13:changed", "a repeated close() changed the archive");
      w.closed = true;
      w.snap = true;
      w.snapshot = b;
      note_sig(w.a.items.size() + 100 * w.failed + 1000 * w.path.empty());
    } else if (k == 5) {
      bool was_closed = w.closed;
      std::string p = w.path;
      R->unwinding = draw(WL, 3) == 2;
      expect_ok(attempt(strf("destroy writer %zu%s", idx, R->unwinding ? " while an exception is in flight" : ""), [&] { w.w.destroy(); }), "C13:close", "destroying a writer");
      R->unwinding = 0;
      if (!p.empty()) {
        std::string b = fs_get(p);
        if (was_closed && b != w.snapshot) violation("C13:changed", "destroying a closed writer changed the archive");
        if (!was_closed && !w.broken) verify(w, b, "after destruction");
      }
      ws.erase(ws.begin() + idx);
    } else if (k == 6) {
      if (draw(WL, 2)) gen::benign_io();
      if (w.path.empty()) str_of(w.w);
    }
    check_snaps("an operation on another writer or on itself");
  }
  describe("%zu operations, %zu writers left", nops, ws.size());
  while (!ws.empty()) {
    W13 &w = *ws.back();
    bool was_closed = w.closed;
    std::string b;
    if (w.path.empty() && !was_closed) {
      Res r = attempt("final close", [&] { w.w.close(); });
      if (!w.broken) expect_ok(r, "C13:close", "close()");
      b = str_of(w.w);
      if (r.ok() && w.broken) verify(w, b, "at the end");
    }
    expect_ok(attempt("final destroy", [&] { w.w.destroy(); }), "C13:close", "destroying a writer");
    if (!w.path.empty()) b = fs_get(w.path);
    if (!was_closed && !w.broken) verify(w, b, "at the end");
    else if (was_closed && !w.path.empty() && b != w.snapshot) violation("C13:changed", "destroying a closed writer changed the archive");
    ws.pop_back();
    check_snaps("destroying another writer");
  }
  if (fs_open_handles()) violation("C13:handles", "%zu files left open", fs_open_handles());
}

// ------------------------------------------------------------------------ C05
namespace {
// A drawn fault environment for writing.
void write_faults(uint64_t size_hint) {
  IoCfg c;
  switch (weighted(IO, {2, 4, 4, 4, 2, 2, 2, 3})) {
  case 0: break;
  case 1: c.disk_free = (int64_t)draw(IO, size_hint + 200); break;
  case 2:
    c.shot_cls = IoCfg::WRITE;
    c.shot_in = (int64_t)draw(IO, 4) * (int64_t)draw(IO, 4);
    c.shot_len = draw(IO, 2) ? -1 : 1;
    break;
  case 3:
    c.shot_cls = IoCfg::CLOSE;
    c.shot_in = 0;
    break;
  case 4:
    c.shot_cls = IoCfg::SEEK;
    c.shot_in = (int64_t)draw(IO, 4);
    c.shot_len = draw(IO, 2) ? -1 : 1;
    break;
  case 5:
    c.shot_cls = IoCfg::OPEN;
    c.shot_in = 0;
    break;
  case 6:
    c.w_eio = (unsigned)pick(IO, std::vector<uint64_t>{20, 100, 400});
    c.close_err = 100;
    c.seek_err = 50;
    break;
  default:
    c.disk_free = (int64_t)(size_hint > 300 ? size_hint - draw(IO, 300) : size_hint);
  }
  if (draw(IO, 3) == 2) c.w_short = 300, c.w_eintr = 100;
  io = c;
}
} // namespace

void c05() {
  pick_piece();
  set_fill(pick_fill());
  for (int step = 0; step < 6; ++step) {
    OpSpan sp;
    if (step && draw(WL, 4) == 0) break;
    io = IoCfg();
    unsigned kind = (unsigned)draw(WL, 5);
    unsigned target = (unsigned)weighted(IO, {12, 1, 1, 1}); // regular, read-only, missing directory, FIFO
    std::string path = target == 2 ? "/simfs/missing/x" : strf("/simfs/t%d", step);
    if (target == 1) {
      fs_put(path, "old");
      fs_inode(path)->readonly = true;
    }
    if (target == 3) fs_put_fifo(path);
    bool blocked = target == 1 || target == 2;
    npy::endian_t e = gen::endian();
    if (kind <= 1) { // save to a path
      gen::Cfg gc;
      gc.max_bytes = pick(WL, std::vector<uint64_t>{400, 9000, 70000});
      TSpec t = gen::tensor(gc);
      unsigned flavor = draw(WL, 3) == 2, spell = (unsigned)draw(WL, 4);
      Ptr p = ops::make(t, flavor);
      write_faults(ref::payload(ref::canonical(t), false, ref::max_len(t)).size() + 128);
      uint64_t e0 = io_stat.errors;
      std::string what = strf("save %s to %s (target kind %u)", t.brief().c_str(), path.c_str(), target);
      if (step == 0) describe("%s", what.c_str());
      Res r = attempt(what, [&] { p->save(path, e, spell); });
      bool err = io_stat.errors > e0;
      if (err) nontrivial();
      note_sig(kind * 100 + target * 10 + err * 2 + r.ok());
      if (r.ok()) {
        if (blocked) violation("C05:lost", "%s returned normally", what.c_str());
        check_npy_bytes(fs_get(path), t, eff_big(e), "C05:lost", what + ", which returned normally");
      } else if (!err && !blocked) {
        violation("C05:spurious", "%s failed although no call failed: %s", what.c_str(), r.what.c_str());
      }
    } else if (kind == 2) { // save to a caller's stream
      gen::Cfg gc;
      gc.max_bytes = pick(WL, std::vector<uint64_t>{400, 9000, 70000});
      TSpec t = gen::tensor(gc);
      unsigned flavor = draw(WL, 3) == 2, spell = (unsigned)draw(WL, 3);
      Ptr p = ops::make(t, flavor);
      uint64_t size = ref::payload(ref::canonical(t), false, ref::max_len(t)).size() + 128;
      unsigned mask = (unsigned)draw(IO, 3);
      std::string what = strf("save %s to a stream (exception mask %u)", t.brief().c_str(), mask);
      if (step == 0) describe("%s", what.c_str());
      if (draw(WL, 2)) {
        ops::SimBuf sb;
        sb.start_writing(pick(IO, std::vector<size_t>{0, 1, 64, 4096}));
        if (draw(IO, 4)) sb.fail_at = (int64_t)draw(IO, size + 64);
        sb.fail_throws = draw(IO, 2);
        std::ostream os(&sb);
        odd_stream(os);
        if (mask == 1) os.exceptions(std::ios_base::badbit);
        if (mask == 2) os.exceptions(std::ios_base::badbit | std::ios_base::failbit);
        Res r = attempt(what, [&] { p->save(os, e, spell); });
        os.exceptions(std::ios_base::goodbit);
        if (r.ok() && os) os.flush();
        bool err = sb.failures > 0;
        if (err) nontrivial();
        note_sig(kind * 100 + mask * 10 + err * 2 + r.ok());
        if (r.ok() && os) {
          check_npy_bytes(sb.data, t, eff_big(e), "C05:lost", what + ", whose stream is good afterwards");
        } else if (!err) {
          violation("C05:spurious", "%s failed although the stream buffer did not: %s", what.c_str(), res_str(r).c_str());
        }
      } else {
        path = strf("/simfs/s%d", step);
        std::ofstream os(path, std::ios::binary);
        odd_stream(os);
        if (mask == 1) os.exceptions(std::ios_base::badbit);
        if (mask == 2) os.exceptions(std::ios_base::badbit | std::ios_base::failbit);
        write_faults(size);
        uint64_t e0 = io_stat.errors;
        Res r = attempt(what, [&] { p->save(os, e, spell); });
        os.exceptions(std::ios_base::goodbit);
        bool good = r.ok() && os;
        os.close();
        good = good && os;
        bool err = io_stat.errors > e0;
        if (err) nontrivial();
        note_sig(kind * 100 + mask * 10 + err * 2 + r.ok() + 50);
        if (good) check_npy_bytes(fs_get(path), t, eff_big(e), "C05:lost", what + ", whose stream closed without failure");
        else if (!err) violation("C05:spurious", "%s failed although no call failed: %s", what.c_str(), res_str(r).c_str());
      }
    } else { // an archive
      npy::compression_method_t c = gen::compression();
      size_t n = draw(WL, 5);
      std::vector<TSpec> ts;
      uint64_t total = 100;
      for (size_t i = 0; i < n; ++i) {
        gen::Cfg gc;
        gc.max_bytes = pick(WL, std::vector<uint64_t>{200, 3000, 20000});
        gc.big_weight = 0;
        ts.push_back(gen::tensor(gc));
        total += 250 + (c == npy::compression_method_t::STORED ? ts.back().count() * ref::dt_size(ts.back().dt) : 50);
      }
      write_faults(total);
      uint64_t e0 = io_stat.errors;
      auto err = [&] { return io_stat.errors > e0; };
      Archive a;
      a.big = eff_big(e);
      ops::Writer w;
      unsigned ctor = (unsigned)draw(WL, 3);
      std::string what = strf("archive of %zu entries at %s (target kind %u)", n, path.c_str(), target);
      if (step == 0) describe("%s", what.c_str());
      Res r = attempt("new writer, " + what, [&] { w.open(path, c, e, ctor); });
      if (!r.ok()) {
        if (!err() && !blocked) violation("C05:spurious", "creating the writer of %s failed: %s", what.c_str(), r.what.c_str());
        continue;
      }
      bool faults_off = false;
      for (size_t i = 0; i < n; ++i) {
        std::string nm = gen::name();
        Ptr p = ops::make(ts[i]);
        r = attempt(strf("write %s", gen::brief(nm).c_str()), [&] { w.write(nm, *p); });
        if (r.ok()) {
          if (blocked) violation("C05:lost", "write to %s returned normally", what.c_str());
          a.items.push_back({gen::stored(nm), ref::canonical(ts[i])});
        } else if (!err() && !blocked) {
          violation("C05:spurious", "write of %s to %s failed although no call failed: %s", gen::brief(nm).c_str(), what.c_str(), r.what.c_str());
        }
        if (draw(IO, 6) == 5) io = IoCfg(), faults_off = true; // the fault goes away in the middle
      }
      bool closed = false;
      bool do_close = draw(WL, 4) != 3;
      for (int c2 = 0; do_close && c2 < 3; ++c2) {
        r = attempt("close", [&] { w.close(); });
        if (r.ok()) {
          if (blocked) violation("C05:lost", "close of %s returned normally", what.c_str());
          closed = true;
          check_zip(fs_get(path), a, "C05:lost", what + ", whose close returned normally,", err());
        } else if (!err() && !blocked) {
          violation("C05:spurious", "close of %s failed although no call failed: %s", what.c_str(), r.what.c_str());
        }
        if (draw(WL, 3) < 2) break;
        if (draw(IO, 2)) io = IoCfg();
      }
      R->unwinding = draw(WL, 3) == 2; // as when the exception of a failed write is on its way
      r = attempt("destroy writer", [&] { w.destroy(); });
      R->unwinding = 0;
      if (!r.ok()) violation("C05:destructor", "destroying a writer threw: %s", r.what.c_str());
      bool e1 = err();
      if (e1) nontrivial();
      note_sig(kind * 100 + target * 10 + e1 * 2 + closed + 5 * faults_off);
      if (closed || (!e1 && !blocked)) check_zip(fs_get(path), a, "C05:lost", what + ", finished without error,", e1);
    }
    if (fs_open_handles()) violation("C05:handles", "%zu files left open", fs_open_handles());
  }
}

// ------------------------------------------------------------------------ C07
namespace {
struct Built {
  Archive a;
  std::string bytes;
  std::vector<ref::ZEntry> z;
  uint64_t cd = 0;
};
Built build_archive(const char *cls, uint64_t max_bytes, size_t max_n, bool numpy_too) {
  Built b;
  npy::endian_t e = gen::endian();
  npy::compression_method_t c = gen::compression();
  size_t n = 1 + draw(WL, max_n);
  if (draw(WL, 16) == 15) n = 0;
  bool foreign = numpy_too && draw(WL, 4) == 3;
  ops::Writer w;
  std::vector<ref::Member> ms;
  std::set<std::string> used;
  if (!foreign) expect_ok(attempt("new string writer", [&] { w.open_string(c, e); }), cls, "creating a writer");
  b.a.big = eff_big(e);
  bool large = draw(WL, 40) == 39; // past the codec's chunk size
  bool nested = draw(WL, 6) == 5;
  for (size_t i = 0; i < n; ++i) {
    gen::Cfg gc;
    gc.max_bytes = large && i == 0 ? 300000 : max_bytes;
    gc.big_weight = large && i == 0 ? 30 : 0;
    TSpec t = gen::tensor(gc);
    std::string nm = gen::name();
    if (nested && i && i + 1 == n) { // the bytes of an older archive with the same names
      std::vector<ref::Member> old;
      gc.big_weight = 0;
      for (auto &it : b.a.items) {
        ref::Member m;
        m.name = it.name;
        m.bytes = ref::npy_encode(gen::tensor(gc), ref::NpyStyle());
        m.style.zip64_local = false;
        old.push_back(m);
      }
      t = TSpec();
      t.dt = ref::U1;
      t.raw = ref::zip_encode(old);
      t.shape = {t.raw.size()};
      count("probe.nested_archive");
    }
    if (nm.size() > 400) nm = nm.substr(0, 300);
    if (!used.insert(gen::stored(nm)).second) nm = strf("u%zu", i), used.insert(gen::stored(nm));
    if (foreign) {
      ref::NpyStyle st;
      st.big = b.a.big;
      ref::Member m;
      m.name = gen::stored(nm);
      m.bytes = ref::npy_encode(t, st);
      m.style.deflate = c == npy::compression_method_t::DEFLATED;
      if (draw(WL, 4) == 3) m.style.odd = 1 + draw(WL, 1 << 24);
      ms.push_back(m);
    } else {
      Ptr p = ops::make(t);
      expect_ok(attempt("write " + gen::brief(nm), [&] { w.write(nm, *p); }), cls, "write");
    }
    b.a.items.push_back({gen::stored(nm), ref::canonical(t)});
  }
  if (foreign) {
    b.bytes = ref::zip_encode(ms);
  } else {
    expect_ok(attempt("close", [&] { w.close(); }), cls, "close");
    b.bytes = str_of(w);
    w.destroy();
  }
  std::string err;
  if (!ref::zip_decode(ref::source_of(b.bytes), b.z, err)) violation(cls, "archive is not valid: %s", err.c_str());
  const std::string &s = b.bytes;
  size_t q = s.size() - 6;
  b.cd = (uint8_t)s[q] | (uint8_t)s[q + 1] << 8 | (uint8_t)s[q + 2] << 16 | (uint64_t)(uint8_t)s[q + 3] << 24;
  return b;
}
// Applies one damage; returns a description and the damaged range.
std::string damage(std::string &d, const Built &b, const std::string &other, bool &touched_cd, std::set<size_t> &hit) {
  uint64_t n = d.size();
  auto range_hit = [&](uint64_t lo, uint64_t hi) {
    if (hi > b.cd || d.size() != b.bytes.size()) touched_cd = true;
    for (size_t i = 0; i < b.z.size(); ++i)
      if (lo < b.z[i].data + b.z[i].csize && hi > b.z[i].off) hit.insert(i);
  };
  auto place = [&]() -> uint64_t {
    switch (draw(IO, 4)) {
    case 0: return draw(IO, n);
    case 1: return b.z.empty() ? draw(IO, n) : std::min<uint64_t>(n - 1, b.z[draw(IO, b.z.size())].off + draw(IO, 200)); // headers
    case 2: return std::min<uint64_t>(n - 1, b.cd + draw(IO, n - std::min(n - 1, b.cd)));                                    // directory
    default: return n - 1 - draw(IO, std::min<uint64_t>(n, 22));                                                             // end record
    }
  };
  if (n == 0) return "nothing left";
  switch (draw(IO, 8)) {
  case 0: { // a prefix survives
    uint64_t k = draw(IO, 3) ? draw(IO, n) : n - 1 - draw(IO, std::min<uint64_t>(n, 60));
    if (draw(IO, 4) == 3 && !b.z.empty()) { // where an entry, or the directory, begins or ends
      auto &e = b.z[draw(IO, b.z.size())];
      k = std::min<uint64_t>(n - 1, e.data + (draw(IO, 4) == 3 ? 0 : e.csize) + draw(IO, 3));
    }
    d.resize(k);
    touched_cd = true;
    count("fault.torn_prefix");
    return strf("only the first %llu bytes remain", (unsigned long long)k);
  }
  case 1: { // flips within a small window
    uint64_t at = place(), w = 1 + draw(IO, 32), k = 1 + draw(IO, 4);
    for (uint64_t i = 0; i < k; ++i) {
      uint64_t p = std::min(n - 1, at + draw(IO, w));
      d[p] ^= (char)(1u << draw(IO, 8));
    }
    range_hit(at, std::min(n, at + w));
    count("fault.bit_flip");
    return strf("%llu bits flipped near %llu", (unsigned long long)k, (unsigned long long)at);
  }
  case 2: { // a block is lost
    uint64_t blk = pick(IO, std::vector<uint64_t>{512, 16, 64, 4096, 1}), at = draw(IO, n / blk + 1) * blk;
    if (at >= n) at = 0;
    uint64_t hi = std::min(n, at + blk);
    std::fill(d.begin() + at, d.begin() + hi, draw(IO, 2) ? '\0' : '\xff');
    range_hit(at, hi);
    count("fault.lost_block");
    return strf("block of %llu at %llu lost", (unsigned long long)blk, (unsigned long long)at);
  }
  case 3: { // a block from elsewhere
    uint64_t blk = pick(IO, std::vector<uint64_t>{512, 16, 64, 4096}), at = draw(IO, n / blk + 1) * blk;
    const std::string &src = draw(IO, 2) && !other.empty() ? other : b.bytes;
    if (at >= n) at = 0;
    uint64_t from = draw(IO, src.size() / blk + 1) * blk;
    if (from >= src.size()) from = 0;
    uint64_t k = std::min({blk, n - at, (uint64_t)src.size() - from});
    d.replace(at, k, src.substr(from, k));
    range_hit(at, at + k);
    count("fault.misplaced_block");
    return strf("block of %llu from %llu of %s at %llu", (unsigned long long)k, (unsigned long long)from, &src == &other ? "another archive" : "the archive",
                (unsigned long long)at);
  }
  case 4: { // bytes after the end
    uint64_t k = pick(IO, std::vector<uint64_t>{1, 22, 512, 4096, 30});
    std::string tail(k, '\0');
    if (draw(IO, 2))
      for (auto &c : tail) c = (char)draw(IO, 256);
    if (draw(IO, 3) == 2 && other.size() >= k) tail = other.substr(other.size() - k);
    d += tail;
    touched_cd = true;
    count("fault.trailing_bytes");
    return strf("%llu bytes after the end", (unsigned long long)k);
  }
  case 5: { // the head of a newer file over an older one
    if (other.empty()) { d[0] ^= 1; range_hit(0, 1); return "bit flipped"; }
    uint64_t k = draw(IO, n);
    std::string m = d.substr(0, k);
    if (other.size() > k) m += other.substr(k);
    d = m;
    touched_cd = true;
    for (size_t i = 0; i < b.z.size(); ++i) hit.insert(i);
    count("fault.old_tail");
    return strf("first %llu bytes over an older archive", (unsigned long long)k);
  }
  case 6: { // a byte inserted or deleted
    uint64_t at = place();
    if (draw(IO, 2)) d.insert(d.begin() + at, (char)draw(IO, 256));
    else d.erase(d.begin() + at);
    touched_cd = true;
    count("fault.shifted");
    return strf("bytes shifted from %llu", (unsigned long long)at);
  }
  default: { // a field overwritten with an extreme value
    uint64_t at = place(), k = pick(IO, std::vector<uint64_t>{4, 2, 8});
    char v = (char)pick(IO, std::vector<unsigned>{0xff, 0, 0x7f, 0x80});
    for (uint64_t i = at; i < std::min(n, at + k); ++i) d[i] = v;
    range_hit(at, std::min(n, at + k));
    count("fault.field_overwritten");
    return strf("%llu bytes at %llu overwritten with %02x", (unsigned long long)k, (unsigned long long)at, (uint8_t)v);
  }
  }
}
} // namespace

void c07() {
  A.limit = 32 << 20; // damaged sizes ask for gigabytes
  pick_piece();
  set_fill(pick_fill());
  Built b = build_archive("C07:write", 3000, 5, true), o;
  bool have_other = draw(WL, 2);
  if (have_other) o = build_archive("C07:write", 2000, 3, false);
  // what may be read under a name: a name without its suffix also finds "name.npy"
  std::multimap<std::string, const TSpec *> ever;
  auto know = [&](const Item &i) {
    ever.insert({i.name, &i.t});
    ever.insert({i.name.substr(0, i.name.size() - 4), &i.t});
  };
  for (auto &i : b.a.items) know(i);
  if (have_other)
    for (auto &i : o.a.items) know(i);
  auto written = [&](const std::string &n, const TSpec &t) {
    auto r = ever.equal_range(n);
    bool known = r.first != r.second;
    for (auto i = r.first; i != r.second; ++i)
      if (i->second->same(t)) return true;
    if (!known)
      for (auto &i : ever)
        if (i.second->same(t)) return true;
    return false;
  };
  for (int step = 0; step < 6; ++step) {
    OpSpan sp;
    if (step && draw(WL, 5) == 0) break;
    std::string d = b.bytes, how;
    bool touched_cd = false;
    std::set<size_t> hit;
    unsigned nd = (unsigned)weighted(IO, {1, 8, 1}); // 0: intact, with read errors
    bool mixed = false;
    for (unsigned i = 0; i < nd; ++i) how += (i ? ", then " : "") + damage(d, b, o.bytes, touched_cd, hit);
    mixed = nd > 1;
    if (nd == 0) how = "no damage";
    bool file = draw(WL, 2), live = draw(WL, 4) == 3 && nd; // damage appears while the reader is open
    unsigned ctor = (unsigned)draw(WL, 3);
    io = IoCfg();
    if (draw(IO, 4) == 3) gen::benign_io();
    bool rerr = nd == 0 || draw(IO, 8) == 7;
    ops::Reader rd;
    if (live) file = true;
    if (file) fs_put("/simfs/d.npz", live ? b.bytes : d);
    if (rerr && !live) io.r_eio = 200, io.seek_err = 50;
    uint64_t e0 = io_stat.errors;
    scribble_stack((uint8_t)draw(IO, 256));
    Res r = attempt(strf("open %s: %s", file ? "file" : "string", how.c_str()), [&] { file ? rd.open("/simfs/d.npz", ctor) : rd.open_string(d, ctor); });
    if (step == 0) describe("%zu entries; %s%s", b.a.items.size(), how.c_str(), live ? " while open" : "");
    bool intact_dir = !touched_cd && nd <= 1;
    if (d != b.bytes || io_stat.errors > e0) nontrivial();
    if (!r.ok()) {
      note_sig(nd * 1000 + 1);
      if ((intact_dir || live) && io_stat.errors == e0)
        violation("C07:intact", "opening an archive whose directory is intact failed (%s): %s", how.c_str(), r.what.c_str());
      continue;
    }
    if (live) {
      fs_inode("/simfs/d.npz")->truncate(0);
      fs_inode("/simfs/d.npz")->write(0, d.data(), d.size());
      if (rerr) io.r_eio = 200;
      count("fault.damage_while_open");
    }
    std::vector<std::string> names;
    expect_ok(attempt("keys", [&] {
      const auto &v = rd.keys();
      NoLib nl;
      names = v;
    }), "C07:keys", "keys()");
    if (!live && nd == 1 && names.size() < b.z.size() && d.size() < b.bytes.size() && !b.bytes.compare(0, d.size(), d))
      violation("C07:short-listing", "an archive of %zu entries opens with %zu of them after damage (%s)", b.z.size(), names.size(), how.c_str());
    if (names.size() > 30) names.resize(30);
    for (auto &i : b.a.items) names.push_back(i.name);
    if (have_other)
      for (auto &i : o.a.items) names.push_back(i.name);
    for (size_t q = 0; q < names.size(); ++q) {
      const std::string &n = names[q];
      ref::DT dt = (ref::DT)draw(WL, ref::NDT);
      auto it = ever.find(n);
      if (it != ever.end()) dt = it->second->dt;
      e0 = io_stat.errors;
      Ptr p;
      Hdr h;
      bool pk = draw(WL, 4) == 3;
      scribble_stack((uint8_t)draw(IO, 256));
      if (pk) r = attempt("peek " + gen::brief(n), [&] { h = rd.peek(n); });
      else r = attempt("read " + gen::brief(n), [&] { p = rd.read(dt, n, (unsigned)(q & 1)); });
      if (io_stat.errors > e0) nontrivial();
      note_sig(nd * 100 + r.ok() * 10 + pk);
      if (r.ok() && !pk && !written(n, p->spec()))
        violation("C07:wrong-data", "after damage (%s%s) entry %s reads as %s, which was never written under that name", how.c_str(), live ? " while open" : "",
                  gen::brief(n).c_str(), p->spec().brief().c_str());
      if (r.ok() && pk) {
        bool okh = false;
        std::string why;
        auto rg = ever.equal_range(n);
        for (auto i = rg.first; i != rg.second; ++i) okh |= ops::hdr_matches(h, *i->second, b.a.big, why) || (have_other && ops::hdr_matches(h, *i->second, o.a.big, why));
        if (rg.first == rg.second)
          for (auto &i : ever) okh |= ops::hdr_matches(h, *i.second, b.a.big, why) || (have_other && ops::hdr_matches(h, *i.second, o.a.big, why));
        if (!okh) violation("C07:wrong-data", "after damage (%s) peek of %s reports a header that was never written: %s", how.c_str(), gen::brief(n).c_str(), why.c_str());
      }
      // an undamaged entry of an archive with an intact directory
      if (!r.ok() && (intact_dir || (live && nd <= 1 && d.size() == b.bytes.size())) && io_stat.errors == e0) {
        for (size_t i = 0; i < b.a.items.size(); ++i)
          if (b.a.items[i].name == n && !hit.count(i) && b.a.items[i].t.dt == dt)
            violation("C07:intact", "undamaged entry %s is unreadable after damage elsewhere (%s): %s", gen::brief(n).c_str(), how.c_str(), r.what.c_str());
      }
    }
    (void)mixed;
  }
  io = IoCfg();
  // a crash in the middle of writing, seen through the real writer
  OpSpan sp;
  if (draw(WL, 3) == 2) {
    ops::Writer w;
    npy::endian_t e = gen::endian();
    npy::compression_method_t c = gen::compression();
    Archive a;
    a.big = eff_big(e);
    io.crash_after = (int64_t)draw(IO, b.bytes.size() + 200);
    expect_ok(attempt("new writer", [&] { w.open("/simfs/crash.npz", c, e, 0); }), "C07:write", "creating a writer");
    std::vector<Ptr> keep;
    for (auto &i : b.a.items) {
      Ptr p = ops::make(i.t);
      Res r = attempt("write", [&] { w.write(i.name, *p); });
      if (r.ok()) a.items.push_back(i);
    }
    attempt("close", [&] { w.close(); });
    attempt("destroy", [&] { w.destroy(); });
    bool crashed = frozen;
    frozen = false; // the machine restarts
    io = IoCfg();
    if (crashed) nontrivial();
    ops::Reader rd;
    scribble_stack((uint8_t)draw(IO, 256));
    Res r = attempt("open after the crash", [&] { rd.open("/simfs/crash.npz", 0); });
    if (!crashed) expect_ok(r, "C07:intact", "opening an intact archive");
    if (r.ok()) {
      size_t listed = 0;
      attempt("keys", [&] { listed = rd.keys().size(); });
      if (listed < a.items.size()) violation("C07:short-listing", "after a crash an archive of %zu entries opens with %zu of them", a.items.size(), listed);
    }
    if (r.ok())
      for (auto &i : b.a.items) {
        Ptr p;
        r = attempt("read " + gen::brief(i.name), [&] { p = rd.read(i.t.dt, i.name, 0); });
        if (r.ok()) check_tensor(*p, i.t, "C07:wrong-data", "reading after a crash");
        else if (!crashed) violation("C07:intact", "entry unreadable: %s", r.what.c_str());
      }
  }
}

// ------------------------------------------------------------------------ C12
void c12() {
  A.limit = 32 << 20; // damaged sizes ask for gigabytes
  pick_piece();
  set_fill(pick_fill());
  Built b = build_archive("C12:write", 20000, 5, true);
  // some entries may be damaged for good
  std::set<std::string> bad;
  std::string bytes = b.bytes;
  for (size_t i = 0; i < b.z.size(); ++i)
    if (draw(IO, 6) == 5) {
      bad.insert(b.z[i].name);
      uint64_t lo = b.z[i].off, hi = b.z[i].data + b.z[i].csize, at = draw(IO, 2) && b.z[i].csize ? b.z[i].data + draw(IO, b.z[i].csize) : lo + draw(IO, hi - lo);
      bytes[at] ^= (char)(1u << draw(IO, 8));
      count("fault.damaged_entry");
    }
  bool file = draw(WL, 4) != 3;
  if (file) fs_put("/simfs/r.npz", bytes);
  ops::Reader rd;
  unsigned ctor = (unsigned)draw(WL, 3);
  expect_ok(attempt("open", [&] { file ? rd.open("/simfs/r.npz", ctor) : rd.open_string(bytes, ctor); }), "C12:open", "opening an archive with an intact directory");
  // a file of its own, for load, peek and save
  TSpec lt = gen::tensor(small_cfg(20000));
  npy::endian_t le = gen::endian();
  {
    Ptr p = ops::make(lt);
    expect_ok(attempt("save", [&] { p->save("/simfs/l.npy", le, 0); }), "C12:save", "save");
  }
  describe("%zu entries, %zu damaged, %s", b.a.items.size(), bad.size(), file ? "file" : "memory");
  auto query = [&](unsigned kind, const std::string &n, const Item *it, unsigned spell, unsigned flavor, bool must, const std::string &ctx) {
    Ptr p;
    Hdr h;
    bool c = false;
    Res r;
    if (kind == 0) r = attempt("read " + gen::brief(n) + ctx, [&] { p = rd.read(it->t.dt, n, spell, flavor); });
    if (kind == 1) r = attempt("peek " + gen::brief(n) + ctx, [&] { h = rd.peek(n); });
    if (kind == 2) r = attempt("contains " + gen::brief(n) + ctx, [&] { c = rd.contains(n); });
    A.fail_at = -1;
    bool intact = !bad.count(it->name);
    if (must && intact) expect_ok(r, "C12:no-recovery", strf("%s of the intact entry %s%s", kind == 0 ? "read" : kind == 1 ? "peek" : "contains", gen::brief(n).c_str(), ctx.c_str()));
    if (r.ok() && kind == 0) check_tensor(*p, it->t, "C12:wrong-data", "read of " + gen::brief(n) + ctx);
    if (r.ok() && kind == 1) check_hdr(h, it->t, b.a.big, "C12:wrong-data", "peek of " + gen::brief(n) + ctx);
    if (r.ok() && kind == 2 && !c && n == it->name) violation("C12:wrong-data", "contains(%s) is false%s", gen::brief(n).c_str(), ctx.c_str());
    return r.ok();
  };
  for (int step = 0; step < 10; ++step) {
    OpSpan sp;
    if (step && draw(WL, 6) == 0) break;
    unsigned how = (unsigned)weighted(IO, {5, 2, 3, 2, 2, 2, 3});
    io = IoCfg();
    unsigned spell = (unsigned)draw(WL, 2), flavor = draw(WL, 4) == 3;
    bool failed = false;
    const Item *it = b.a.items.empty() ? nullptr : &b.a.items[draw(WL, b.a.items.size())];
    unsigned kind = (unsigned)weighted(WL, {4, 2, 1});
    auto arm = [&] {
      if (how == 0) {
        io.shot_cls = IoCfg::READ;
        io.shot_in = (int64_t)draw(IO, 4);
        io.shot_len = draw(IO, 3) ? 1 : -1;
      } else if (how == 1) {
        io.shot_cls = IoCfg::SEEK;
        io.shot_in = (int64_t)draw(IO, 2);
        io.shot_len = draw(IO, 2) ? -1 : 1;
      } else if (how == 2) {
        alloc_arm((int64_t)draw(IO, 60), draw(IO, 3) ? 1 : -1);
      }
    };
    if (how == 6) { // a path of its own
      unsigned what = (unsigned)draw(WL, 3);
      unsigned fk = (unsigned)draw(IO, 5);
      if (fk == 0) io.shot_cls = IoCfg::READ, io.shot_in = (int64_t)draw(IO, 3), io.shot_len = draw(IO, 2) ? -1 : 1;
      if (fk == 1) io.shot_cls = IoCfg::OPEN, io.shot_in = 0;
      if (fk == 2) io.shot_cls = IoCfg::WRITE, io.shot_in = (int64_t)draw(IO, 3), io.shot_len = draw(IO, 2) ? -1 : 1;
      if (fk == 3) io.shot_cls = IoCfg::CLOSE, io.shot_in = 0;
      if (fk == 4) alloc_arm((int64_t)draw(IO, 40), draw(IO, 3) ? 1 : -1);
      for (int round = 0; round < 2; ++round) {
        Ptr p;
        Hdr h;
        Res r;
        if (what == 0) r = attempt(strf("load, round %d", round), [&] { p = ops::load(lt.dt, "/simfs/l.npy", spell, flavor); });
        if (what == 1) r = attempt(strf("peek, round %d", round), [&] { h = ops::peek("/simfs/l.npy"); });
        if (what == 2) {
          Ptr q;
          {
            int64_t f = A.fail_at;
            A.fail_at = -1;
            q = ops::make(lt, flavor);
            A.fail_at = f;
            A.n = 0;
          }
          r = attempt(strf("save, round %d", round), [&] { q->save("/simfs/l.npy", le, spell); });
        }
        alloc_disarm();
        io = IoCfg();
        if (round == 0 && !r.ok()) failed = true, nontrivial();
        if (round == 1) expect_ok(r, "C12:no-recovery", strf("%s on a path, retried after the fault", what == 0 ? "load" : what == 1 ? "peek" : "save"));
        if (r.ok() && what == 0) check_tensor(*p, ref::canonical(lt), "C12:wrong-data", "load");
        if (r.ok() && what == 1) check_hdr(h, ref::canonical(lt), eff_big(le), "C12:wrong-data", "peek");
        if (r.ok() && what == 2) check_npy_bytes(fs_get("/simfs/l.npy"), lt, eff_big(le), "C12:wrong-data", "save");
      }
      note_sig(6000 + what * 10 + fk + failed * 100);
      continue;
    }
    if (!it && how != 3) continue;
    std::string n = it ? it->name : "none";
    if (draw(WL, 2) && it) n = n.substr(0, n.size() - 4);
    if (it) it = b.a.lookup(n); // "a.npy" may be an entry of its own
    if (how <= 2) {
      arm();
      failed = !query(kind, n, it, spell, flavor, false, " under a fault");
      alloc_disarm();
      io = IoCfg();
    } else if (how == 3) {
      Ptr p;
      Res r = attempt("read a missing name", [&] { p = rd.read(ref::U1, "no such name", spell); });
      if (r.ok()) violation("C12:missing", "reading a missing name returned a tensor");
      failed = true;
    } else if (how == 4) {
      ref::DT d = (ref::DT)((it->t.dt + 1 + draw(WL, ref::NDT - 1)) % ref::NDT);
      Ptr p;
      Res r = attempt("read with a wrong type", [&] { p = rd.read(d, n, spell, flavor); });
      if (r.ok()) violation("C12:wrong-type", "reading %s as %s returned a tensor", ref::DT_NAME[it->t.dt], ref::DT_NAME[d]);
      failed = true;
    } else {
      if (bad.empty()) continue;
      size_t i = draw(IO, bad.size());
      auto bi = bad.begin();
      std::advance(bi, i);
      failed = !query(kind % 2, *bi, b.a.find(*bi), spell, flavor, false, " (damaged)");
    }
    if (failed) nontrivial();
    note_sig(how * 100 + kind * 10 + failed + file * 1000);
    // the fault is gone: the same operation, and any other, must work now
    if (it && how <= 4) query(kind, n, it, spell, flavor, true, failed ? " right after the fault" : " after a fault that changed nothing");
    if (!b.a.items.empty()) {
      const Item *j = &b.a.items[draw(WL, b.a.items.size())];
      query((unsigned)draw(WL, 2), j->name, j, 0, 0, true, " after another operation failed");
    }
  }
  for (auto &i : b.a.items) query(0, i.name, &i, 0, 0, true, " at the end");
  rd.destroy();
  if (fs_open_handles()) violation("C12:handles", "%zu files left open", fs_open_handles());
}
} // namespace wl
