// C20: tensor objects over drawn histories, some operations meeting a failed
// allocation, against a model of plain values.
#include "common.h"
#include "workloads.h"

namespace wl {
namespace {
struct Obj {
  Ptr p;
  TSpec t;
};
// position in memory of the element at a non-negative index
uint64_t offset(const TSpec &t, const std::vector<int64_t> &idx) {
  uint64_t o = 0;
  size_t n = t.shape.size();
  for (size_t k = 0; k < n; ++k) {
    size_t d = t.fortran ? n - 1 - k : k;
    o = o * t.shape[d] + (uint64_t)idx[d];
  }
  return o;
}
TSpec cell_of(const TSpec &t, uint64_t at) {
  TSpec c;
  c.dt = t.dt;
  if (t.dt == ref::UN) c.str.assign(1, t.str[at]);
  else c.raw = t.raw.substr(at * ref::dt_size(t.dt), ref::dt_size(t.dt));
  return c;
}
void set_cell(TSpec &t, uint64_t at, const TSpec &c) {
  if (t.dt == ref::UN) t.str[at] = c.str[0];
  else t.raw.replace(at * ref::dt_size(t.dt), ref::dt_size(t.dt), c.raw);
}
TSpec values(const TSpec &like) { // other values for the same shape
  TSpec t = like;
  if (t.dt == ref::UN) {
    size_t longest = pick(WL, std::vector<size_t>{3, 0, 20, 60});
    for (auto &s : t.str) s = std::u32string(draw(WL, longest + 1), (char32_t)('A' + draw(WL, 26)));
  } else {
    gen::fill(t, 1 + (unsigned)draw(WL, 2), draw(WL, 1000));
  }
  return t;
}
std::vector<int64_t> valid_index(const TSpec &t, bool negative) {
  std::vector<int64_t> v;
  for (auto d : t.shape) {
    int64_t i = (int64_t)draw(WL, d);
    if (negative && draw(WL, 2)) i -= (int64_t)d;
    v.push_back(i);
  }
  return v;
}
std::vector<int64_t> absolute(const TSpec &t, std::vector<int64_t> v) {
  for (size_t d = 0; d < v.size(); ++d)
    if (v[d] < 0) v[d] += (int64_t)t.shape[d];
  return v;
}
std::string text(const std::vector<int64_t> &v) {
  std::string s = "(";
  for (auto i : v) s += strf("%lld,", (long long)i);
  return s + ")";
}
// every way a program makes a boolean of something else
npy::boolean boolean_of(unsigned way, bool &truth) {
  int i = (int)draw(WL, 6) - 2;
  double d = pick(WL, std::vector<double>{0.0, 1.0, -0.0, -1.0, 0.25, -1e-30, 1e30});
  truth = i != 0;
  npy::boolean b((way & 1) != 0);
  switch (way >> 1) {
  case 0: b = npy::boolean(truth); break;
  case 1: b = truth; break;
  case 2: b = npy::boolean(i); break;
  case 3: b = i; break;
  case 4: truth = d != 0, b = npy::boolean(d); break;
  case 5: truth = d != 0, b = d; break;
  case 6: truth = (float)d != 0, b = npy::boolean((float)d); break;
  case 7: b = npy::boolean((std::int8_t)i); break;
  case 8: b = (long long)i << 40; break;
  case 9: b = npy::boolean((std::uint64_t)(long long)i << 32); break;
  case 10: {
    npy::boolean o(truth);
    b = o;
    break;
  }
  default: truth = false, b = npy::boolean();
  }
  return b;
}
TSpec spec() {
  gen::Cfg g;
  g.max_bytes = draw(WL, 12) == 11 ? 70000 : 3000;
  g.big_weight = 0;
  g.trailing_nul = draw(WL, 4) == 3;
  TSpec t = gen::tensor(g);
  if (draw(WL, 2) && t.dt != ref::UN) { // the shapes people index
    TSpec s;
    s.dt = t.dt;
    s.fortran = draw(WL, 2);
    size_t n = draw(WL, 5);
    for (size_t i = 0; i < n; ++i) s.shape.push_back(draw(WL, 9) == 8 ? 0 : 1 + draw(WL, 5));
    gen::fill(s, 1, draw(WL, 1000));
    t = s;
  }
  return t;
}
// one element through every spelling
void look(Obj &o, const char *when) {
  if (!o.t.count()) return;
  auto idx = valid_index(o.t, true);
  uint64_t at = offset(o.t, absolute(o.t, idx));
  unsigned how = (unsigned)draw(WL, ops::CELL_WAYS);
  TSpec want = cell_of(o.t, at), got;
  got.dt = want.dt;
  std::string what = strf("element %s of %s (spelling %u) %s", text(idx).c_str(), o.t.brief().c_str(), how, when);
  expect_ok(attempt(what, [&] { o.p->cell(how, idx, false, got); }), "C20:index", what);
  if (got.raw != want.raw || got.str != want.str) violation("C20:index", "%s is not the element there", what.c_str());
}
} // namespace

void c20() {
  set_fill((uint8_t)pick(WL, std::vector<unsigned>{0xA5, 0, 0xFF, 0x31}));
  std::vector<Obj> pool;
  size_t changes = 0;
  auto some = [&]() -> Obj & { return pool[draw(WL, pool.size())]; };
  auto mate = [&](Obj &o) -> Obj * { // another object of the same class
    std::vector<Obj *> c;
    for (auto &x : pool)
      if (&x != &o && x.t.dt == o.t.dt) c.push_back(&x);
    return c.empty() ? nullptr : c[draw(WL, c.size())];
  };
  for (int step = 0; step < 40; ++step) {
    OpSpan sp;
    size_t k = weighted(WL, {step ? 1u : 0u, 5, 3, 5, 4, 2, 7, 4, 3, 4, 4, 3, 3, 2, 3, 2});
    if (k == 0) break;
    if (pool.empty()) k = 1;
    // now and then an allocation fails
    bool armed = draw(IO, 4) == 3;
    int64_t at = armed ? (int64_t)draw(IO, 12) : 0, len = armed ? pick(IO, std::vector<int64_t>{1, -1}) : 0;
    uint64_t fired0 = 0;
    bool fired = false;
    auto run = [&](const std::string &what, auto body) {
      fired0 = A.fired;
      if (armed) alloc_arm(at, len);
      Res r = attempt(what, body);
      if (armed) alloc_disarm();
      fired = A.fired > fired0;
      if (!r.ok() && !fired) violation("C20:fails", "%s failed although nothing was wrong: %s", what.c_str(), r.what.c_str());
      if (r.kind == ops::NON_STD) violation("C20:fails", "%s threw something that is not a std::exception", what.c_str());
      return r.ok();
    };
    auto either = [&](Obj &o, const TSpec &to, bool ok, const std::string &what) { // the new contents, or after a failure perhaps the old
      TSpec now = o.p->spec();
      if (ok ? !to.same(now) : !to.same(now) && !o.t.same(now))
        violation("C20:value", "%s %s: holds %s: %s", what.c_str(), ok ? "returned normally" : "failed", now.brief().c_str(), to.diff(now).c_str());
      o.t = now;
    };
    if (pool.size() > 5) pool.erase(pool.begin() + (long)draw(WL, pool.size()));
    if (k == 1) { // construct
      TSpec t = spec();
      if (pool.size() && draw(WL, 2)) { // of a class there is already
        gen::Cfg g;
        g.max_bytes = 3000;
        g.big_weight = 0;
        g.only_dt = some().t.dt;
        t = gen::tensor(g);
      }
      Ptr p;
      bool zero = draw(WL, 3) == 2;
      unsigned how = (unsigned)draw(WL, 4);
      std::string what = "make " + t.brief();
      bool ok = run(what, [&] { p = zero ? ops::blank(t.dt, t.shape, t.fortran) : ops::make(t, 0, how); });
      if (zero) {
        t.raw.assign(t.raw.size(), '\0');
        for (auto &s : t.str) s.clear();
      }
      if (ok) {
        check_tensor(*p, t, "C20:value", zero ? "a new tensor" : "a new tensor given values");
        pool.push_back({std::move(p), t});
      }
    } else if (k == 2 || k == 14) { // copy or move construction
      Obj &o = some();
      Ptr p;
      std::string what = (k == 2 ? "copy " : "move ") + o.t.brief();
      TSpec t = o.t;
      if (k == 2) {
        if (run(what, [&] { p = o.p->clone(); })) pool.push_back({std::move(p), t});
      } else {
        size_t i = (size_t)(&o - pool.data());
        bool ok = run(what, [&] { p = o.p->move_out(); });
        if (ok) {
          TSpec other = values(t);
          if (draw(WL, 2)) { // what was moved from can be assigned
            Ptr q = ops::make(other);
            armed = false;
            run("assign to the moved-from tensor", [&] { o.p->assign(*q); });
            check_tensor(*o.p, other, "C20:value", "a tensor assigned after it was moved from");
            o.t = other;
          } else {
            pool.erase(pool.begin() + (long)i);
          }
          pool.push_back({std::move(p), t});
        } else {
          either(pool[i], t, false, what);
        }
      }
    } else if (k == 3 || k == 4) { // assignment, other shapes and orders included
      Obj &o = some();
      Obj *m = mate(o);
      if (!m) continue;
      std::string what = strf("%s %s := %s", k == 3 ? "copy-assign" : "move-assign", o.t.brief().c_str(), m->t.brief().c_str());
      if (k == 3) {
        TSpec to = m->t;
        bool ok = run(what, [&] { o.p->assign(*m->p); });
        either(o, to, ok, what);
      } else {
        TSpec to = m->t;
        Ptr c = m->p->clone();
        bool ok = run(what, [&] { o.p->assign_move(*c); });
        either(o, to, ok, what);
      }
      changes++;
    } else if (k == 5) {
      Obj &o = some();
      std::string what = "self-assign " + o.t.brief();
      bool ok = run(what, [&] { o.p->assign(*o.p); });
      either(o, o.t, ok, what);
    } else if (k == 6) { // one element
      Obj &o = some();
      if (!o.t.count()) continue;
      auto idx = valid_index(o.t, draw(WL, 2));
      uint64_t where = offset(o.t, absolute(o.t, idx));
      TSpec v = cell_of(values(o.t), where), to = o.t;
      if (v.dt == ref::B1 && draw(WL, 2)) { // a number where a boolean is wanted
        bool truth;
        npy::boolean b = boolean_of((unsigned)draw(WL, 24), truth);
        if ((b ? true : false) != truth) violation("C20:boolean", "a boolean given a value that is %s is %s", truth ? "true" : "false", truth ? "false" : "true");
        v.raw.assign(1, (char)b.value);
      }
      set_cell(to, where, v);
      unsigned how = (unsigned)draw(WL, ops::CELL_WAYS);
      std::string what = strf("set %s of %s (spelling %u)", text(idx).c_str(), o.t.brief().c_str(), how);
      bool ok = run(what, [&] { o.p->cell(how, idx, true, v); });
      either(o, to, ok, what);
      changes++;
    } else if (k == 7 || k == 8) { // all values
      Obj &o = some();
      TSpec to = values(o.t);
      unsigned how = (unsigned)draw(WL, 3);
      std::string what = strf("%s %s (way %u)", k == 7 ? "copy values into" : "rewrite", o.t.brief().c_str(), how);
      Ptr q = ops::make(to);
      if (k == 8) armed = false; // through iterators: the program's own doing
      bool ok = run(what, [&] { k == 7 ? o.p->copy_from(*q, how) : o.p->rewrite(to, how); });
      either(o, to, ok, what);
      changes++;
    } else if (k == 9) { // a wrong number of values
      Obj &o = some();
      long n = (long)o.t.count(), delta = pick(WL, std::vector<long>{1, -1, 2, -n, n, 7, n + 1});
      if (!delta || n + delta < 0) delta = 1;
      unsigned how = (unsigned)draw(WL, 3);
      std::string what = strf("%ld values into %s (way %u)", n + delta, o.t.brief().c_str(), how);
      Res r = attempt(what, [&] { o.p->bulk_wrong(delta, how); });
      if (r.ok()) violation("C20:accepts", "%s returned normally", what.c_str());
      if (r.kind == ops::NON_STD) violation("C20:fails", "%s threw something that is not a std::exception", what.c_str());
    } else if (k == 10) { // an index that is none
      Obj &o = some();
      std::vector<int64_t> idx;
      for (auto d : o.t.shape) idx.push_back(d ? (int64_t)draw(WL, d) : 0);
      size_t nd = idx.size();
      bool zero = !o.t.count();
      switch (draw(WL, 4)) {
      case 0:
        if (nd) {
          size_t d = draw(WL, nd);
          idx[d] = (int64_t)o.t.shape[d] + pick(WL, std::vector<int64_t>{0, 1, 100, 2147480000});
        } else {
          idx.push_back(0);
        }
        break;
      case 1:
        if (nd) {
          size_t d = draw(WL, nd);
          idx[d] = -(int64_t)o.t.shape[d] - pick(WL, std::vector<int64_t>{1, 2, 100, 2147480000});
        } else {
          idx.push_back(0);
        }
        break;
      case 2:
        if (!zero || nd) idx.push_back(0);
        break;
      default:
        if (nd) idx.pop_back();
        else idx.assign(2, 0);
      }
      for (auto i : idx)
        if (i > 2147483647ll || i < -2147483648ll) idx[0] = 0; // not an index one can write
      bool valid = idx.size() == nd;
      for (size_t d = 0; valid && d < nd; ++d) valid = idx[d] < (int64_t)o.t.shape[d] && idx[d] >= -(int64_t)o.t.shape[d];
      if (valid) continue;
      unsigned how = (unsigned)draw(WL, ops::CELL_WAYS);
      bool store = draw(WL, 2) && o.t.count();
      TSpec v;
      v.dt = o.t.dt;
      if (store) v = cell_of(o.t, 0);
      std::string what = strf("%s %s of %s (spelling %u)", store ? "set" : "get", text(idx).c_str(), o.t.brief().c_str(), how);
      Res r = attempt(what, [&] { o.p->cell(how, idx, store, v); });
      if (r.ok()) violation("C20:accepts", "%s returned normally", what.c_str());
      if (r.kind == ops::NON_STD) violation("C20:fails", "%s threw something that is not a std::exception", what.c_str());
    } else if (k == 11) { // through a stream
      Obj &o = some();
      std::stringstream s;
      npy::endian_t e = gen::endian();
      std::string what = "save and load " + o.t.brief();
      Ptr p;
      bool ok = run(what, [&] { o.p->save(s, e, 0); if (s) p = ops::load(o.t.dt, s, 0, 0); });
      if (ok && p) {
        check_tensor(*p, ref::canonical(o.t), "C20:value", what);
        pool.push_back({std::move(p), ref::canonical(o.t)});
      }
    } else if (k == 12) { // swap
      Obj &o = some();
      Obj *m = mate(o);
      if (!m) continue;
      armed = false;
      std::string what = strf("swap %s and %s", o.t.brief().c_str(), m->t.brief().c_str());
      run(what, [&] { o.p->swap(*m->p); });
      std::swap(o.t, m->t);
      changes++;
    } else if (k == 13) {
      size_t i = draw(WL, pool.size());
      attempt("destroy " + pool[i].t.brief(), [&] { pool[i].p.reset(); });
      pool.erase(pool.begin() + (long)i);
    } else { // read only
      look(some(), "when asked");
    }
    note_sig(k * 64 + (pool.empty() ? 0 : pool.back().t.dt));
    for (auto &o : pool) check_tensor(*o.p, o.t, "C20:value", "a tensor afterwards");
    for (int i = 0; i < 3 && !pool.empty(); ++i) look(some(), "afterwards");
    if (step >= 1 && changes) nontrivial();
  }
  describe("%zu changes to tensor objects", changes);
}
} // namespace wl
