#include "ops.h"
#include <complex>
#include <cxxabi.h>
#include <sstream>
#include <typeinfo>
#include <type_traits>

namespace ops {
using namespace sim;
size_t piece = 7;

namespace {
template <class T> constexpr DT dt_of();
template <> constexpr DT dt_of<int8_t>() { return ref::I1; }
template <> constexpr DT dt_of<uint8_t>() { return ref::U1; }
template <> constexpr DT dt_of<int16_t>() { return ref::I2; }
template <> constexpr DT dt_of<uint16_t>() { return ref::U2; }
template <> constexpr DT dt_of<int32_t>() { return ref::I4; }
template <> constexpr DT dt_of<uint32_t>() { return ref::U4; }
template <> constexpr DT dt_of<int64_t>() { return ref::I8; }
template <> constexpr DT dt_of<uint64_t>() { return ref::U8; }
template <> constexpr DT dt_of<float>() { return ref::F4; }
template <> constexpr DT dt_of<double>() { return ref::F8; }
template <> constexpr DT dt_of<std::complex<float>>() { return ref::C8; }
template <> constexpr DT dt_of<std::complex<double>>() { return ref::C16; }
template <> constexpr DT dt_of<npy::boolean>() { return ref::B1; }
template <> constexpr DT dt_of<std::wstring>() { return ref::UN; }

template <class T> struct Tag { using type = T; };
template <class F> auto with_type(DT d, F f) {
  switch (d) {
  case ref::I1: return f(Tag<int8_t>());
  case ref::U1: return f(Tag<uint8_t>());
  case ref::I2: return f(Tag<int16_t>());
  case ref::U2: return f(Tag<uint16_t>());
  case ref::I4: return f(Tag<int32_t>());
  case ref::U4: return f(Tag<uint32_t>());
  case ref::I8: return f(Tag<int64_t>());
  case ref::U8: return f(Tag<uint64_t>());
  case ref::F4: return f(Tag<float>());
  case ref::F8: return f(Tag<double>());
  case ref::C8: return f(Tag<std::complex<float>>());
  case ref::C16: return f(Tag<std::complex<double>>());
  case ref::B1: return f(Tag<npy::boolean>());
  default: return f(Tag<std::wstring>());
  }
}

DT from_npy(npy::data_type_t d) {
  switch (d) {
  case npy::data_type_t::INT8: return ref::I1;
  case npy::data_type_t::UINT8: return ref::U1;
  case npy::data_type_t::INT16: return ref::I2;
  case npy::data_type_t::UINT16: return ref::U2;
  case npy::data_type_t::INT32: return ref::I4;
  case npy::data_type_t::UINT32: return ref::U4;
  case npy::data_type_t::INT64: return ref::I8;
  case npy::data_type_t::UINT64: return ref::U8;
  case npy::data_type_t::FLOAT32: return ref::F4;
  case npy::data_type_t::FLOAT64: return ref::F8;
  case npy::data_type_t::COMPLEX64: return ref::C8;
  case npy::data_type_t::COMPLEX128: return ref::C16;
  case npy::data_type_t::BOOL: return ref::B1;
  case npy::data_type_t::UNICODE_STRING: return ref::UN;
  }
  return ref::NDT;
}
npy::data_type_t to_npy(DT d) {
  for (int i = 0; i <= (int)npy::data_type_t::UNICODE_STRING; ++i)
    if (from_npy((npy::data_type_t)i) == d) return (npy::data_type_t)i;
  return npy::data_type_t::INT8;
}

// Custom tensor: contiguous storage of its own, transferred in pieces.
template <class T> class Chunky {
public:
  std::vector<size_t> shape_;
  bool fortran_ = false;
  size_t n_ = 0;
  std::unique_ptr<T[]> v_;
  Chunky() {}
  Chunky(const std::vector<size_t> &s, bool f) : shape_(s), fortran_(f) {
    n_ = 1;
    for (auto d : s)
      if (d == 0) n_ = 0;
    if (n_)
      for (auto d : s)
        if (__builtin_mul_overflow(n_, d, &n_)) throw std::bad_alloc();
    v_.reset(new T[n_]());
  }
  Chunky(const Chunky &o) : Chunky(o.shape_, o.fortran_) { std::copy(o.v_.get(), o.v_.get() + n_, v_.get()); }
  Chunky(Chunky &&) = default;
  Chunky &operator=(Chunky &&) = default;
  Chunky &operator=(const Chunky &o) { return *this = Chunky(o); }
  size_t ndim() const { return shape_.size(); }
  size_t shape(int i) const { return shape_[i]; }
  bool fortran_order() const { return fortran_; }
  std::string dtype(npy::endian_t e) const {
    if constexpr (std::is_same<T, std::wstring>::value) {
      size_t m = 0;
      for (size_t i = 0; i < n_; ++i) m = std::max(m, v_[i].size());
      return (is_big(e) ? ">U" : "<U") + std::to_string(m);
    } else {
      return npy::to_dtype(to_npy(dt_of<T>()), e);
    }
  }
  void save(std::ostream &os, npy::endian_t e) const {
    size_t k = std::is_same<T, std::wstring>::value ? n_ : piece;
    for (size_t i = 0; i < n_; i += k) npy::write_values(os, v_.get() + i, std::min(k, n_ - i), e);
  }
  static Chunky load(std::istream &is, const npy::header_info &info) {
    if (from_npy(info.dtype) != dt_of<T>()) throw std::runtime_error("custom tensor: wrong element type");
    Chunky r(info.shape, info.fortran_order);
    for (size_t i = 0; i < r.n_; i += piece) npy::read_values(is, r.v_.get() + i, std::min(piece, r.n_ - i), info);
    return r;
  }
};

template <class T> const T *ptr(const npy::tensor<T> &t) { return t.data(); }
template <class T> const T *ptr(const Chunky<T> &t) { return t.v_.get(); }
template <class T> size_t count_of(const npy::tensor<T> &t) { return t.values().size(); }
template <class T> size_t count_of(const Chunky<T> &t) { return t.n_; }

template <class TEN, class T> TSpec spec_of(const TEN &t) {
  NoLib nl;
  TSpec s;
  s.dt = dt_of<T>();
  s.fortran = t.fortran_order();
  for (size_t i = 0; i < t.ndim(); ++i) s.shape.push_back(t.shape((int)i));
  size_t n = count_of(t);
  // the library's own invariant: as many values as the shape says
  unsigned __int128 want = 1;
  bool zero = false;
  for (auto d : s.shape) {
    if (d == 0) zero = true;
    if (want < ((unsigned __int128)1 << 64)) want *= d;
  }
  if (zero) want = 0;
  if (want != n)
    violation("inconsistent-tensor", "a tensor of shape %s holds %zu values", s.brief().c_str(), n);
  const T *p = ptr(t);
  if constexpr (std::is_same<T, std::wstring>::value) {
    for (size_t i = 0; i < n; ++i) {
      std::u32string u;
      for (wchar_t c : p[i]) u.push_back((char32_t)c);
      s.str.push_back(u);
    }
  } else {
    if (n) s.raw.assign(reinterpret_cast<const char *>(p), n * sizeof(T));
  }
  if constexpr (std::is_same<TEN, npy::tensor<T>>::value) {
    const TEN &c = t;
    if ((size_t)(c.end() - c.begin()) != n || (n && (&*c.begin() != p || c.values().data() != p)))
      violation("inconsistent-tensor", "iterators and buffer of a tensor of %s disagree", s.brief().c_str());
    if (t.size() != n || t.ndim() != t.shape().size() || from_npy(t.dtype()) != s.dt)
      violation("inconsistent-tensor", "accessors of a tensor of %s disagree", s.brief().c_str());
  }
  return s;
}

template <class T> std::vector<T> elements(const TSpec &t) {
  std::vector<T> v(t.count());
  if constexpr (std::is_same<T, std::wstring>::value) {
    for (size_t i = 0; i < v.size(); ++i)
      for (char32_t c : t.str[i]) v[i].push_back((wchar_t)c);
  } else {
    if (!v.empty()) memcpy(static_cast<void *>(v.data()), t.raw.data(), v.size() * sizeof(T));
  }
  return v;
}

template <class TEN, size_t... I> decltype(auto) at_(TEN &t, const std::vector<int32_t> &i, std::index_sequence<I...>) { return t(i[I]...); }
// the variadic spelling, for as many indices as a program would write out
template <class T, class TEN> T *at(TEN &t, const std::vector<int32_t> &i) {
  switch (i.size()) {
  case 1: return const_cast<T *>(&at_(t, i, std::make_index_sequence<1>()));
  case 2: return const_cast<T *>(&at_(t, i, std::make_index_sequence<2>()));
  case 3: return const_cast<T *>(&at_(t, i, std::make_index_sequence<3>()));
  case 4: return const_cast<T *>(&at_(t, i, std::make_index_sequence<4>()));
  case 5: return const_cast<T *>(&at_(t, i, std::make_index_sequence<5>()));
  }
  return nullptr;
}

template <class TEN, class T> struct AnyT : Any {
  TEN t;
  explicit AnyT(TEN &&x) : t(std::move(x)) {}
  explicit AnyT(const TEN &x) : t(x) {}
  static constexpr bool native = std::is_same<TEN, npy::tensor<T>>::value;
  DT dt() const override { return dt_of<T>(); }
  TSpec spec() const override { return spec_of<TEN, T>(t); }
  const void *data() const override { return ptr(t); }
  void save(const std::string &path, npy::endian_t e, unsigned sp) override {
    if constexpr (native) {
      switch (sp % 4) {
      case 1: return npy::save<TEN>(path, t, e);
      case 2: return t.save(path, e);
      case 3:
        if (e == npy::endian_t::NATIVE) return npy::save(path, t);
        break;
      }
    }
    npy::save(path, t, e);
  }
  void save(std::ostream &os, npy::endian_t e, unsigned sp) override {
    if (sp % 3 == 2) {
      std::vector<size_t> shape;
      for (size_t i = 0; i < t.ndim(); ++i) shape.push_back(t.shape((int)i));
      npy::write_npy_header(os, t.dtype(e), t.fortran_order(), shape);
      t.save(os, e);
      return;
    }
    if constexpr (native) {
      if (sp % 3 == 1) return npy::save<T, npy::tensor>(os, t, e);
    }
    npy::save(os, t, e);
  }
  template <class W> void write_to(W &w, const std::string &n) const {
    if (lasting_arguments || sim::R->libops % 2 || count_of(t) > 4096) {
      w.write(n, t);
      return;
    }
    struct Copy { // changed and destroyed right afterwards
      std::unique_ptr<TEN> p;
      explicit Copy(const TEN &t) {
        NoLib nl;
        p.reset(new TEN(t));
      }
      ~Copy() {
        NoLib nl;
        T *v = const_cast<T *>(ptr(*p));
        for (size_t i = 0, k = count_of(*p); i < k; ++i) v[i] = T();
        p.reset();
      }
    } c(t);
    w.write(n, *c.p);
  }
  void write(npy::npzfilewriter &w, const std::string &n) const override { write_to(w, n); }
  void write(npy::npzstringwriter &w, const std::string &n) const override { write_to(w, n); }
  std::unique_ptr<Any> clone() const override {
    TEN c(t);
    NoLib nl;
    return std::unique_ptr<Any>(new AnyT(std::move(c)));
  }
  void assign(const Any &o) override { t = static_cast<const AnyT &>(o).t; }
  void assign_move(Any &o) override { t = std::move(static_cast<AnyT &>(o).t); }
  void copy_from(const Any &o, unsigned how) override {
    if constexpr (native) {
      auto &src = static_cast<const AnyT &>(o).t;
      switch (how % 3) {
      case 0: return t.copy_from(src.data(), src.size());
      case 1: return t.copy_from(src.values());
      default: {
        std::vector<T> v(src.values());
        return t.move_from(std::move(v));
      }
      }
    } else {
      t = static_cast<const AnyT &>(o).t;
    }
  }
  void cell(unsigned how, const std::vector<int64_t> &idx, bool store, TSpec &v) override {
    if constexpr (native) {
      std::vector<int32_t> i;
      std::vector<size_t> u;
      bool negative = false;
      T x{};
      {
        NoLib nl;
        for (auto k : idx) i.push_back((int32_t)k), u.push_back((size_t)k), negative |= k < 0;
        if (store) x = elements<T>(v)[0];
      }
      if (negative && (how == 3 || how == 4 || how == 6)) how = 0; // those take no negative indices
      if ((how == 1 || how == 2) && (i.empty() || i.size() > 5)) how = 0;
      const TEN &c = t;
      T *p = nullptr;
      switch (how) {
      case 1: p = at<T>(t, i); break;
      case 2: p = store ? at<T>(t, i) : at<T>(c, i); break;
      case 3: p = &t(u); break;
      case 4: p = store ? &t(u) : const_cast<T *>(&c(u)); break;
      case 5: p = t.data() + c.ravel(i); break;
      case 6: p = &*(t.begin() + (long)c.ravel(u)); break;
      case 7: p = const_cast<T *>(&c.values()[c.ravel(i)]); break;
      default:
        if (store) return t.set(i, x);
        p = const_cast<T *>(&c.get(i));
      }
      if (store) {
        *p = x;
      } else {
        NoLib nl;
        if constexpr (std::is_same<T, std::wstring>::value) {
          v.str.assign(1, std::u32string());
          for (wchar_t w : *p) v.str[0].push_back((char32_t)w);
        } else {
          v.raw.assign(reinterpret_cast<const char *>(p), sizeof(T));
        }
      }
    }
  }
  void rewrite(const TSpec &s, unsigned how) override {
    if constexpr (native) {
      std::vector<T> v;
      {
        NoLib nl;
        v = elements<T>(s);
      }
      if (how % 3 == 0) std::copy(v.begin(), v.end(), t.begin());
      else if (how % 3 == 1) std::copy(v.begin(), v.end(), t.data());
      else {
        auto k = v.begin();
        for (auto &x : t) x = *k++;
      }
    }
  }
  void bulk_wrong(long delta, unsigned how) override {
    if constexpr (native) {
      std::vector<T> v;
      {
        NoLib nl;
        v.resize((size_t)((long)t.size() + delta));
      }
      switch (how % 3) {
      case 0: return t.copy_from(v.data(), v.size());
      case 1: return t.copy_from(v);
      default: return t.move_from(std::move(v));
      }
    }
  }
  void swap(Any &o) override { std::swap(t, static_cast<AnyT &>(o).t); }
  std::unique_ptr<Any> move_out() override {
    TEN c(std::move(t));
    NoLib nl;
    return std::unique_ptr<Any>(new AnyT(std::move(c)));
  }
};

template <class TEN, class T> std::unique_ptr<Any> wrap(TEN &&t) {
  NoLib nl;
  return std::unique_ptr<Any>(new AnyT<TEN, T>(std::move(t)));
}
} // namespace

Hdr hdr_of(const npy::header_info &h) {
  NoLib nl;
  Hdr r;
  r.dt = from_npy(h.dtype);
  r.e = h.endianness;
  r.fortran = h.fortran_order;
  for (auto d : h.shape) r.shape.push_back(d);
  r.max_len = h.max_element_length;
  return r;
}
bool hdr_matches(const Hdr &h, const TSpec &t, bool big, std::string &why) {
  if (h.dt != t.dt) return why = strf("element type %s instead of %s", h.dt < ref::NDT ? ref::DT_NAME[h.dt] : "?", ref::DT_NAME[t.dt]), false;
  if (h.fortran != t.fortran) return why = "wrong memory order", false;
  if (h.shape != t.shape) return why = strf("wrong shape (%zu dims instead of %zu, or differing sizes)", h.shape.size(), t.shape.size()), false;
  bool one = t.dt != ref::UN && ref::dt_size(t.dt) == 1;
  bool hbig = h.e == npy::endian_t::NATIVE ? npy::native_endian() == npy::endian_t::BIG : is_big(h.e);
  if (!one && hbig != big) return why = "wrong byte order", false;
  if (t.dt == ref::UN && h.max_len < ref::max_len(t)) return why = strf("max_element_length %zu for strings of %zu", h.max_len, ref::max_len(t)), false;
  return true;
}

std::string Thrower::dtype(npy::endian_t) const {
  if (where == 1) throw std::runtime_error("tensor refuses to give its dtype");
  return "|u1";
}
void Thrower::save(std::ostream &os, npy::endian_t) const {
  for (size_t i = 0; i < emit; ++i) os.put((char)i);
  throw std::runtime_error("tensor refuses to be saved");
}

std::unique_ptr<Any> make(const TSpec &s, unsigned flavor, unsigned how) {
  return with_type(s.dt, [&](auto tag) -> std::unique_ptr<Any> {
    using T = typename decltype(tag)::type;
    std::vector<size_t> shape;
    std::vector<T> v;
    {
      NoLib nl;
      shape.assign(s.shape.begin(), s.shape.end());
      v = elements<T>(s);
    }
    if (flavor == 0) {
      npy::tensor<T> t(shape, s.fortran);
      switch (how % 4) {
      case 0: t.copy_from(v); break;
      case 1: t.copy_from(v.data(), v.size()); break;
      case 2: t.move_from(std::move(v)); break;
      default: std::copy(v.begin(), v.end(), t.begin());
      }
      return wrap<npy::tensor<T>, T>(std::move(t));
    }
    Chunky<T> t(shape, s.fortran);
    std::copy(v.begin(), v.end(), t.v_.get());
    return wrap<Chunky<T>, T>(std::move(t));
  });
}

std::unique_ptr<Any> blank(DT dt, const std::vector<uint64_t> &sh, bool fortran) {
  return with_type(dt, [&](auto tag) -> std::unique_ptr<Any> {
    using T = typename decltype(tag)::type;
    std::vector<size_t> shape;
    {
      NoLib nl;
      shape.assign(sh.begin(), sh.end());
    }
    if (!fortran) return wrap<npy::tensor<T>, T>(npy::tensor<T>(shape));
    return wrap<npy::tensor<T>, T>(npy::tensor<T>(shape, fortran));
  });
}
std::unique_ptr<Any> load(DT dt, const std::string &path, unsigned sp, unsigned flavor) {
  return with_type(dt, [&](auto tag) -> std::unique_ptr<Any> {
    using T = typename decltype(tag)::type;
    if (flavor) return wrap<Chunky<T>, T>(npy::load<Chunky<T>>(path));
    switch (sp % 3) {
    case 0: return wrap<npy::tensor<T>, T>(npy::load<npy::tensor<T>>(path));
    case 1: return wrap<npy::tensor<T>, T>(npy::load<T, npy::tensor>(path));
    default: return wrap<npy::tensor<T>, T>(npy::tensor<T>::from_file(path));
    }
  });
}
std::unique_ptr<Any> load(DT dt, std::istream &is, unsigned sp, unsigned flavor) {
  return with_type(dt, [&](auto tag) -> std::unique_ptr<Any> {
    using T = typename decltype(tag)::type;
    if (flavor) return wrap<Chunky<T>, T>(npy::load<Chunky<T>>(is));
    if (sp % 2 == 1) {
      npy::header_info h = npy::read_npy_header(is);
      if (h.shape.size() % 2) { // a header the caller made
        npy::header_info own(h.dtype, h.endianness, h.fortran_order, h.shape);
        own.max_element_length = h.max_element_length;
        return wrap<npy::tensor<T>, T>(npy::tensor<T>::load(is, own));
      }
      return wrap<npy::tensor<T>, T>(npy::tensor<T>::load(is, h));
    }
    return wrap<npy::tensor<T>, T>(npy::load<npy::tensor<T>>(is));
  });
}
template <class RD> static std::unique_ptr<Any> read_any(RD &r, DT dt, const std::string &name, unsigned sp, unsigned flavor) {
  return with_type(dt, [&](auto tag) -> std::unique_ptr<Any> {
    using T = typename decltype(tag)::type;
    if (flavor) return wrap<Chunky<T>, T>(r.template read<Chunky<T>>(name));
    if (sp % 2 == 1) return wrap<npy::tensor<T>, T>(r.template read<T, npy::tensor>(name));
    return wrap<npy::tensor<T>, T>(r.template read<npy::tensor<T>>(name));
  });
}
std::unique_ptr<Any> read(npy::npzfilereader &r, DT dt, const std::string &n, unsigned sp, unsigned fl) { return read_any(r, dt, n, sp, fl); }
std::unique_ptr<Any> read(npy::npzstringreader &r, DT dt, const std::string &n, unsigned sp, unsigned fl) { return read_any(r, dt, n, sp, fl); }
Hdr peek(const std::string &path) { return hdr_of(npy::peek(path)); }
Hdr peek(std::istream &is, unsigned sp) { return hdr_of(sp % 2 ? npy::read_npy_header(is) : npy::peek(is)); }
bool lasting_arguments = false;
Hdr Reader::peek(const std::string &name) {
  Gone g(name);
  const std::string &n = g.s;
   return hdr_of(f ? f->peek(n) : s->peek(n)); }

void Writer::open(const std::string &p, npy::compression_method_t c, npy::endian_t e, unsigned ctor) {
  Gone g(p);
  const std::string &path = g.s;
  switch (ctor % 3) {
  case 0: f.reset(new npy::npzfilewriter(path, c, e)); break;
  case 1: f.reset(new npy::npzfilewriter(path.c_str(), c, e)); break;
  default: f.reset(new npy::npzfilewriter(std::filesystem::path(path), c, e));
  }
}
void Writer::open_string(npy::compression_method_t c, npy::endian_t e) { s.reset(new npy::npzstringwriter(c, e)); }
void Reader::open(const std::string &p, unsigned ctor) {
  Gone g(p);
  const std::string &path = g.s;
  switch (ctor % 3) {
  case 0: f.reset(new npy::npzfilereader(path)); break;
  case 1: f.reset(new npy::npzfilereader(path.c_str())); break;
  default: f.reset(new npy::npzfilereader(std::filesystem::path(path)));
  }
}
void Reader::open_string(const std::string &bytes, unsigned ctor) {
  if (ctor % 2) {
    std::string copy(bytes);
    s.reset(new npy::npzstringreader(std::move(copy)));
  } else {
    Gone g(bytes);
    s.reset(new npy::npzstringreader(g.s));
  }
}

template <class R> static void relocate_one(std::unique_ptr<R> &r) {
  if constexpr (std::is_move_constructible<R>::value)
    if (r) r.reset(new R(std::move(*r)));
}
void Reader::relocate() {
  relocate_one(f);
  relocate_one(s);
}

// ------------------------------------------------------------------ attempts
Res classify() {
  NoLib nl;
  Res r;
  try {
    throw;
  } catch (const std::invalid_argument &e) {
    r.kind = INVALID_ARGUMENT;
    r.what = std::string("std::invalid_argument: ") + e.what();
  } catch (const std::bad_alloc &e) {
    r.kind = BAD_ALLOC;
    r.what = "std::bad_alloc";
  } catch (const std::exception &e) {
    r.kind = STD_EXCEPTION;
    int st;
    char *n = abi::__cxa_demangle(typeid(e).name(), nullptr, nullptr, &st);
    r.what = std::string(n ? n : "?") + ": " + e.what();
    ::free(n);
  } catch (...) {
    r.kind = NON_STD;
    r.what = "an exception not derived from std::exception";
  }
  return r;
}
void log_op(const char *what, const Res &r) {
  NoLib nl;
  if (r.ok()) ev("  -> ok");
  else ev("  -> threw %s", r.what.c_str());
  if (r.kind == NON_STD) violation("non-std-exception", "%s threw something not derived from std::exception", what);
}
void fail_op(const char *cls, const std::string &what, const Res &r) {
  violation(cls, "%s: %s", what.c_str(), r.ok() ? "returned normally" : r.what.c_str());
}

// ------------------------------------------------------------------- streams
static size_t draw_chunk(size_t maxn) {
  static const std::vector<size_t> c = {4096, 1, 2, 3, 7, 64, 511, 1000};
  return std::min(maxn, pick(IO, c));
}
void SimBuf::start_reading(uint64_t pos) {
  NoLib nl;
  base_ = pos;
  in_.assign(in_area, 0);
  setg(in_.data(), in_.data(), in_.data());
}
SimBuf::int_type SimBuf::underflow() {
  NoLib nl;
  if (gptr() < egptr()) return traits_type::to_int_type(*gptr());
  uint64_t pos = base_ + (gptr() - eback());
  base_ = pos;
  setg(in_.data(), in_.data(), in_.data());
  if (fail_at >= 0 && pos >= (uint64_t)fail_at) {
    failures++;
    count("fault.stream_read");
    ev("  stream: read at %llu fails%s", (unsigned long long)pos, fail_throws ? " by exception" : "");
    if (fail_throws) throw std::runtime_error("stream buffer: simulated device error");
    return traits_type::eof();
  }
  if (pos >= data.size()) return traits_type::eof();
  if (pos >= allow_until) {
    over_read = true;
    ev("  stream: asked for byte %llu before it has arrived", (unsigned long long)pos);
  }
  uint64_t lim = data.size();
  if (fail_at >= 0) lim = std::min<uint64_t>(lim, fail_at);
  if (pos < allow_until) lim = std::min(lim, allow_until);
  size_t n = std::min<uint64_t>(in_.size(), lim - pos);
  if (chunked) {
    size_t k = draw_chunk(n);
    if (k < n) count("fault.stream_short");
    n = k;
  }
  memcpy(in_.data(), data.data() + pos, n);
  setg(in_.data(), in_.data(), in_.data() + n);
  return traits_type::to_int_type(*gptr());
}
void SimBuf::start_writing(size_t area) {
  NoLib nl;
  out_area = area;
  out_.assign(area, 0);
  if (area) setp(out_.data(), out_.data() + area);
  else setp(nullptr, nullptr);
  wpos_ = data.size();
}
bool SimBuf::push(const char *p, size_t n) {
  NoLib nl;
  size_t k = n;
  bool fail = false;
  if (fail_at >= 0 && wpos_ + n > (uint64_t)fail_at) {
    k = wpos_ >= (uint64_t)fail_at ? 0 : (size_t)(fail_at - wpos_);
    fail = true;
  }
  if (wpos_ + k > data.size()) data.resize(wpos_ + k);
  memcpy(&data[0] + wpos_, p, k);
  wpos_ += k;
  if (fail) {
    failures++;
    count("fault.stream_write");
    ev("  stream: write at %llu fails%s", (unsigned long long)wpos_, fail_throws ? " by exception" : "");
    if (fail_throws) throw std::runtime_error("stream buffer: simulated device error");
  }
  return !fail;
}
bool SimBuf::flush_area() {
  if (!out_area) return true;
  size_t n = pptr() - pbase();
  std::string tmp(pbase(), n);
  setp(out_.data(), out_.data() + out_area);
  return push(tmp.data(), n);
}
SimBuf::int_type SimBuf::overflow(int_type c) {
  NoLib nl;
  if (!flush_area()) return traits_type::eof();
  if (!traits_type::eq_int_type(c, traits_type::eof())) {
    char ch = traits_type::to_char_type(c);
    if (out_area) {
      *pptr() = ch;
      pbump(1);
    } else if (!push(&ch, 1)) {
      return traits_type::eof();
    }
  }
  return traits_type::not_eof(c);
}
std::streamsize SimBuf::xsputn(const char *p, std::streamsize n) {
  if (out_area) return std::streambuf::xsputn(p, n);
  NoLib nl;
  uint64_t before = wpos_;
  push(p, n);
  return (std::streamsize)(wpos_ - before);
}
int SimBuf::sync() {
  NoLib nl;
  return flush_area() ? 0 : -1;
}
std::string SimBuf::written() {
  NoLib nl;
  flush_area();
  return data;
}
SimBuf::pos_type SimBuf::seekoff(off_type off, std::ios_base::seekdir d, std::ios_base::openmode m) {
  NoLib nl;
  if (!seekable) return pos_type(off_type(-1));
  if (!(m & std::ios_base::in)) flush_area();
  int64_t cur = (m & std::ios_base::in) ? (int64_t)consumed() : (int64_t)(wpos_ + (out_area ? pptr() - pbase() : 0));
  int64_t t = d == std::ios_base::beg ? off : d == std::ios_base::cur ? cur + off : (int64_t)data.size() + off;
  if (t < 0 || t > (int64_t)data.size()) return pos_type(off_type(-1));
  if (t == cur) return pos_type(t);
  if (m & std::ios_base::in) {
    base_ = t;
    setg(in_.data(), in_.data(), in_.data());
  } else {
    wpos_ = t;
  }
  return pos_type(t);
}
} // namespace ops
