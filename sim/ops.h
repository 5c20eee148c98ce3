// Typed access to the library under test, behind a type-erased interface, so
// workloads can be written once for all element types, spellings and tensor
// classes. Everything declared here that touches npy:: runs real library code.
#pragma once
#include <cerrno>
#include "codec.h"
#include "core.h"
#include <exception>
#include <istream>
#include <memory>
#include <npy/npy.h>
#include <ostream>
#include <streambuf>

namespace ops {
using ref::DT;
using ref::TSpec;

struct Hdr {
  DT dt = ref::U1;
  npy::endian_t e = npy::endian_t::NATIVE;
  bool fortran = false;
  std::vector<uint64_t> shape;
  size_t max_len = 0;
};
Hdr hdr_of(const npy::header_info &h);
// does h describe t, stored in byte order e?
bool hdr_matches(const Hdr &h, const TSpec &t, bool big, std::string &why);
inline bool is_big(npy::endian_t e) { return e == npy::endian_t::BIG; }

// A tensor object of some class and element type.
struct Any {
  virtual ~Any() {}
  virtual DT dt() const = 0;
  virtual TSpec spec() const = 0;        // through the public accessors; reports inconsistency as a violation
  virtual const void *data() const = 0;
  virtual void save(const std::string &path, npy::endian_t e, unsigned spelling) = 0;
  virtual void save(std::ostream &os, npy::endian_t e, unsigned spelling) = 0;
  virtual void write(npy::npzfilewriter &w, const std::string &name) const = 0;
  virtual void write(npy::npzstringwriter &w, const std::string &name) const = 0;
  virtual std::unique_ptr<Any> clone() const = 0;        // copy construction
  virtual void assign(const Any &o) = 0;                 // copy assignment (same class)
  virtual void assign_move(Any &o) = 0;                  // move assignment
  virtual void copy_from(const Any &o, unsigned how) = 0; // element copy, same size
  // npy::tensor only:
  virtual void cell(unsigned, const std::vector<int64_t> &, bool, TSpec &) {} // one element, in some spelling; the value is v's only one
  virtual void rewrite(const TSpec &, unsigned) {}     // all values, through iterators or the buffer
  virtual void bulk_wrong(long, unsigned) {}           // so many values too many
  virtual void swap(Any &) {}
  virtual std::unique_ptr<Any> move_out() { return nullptr; } // move construction
};
constexpr unsigned CELL_WAYS = 8;
std::unique_ptr<Any> blank(DT dt, const std::vector<uint64_t> &shape, bool fortran); // a new npy::tensor
// flavor: 0 = npy::tensor, 1 = a custom tensor class reading and writing in pieces
std::unique_ptr<Any> make(const TSpec &t, unsigned flavor = 0, unsigned how = 0);
extern size_t piece; // elements per read_values/write_values call of the custom class
// a tensor whose save() throws half way, for rejected writes
struct Thrower {
  size_t emit = 0;
  int where = 0; // 0: save throws after emitting; 1: dtype throws
  size_t ndim() const { return 1; }
  size_t shape(int) const { return 4; }
  bool fortran_order() const { return false; }
  std::string dtype(npy::endian_t) const;
  void save(std::ostream &os, npy::endian_t) const;
};

std::unique_ptr<Any> load(DT dt, const std::string &path, unsigned spelling, unsigned flavor = 0);
std::unique_ptr<Any> load(DT dt, std::istream &is, unsigned spelling, unsigned flavor = 0);
std::unique_ptr<Any> read(npy::npzfilereader &r, DT dt, const std::string &name, unsigned spelling, unsigned flavor = 0);
std::unique_ptr<Any> read(npy::npzstringreader &r, DT dt, const std::string &name, unsigned spelling, unsigned flavor = 0);
Hdr peek(const std::string &path);
Hdr peek(std::istream &is, unsigned spelling);

// ------------------------------------------------------- file/string archives
// An argument that does not outlive the call: nothing may be kept by reference.
struct Gone {
  std::string s;
  explicit Gone(const std::string &o) {
    sim::NoLib nl;
    s = o;
  }
  ~Gone() {
    sim::NoLib nl;
    s.assign(s.size(), '#');
    s.shrink_to_fit();
    std::string().swap(s);
  }
};
extern bool lasting_arguments; // for tensors several threads share
struct Writer {
  std::unique_ptr<npy::npzfilewriter> f;
  std::unique_ptr<npy::npzstringwriter> s;
  void open(const std::string &path, npy::compression_method_t c, npy::endian_t e, unsigned ctor);
  void open_string(npy::compression_method_t c, npy::endian_t e);
  void write(const std::string &name, const Any &t) { Gone n(name); f ? t.write(*f, n.s) : t.write(*s, n.s); }
  void write(const std::string &name, const Thrower &t) { Gone n(name); f ? f->write(n.s, t) : s->write(n.s, t); }
  void close() { f ? f->close() : s->close(); }
  bool is_open() const { return f && f->is_open(); }
  void destroy() { f.reset(); s.reset(); }
  bool alive() const { return f || s; }
};
struct Reader {
  std::unique_ptr<npy::npzfilereader> f;
  std::unique_ptr<npy::npzstringreader> s;
  void open(const std::string &path, unsigned ctor);
  void open_string(const std::string &bytes, unsigned ctor);
  const std::vector<std::string> &keys() { return f ? f->keys() : s->keys(); }
  bool contains(const std::string &name) { Gone g(name); const std::string &n = g.s; return f ? f->contains(n) : s->contains(n); }
  Hdr peek(const std::string &n);
  std::unique_ptr<Any> read(DT dt, const std::string &name, unsigned spelling, unsigned flavor = 0) {
    Gone g(name);
    const std::string &n = g.s;
    return f ? ops::read(*f, dt, n, spelling, flavor) : ops::read(*s, dt, n, spelling, flavor);
  }
  bool is_open() const { return f && f->is_open(); }
  void close() { f->close(); }
  void destroy() { f.reset(); s.reset(); }
  bool alive() const { return f || s; }
  void relocate(); // move it to another object, where the type allows it
};

// ----------------------------------------------------------------- attempts
enum Kind { OK, INVALID_ARGUMENT, BAD_ALLOC, STD_EXCEPTION, NON_STD };
struct Res {
  Kind kind = OK;
  std::string what;
  bool ok() const { return kind == OK; }
};
Res classify(); // call inside a catch block
void log_op(const char *what, const Res &r);
// Runs one library operation; every exception is caught and classified.
// What earlier calls of the caller's may have left in errno: no result may depend on it.
inline int errno_before(uint64_t op) {
  static const int E[] = {0, ERANGE, 0, EINTR, EIO, 0, ENOENT, EINVAL, ERANGE, ENOMEM, EAGAIN};
  return E[op % 11];
}
template <class F> Res attempt(const std::string &what, F f) {
  Res r;
  sim::R->libops++;
  sim::ev("op %s", what.c_str());
  if (!sim::R->own_errno) errno = errno_before(sim::R->libops);
  auto once = [&] {
    try {
      sim::LibScope ls;
      f();
    } catch (...) {
      r = classify();
    }
  };
  if (sim::R->unwinding || (!sim::R->own_errno && sim::R->libops % 17 == 11)) { // in a destructor, while another exception is in flight
    struct Unwound {
      decltype(once) &f;
      ~Unwound() { f(); }
    };
    sim::count("probe.during_unwinding");
    try {
      Unwound u{once};
      throw 0;
    } catch (int) {
    }
  } else {
    once();
  }
  sim::R->op_end_steps = sim::R->steps; // progress, for the bound on C09 runs
  log_op(what.c_str(), r);
  return r;
}
[[noreturn]] void fail_op(const char *cls, const std::string &what, const Res &r);

// ------------------------------------------------------------ caller streams
// A stream buffer standing for whatever a caller may hand to the library.
class SimBuf : public std::streambuf {
public:
  std::string data;          // everything written / to be read
  bool seekable = false;
  int64_t fail_at = -1;      // absolute byte at which input or output fails
  bool fail_throws = false;  // by exception rather than EOF
  uint64_t allow_until = ~0ull; // input beyond this has not arrived yet
  bool over_read = false;
  uint64_t failures = 0;
  bool chunked = true;       // draw chunk sizes; otherwise as much as possible
  size_t out_area = 0;       // size of the put area (0: unbuffered)
  size_t in_area = 4096;
  uint64_t consumed() const { return base_ + (gptr() - eback()); }
  void start_reading(uint64_t pos = 0);
  void start_writing(size_t area);
  std::string written();

protected:
  int_type underflow() override;
  std::streamsize showmanyc() override { return 0; }
  int_type overflow(int_type c) override;
  std::streamsize xsputn(const char *p, std::streamsize n) override;
  int sync() override;
  pos_type seekoff(off_type off, std::ios_base::seekdir d, std::ios_base::openmode m) override;
  pos_type seekpos(pos_type p, std::ios_base::openmode m) override { return seekoff(off_type(p), std::ios_base::beg, m); }

private:
  std::vector<char> in_, out_;
  uint64_t base_ = 0; // position of eback() in data
  uint64_t wpos_ = 0;
  bool push(const char *p, size_t n);
  bool flush_area();
};

} // namespace ops
