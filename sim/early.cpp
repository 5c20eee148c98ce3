// What the library writes and reads before main: a static object's constructor.
// Only a process started by C15 for this purpose does anything here, so that no
// other run has used the library before its own history begins.
#include <complex>
#include <cstdio>
#include <cstdlib>
#include <npy/npy.h>
#include <sstream>
#include <string>
#include <unistd.h>

namespace wl {
namespace {
std::string hex(const std::string &s) {
  std::string o;
  char b[3];
  for (unsigned char c : s) snprintf(b, 3, "%02x", c), o += b;
  return o;
}
template <typename T> void one(std::string &out, npy::npzstringwriter &w, const T &v, const char *name) {
  for (int k = 0; k < 3; ++k) {
    npy::tensor<T> t(k == 2 ? std::vector<size_t>() : std::vector<size_t>{2, 1}, k == 1);
    for (auto &x : t) x = v;
    npy::endian_t e = k == 0 ? npy::endian_t::LITTLE : k == 1 ? npy::endian_t::BIG : npy::endian_t::NATIVE;
    std::ostringstream os;
    npy::save(os, t, e);
    out += std::string(name) + " " + hex(os.str());
    std::istringstream is(os.str());
    npy::tensor<T> back = npy::load<npy::tensor<T>>(is);
    bool same = back.shape() == t.shape() && back.fortran_order() == t.fortran_order();
    for (size_t i = 0; same && i < t.size(); ++i) same = back.values()[i] == v;
    out += same ? " same\n" : " different\n";
    w.write(std::string(name) + char('0' + k), t);
  }
}
} // namespace

std::string early_outcome() {
  std::string out;
  for (int c = 0; c < 2; ++c) try {
      npy::npzstringwriter w(c ? npy::compression_method_t::DEFLATED : npy::compression_method_t::STORED, npy::endian_t::BIG);
      one<std::int8_t>(out, w, -3, "i1");
      one<std::uint8_t>(out, w, 200, "u1");
      one<std::int16_t>(out, w, -1234, "i2");
      one<std::uint16_t>(out, w, 54321, "u2");
      one<std::int32_t>(out, w, -123456789, "i4");
      one<std::uint32_t>(out, w, 3123456789u, "u4");
      one<std::int64_t>(out, w, -1234567890123456789ll, "i8");
      one<std::uint64_t>(out, w, 12345678901234567890ull, "u8");
      one<float>(out, w, 1.5e-7f, "f4");
      one<double>(out, w, -2.25e99, "f8");
      one<std::complex<float>>(out, w, {1.0f, -2.0f}, "c8");
      one<std::complex<double>>(out, w, {-1.0, 2e9}, "c16");
      one<npy::boolean>(out, w, npy::boolean(true), "b1");
      one<std::wstring>(out, w, L"text", "U");
      w.close();
      std::string bytes = w.str();
      out += hex(bytes) + "\n";
      npy::npzstringreader r(bytes);
      for (auto &k : r.keys()) out += k + (r.peek(k).shape.size() ? " 2\n" : " 0\n");
      out += r.read<npy::tensor<float>>("f41").values()[1] == 1.5e-7f ? "read\n" : "misread\n";
      out += "done\n";
    } catch (std::exception &e) {
      out += std::string("threw ") + e.what() + "\n";
    }
  return out;
}

namespace {
struct Early {
  Early() {
    if (!getenv("NPYSIM_BEFORE_MAIN")) return;
    std::string s = early_outcome();
    for (size_t n = 0; n < s.size();) {
      ssize_t k = write(1, s.data() + n, s.size() - n);
      if (k <= 0) _exit(1);
      n += (size_t)k;
    }
    _exit(0);
  }
};
// linked, and so initialised, before the library
#ifndef SIM_TSAN
Early early;
#endif
} // namespace
} // namespace wl
