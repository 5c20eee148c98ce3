// The allocator seam: global operator new/delete are replaced and the malloc
// family is wrapped (ld --wrap), so every allocation the library makes can be
// failed, filled with a chosen pattern, limited and accounted for.
#include "core.h"
#include <cstdio>
#include <cstdlib>
#include <errno.h>
#include <new>
#include <sys/mman.h>

extern "C" {
void *__real_malloc(size_t);
void __real_free(void *);
void *__real_calloc(size_t, size_t);
void *__real_realloc(void *, size_t);
}

namespace sim {
AllocState A;

// Side table of live library blocks: open addressing, tombstones.
namespace {
struct Slot { uintptr_t p; uint64_t n; };
constexpr size_t CAP0 = 1u << 14;
Slot *tab = nullptr;
size_t cap = 0, used = 0, live = 0;
constexpr uintptr_t TOMB = 1;

Slot *map_table(size_t n) {
  void *m = mmap(nullptr, n * sizeof(Slot), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  if (m == MAP_FAILED) abort();
  return static_cast<Slot *>(m);
}
size_t h(uintptr_t p, size_t c) { return (p >> 4) * 0x9E3779B97F4A7C15ull >> 20 & (c - 1); }
void put(uintptr_t p, uint64_t n) {
  if (!tab) { tab = map_table(CAP0); cap = CAP0; }
  if (used * 2 > cap) {
    size_t nc = live * 4 > cap ? cap * 2 : cap;
    Slot *nt = map_table(nc);
    used = 0;
    for (size_t i = 0; i < cap; ++i)
      if (tab[i].p > TOMB) {
        size_t k = h(tab[i].p, nc);
        while (nt[k].p) k = (k + 1) & (nc - 1);
        nt[k] = tab[i];
        ++used;
      }
    munmap(tab, cap * sizeof(Slot));
    tab = nt;
    cap = nc;
  }
  size_t k = h(p, cap);
  while (tab[k].p > TOMB) k = (k + 1) & (cap - 1);
  if (tab[k].p == 0) ++used;
  tab[k] = {p, n};
  ++live;
}
bool take(uintptr_t p, uint64_t *n) {
  if (!tab) return false;
  for (size_t k = h(p, cap);; k = (k + 1) & (cap - 1)) {
    if (tab[k].p == 0) return false;
    if (tab[k].p == p) {
      *n = tab[k].n;
      tab[k].p = TOMB;
      --live;
      return true;
    }
  }
}
} // namespace

inline void sched_alloc(void *p, size_t n) { if (alloc_hook) alloc_hook(p, n); }

void alloc_arm(int64_t fail_at, int64_t len) {
  A.n = 0;
  A.fail_at = fail_at;
  A.fail_len = len;
}
void alloc_disarm() { A.fail_at = -1; }

static bool should_fail(size_t n) {
  uint64_t i = A.n++;
  if (R) R->allocs++;
  if (A.fail_at >= 0 && (int64_t)i >= A.fail_at && (A.fail_len < 0 || (int64_t)i < A.fail_at + A.fail_len)) {
    A.fired++;
    if (R) {
      count("fault.alloc_fail");
      ev("  fault: allocation #%llu of %zu bytes fails", (unsigned long long)i, n);
    }
    return true;
  }
  if (tl_alloc_fail >= 0 && tl_alloc_fail-- == 0) {
    A.fired++;
    count("fault.alloc_fail");
    ev("  fault: allocation of %zu bytes fails", n);
    return true;
  }
  if (n > A.limit || A.live_lib_bytes + n > A.live_cap) {
    A.limit_hits++;
    if (R) {
      count("fault.memory_limit");
      ev("  memory limit refuses %zu bytes", n);
    }
    return true;
  }
  return false;
}
static void *track(void *p, size_t n, bool fill) {
  if (!p) return p;
  put(reinterpret_cast<uintptr_t>(p), n);
  A.live_lib_bytes += n;
  A.live_lib_blocks++;
  A.total_lib_bytes += n;
  if (A.live_lib_bytes > A.peak_lib_bytes) A.peak_lib_bytes = A.live_lib_bytes;
#ifndef SIM_ASAN
  if (fill) memset(p, A.fill, n < 65536 ? n : 65536);
#else
  (void)fill;
#endif
  return p;
}
static void untrack(void *p, bool scribble) {
  uint64_t n;
  if (take(reinterpret_cast<uintptr_t>(p), &n)) {
    A.live_lib_bytes -= n;
    A.live_lib_blocks--;
#ifndef SIM_ASAN
    if (scribble) memset(p, 0xDD, n < 65536 ? n : 65536);
#else
    (void)scribble;
#endif
  }
}

static void *lib_alloc(size_t n, size_t align) {
  bool lib = lib_depth > 0;
  if (lib) {
    NoLib nl;
    if (should_fail(n)) return nullptr;
  }
  void *p = align > 16 ? aligned_alloc(align, (n + align - 1) / align * align) : __real_malloc(n ? n : 1);
  if (lib) {
    NoLib nl;
    track(p, n, true);
  }
  sched_alloc(p, n);
  return p;
}
static void lib_free(void *p) {
  if (!p) return;
  if (free_hook) free_hook(p);
  untrack(p, true);
  __real_free(p);
}
} // namespace sim

extern "C" {
void *__wrap_malloc(size_t n) {
  void *p = sim::lib_alloc(n, 0);
  if (!p) errno = ENOMEM;
  return p;
}
void __wrap_free(void *p) { sim::lib_free(p); }
void *__wrap_calloc(size_t a, size_t b) {
  if (b && a > SIZE_MAX / b) { errno = ENOMEM; return nullptr; }
  void *p = sim::lib_alloc(a * b, 0);
  if (p) memset(p, 0, a * b);
  else errno = ENOMEM;
  return p;
}
void *__wrap_realloc(void *q, size_t n) {
  if (sim::lib_depth > 0) {
    sim::NoLib nl;
    if (sim::should_fail(n)) { errno = ENOMEM; return nullptr; }
  }
  bool lib = sim::lib_depth > 0;
  sim::NoLib nl;
  if (q) sim::untrack(q, false);
  void *p = __real_realloc(q, n);
  if (lib) sim::track(p, n, false);
  sim::sched_alloc(p, n);
  return p;
}
}

void *operator new(size_t n) {
  void *p = sim::lib_alloc(n, 0);
  if (!p) throw std::bad_alloc();
  return p;
}
void *operator new[](size_t n) { return operator new(n); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return sim::lib_alloc(n, 0); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return sim::lib_alloc(n, 0); }
void *operator new(size_t n, std::align_val_t a) {
  void *p = sim::lib_alloc(n, (size_t)a);
  if (!p) throw std::bad_alloc();
  return p;
}
void *operator new[](size_t n, std::align_val_t a) { return operator new(n, a); }
void *operator new(size_t n, std::align_val_t a, const std::nothrow_t &) noexcept { return sim::lib_alloc(n, (size_t)a); }
void *operator new[](size_t n, std::align_val_t a, const std::nothrow_t &) noexcept { return sim::lib_alloc(n, (size_t)a); }
void operator delete(void *p) noexcept { sim::lib_free(p); }
void operator delete[](void *p) noexcept { sim::lib_free(p); }
void operator delete(void *p, size_t) noexcept { sim::lib_free(p); }
void operator delete[](void *p, size_t) noexcept { sim::lib_free(p); }
void operator delete(void *p, const std::nothrow_t &) noexcept { sim::lib_free(p); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { sim::lib_free(p); }
void operator delete(void *p, std::align_val_t) noexcept { sim::lib_free(p); }
void operator delete[](void *p, std::align_val_t) noexcept { sim::lib_free(p); }
void operator delete(void *p, size_t, std::align_val_t) noexcept { sim::lib_free(p); }
void operator delete[](void *p, size_t, std::align_val_t) noexcept { sim::lib_free(p); }
