#include "sched.h"
#ifdef SIM_TSAN
#include <atomic>
#include <cxxabi.h>
#include <dlfcn.h>
#include <errno.h>
#include <linux/futex.h>
#include <locale>
#include <map>
#include <pthread.h>
#include <sched.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <unistd.h>

extern "C" char __executable_start;
extern "C" char etext;

namespace sim {
ThreadStats thread_stats;
namespace {
constexpr int MAXT = 6; // 0 is the controlling thread
using Clock = uint32_t;
struct VC {
  Clock c[MAXT] = {};
  void join(const VC &o) {
    for (int i = 0; i < MAXT; ++i)
      if (o.c[i] > c[i]) c[i] = o.c[i];
  }
};
enum State { READY, BLOCKED, DONE };
struct Thr {
  pthread_t h;
  std::atomic<int> go{0};
  State st = READY;
  uintptr_t waits_for = 0;
  VC vc;
  uintptr_t lo = 0, hi = 0; // stack
  const std::function<void()> *body = nullptr;
};
Thr T[MAXT];
int nthr = 0;
bool active = false;
thread_local int me = 0;
int64_t countdown = 0;
unsigned mag = 0;
uint64_t nswitch = 0;
pthread_key_t exit_key;

void sem_wait_(std::atomic<int> &s) {
  while (s.load() == 0) syscall(SYS_futex, reinterpret_cast<int *>(&s), FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0);
  s.store(0);
}
void sem_post_(std::atomic<int> &s) {
  s.store(1);
  syscall(SYS_futex, reinterpret_cast<int *>(&s), FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0);
}
void next_countdown() {
  if (mag == 0 || nswitch > 5000) { countdown = INT64_MAX; return; }
  unsigned k = (unsigned)draw(SC, mag + 1);
  countdown = 1 + (int64_t)draw(SC, 1ull << k);
}
int pick_other() {
  int c[MAXT], n = 0;
  for (int i = 1; i <= nthr; ++i)
    if (i != me && T[i].st == READY) c[n++] = i;
  if (!n) return 0;
  return c[draw(SC, n)];
}
void hand_over(int to) {
  int self = me;
  sem_post_(T[to].go);
  sem_wait_(T[self].go);
}
// the calling thread may continue or another one may run first
void maybe_switch(const char *what, bool inside) {
  NoLib nl;
  next_countdown();
  int to = pick_other();
  if (!to) return;
  nswitch++;
  R->switches++;
  if (inside) thread_stats.switches_inside++;
  ev("   [switch %d -> %d at %s]", me, to, what);
  hand_over(to);
}
void block(uintptr_t key, const char *what) {
  NoLib nl;
  Thr &t = T[me];
  t.st = BLOCKED;
  t.waits_for = key;
  thread_stats.blocked++;
  int to = pick_other();
  if (!to) violation("C09:deadlock", "every thread waits for a lock (the last one for %s)", what);
  ev("   [thread %d waits for %s, %d runs]", me, what, to);
  hand_over(to);
}
void wake(uintptr_t key) {
  for (int i = 1; i <= nthr; ++i)
    if (T[i].st == BLOCKED && T[i].waits_for == key) T[i].st = READY;
}
inline bool on() { return active && me > 0; }
inline bool tracked() { return on() && lib_depth > 0; }

// ------------------------------------------------------------------ shadow
struct Cell {
  Clock w = 0, r[MAXT] = {};
  uint32_t wpc = 0;
  uint8_t wt = 0, wm = 0, rm[MAXT] = {};
};
struct Page {
  uintptr_t id = 0; // address >> 12, 0 = free slot
  Cell u;           // all 512 cells, unless expanded
  Cell *cells = nullptr;
};
constexpr size_t PCAP = 1u << 18;
Page *table = nullptr;
size_t npages = 0;
struct Free { Free *next; };
Free *free_cells = nullptr;
char *arena = nullptr;
size_t arena_left = 0;
Page *last_page = nullptr;

void *big_map(size_t n) {
  void *p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (p == MAP_FAILED) harness_error("no memory for the shadow");
  return p;
}
Cell *new_cells() {
  if (free_cells) {
    Free *f = free_cells;
    free_cells = f->next;
    return reinterpret_cast<Cell *>(f);
  }
  size_t n = 512 * sizeof(Cell);
  if (arena_left < n) {
    arena_left = 64u << 20;
    arena = static_cast<char *>(big_map(arena_left));
  }
  Cell *c = reinterpret_cast<Cell *>(arena);
  arena += n;
  arena_left -= n;
  return c;
}
void drop_cells(Page *p) {
  if (!p->cells) return;
  Free *f = reinterpret_cast<Free *>(p->cells);
  f->next = free_cells;
  free_cells = f;
  p->cells = nullptr;
}
Page *page(uintptr_t id, bool create) {
  if (last_page && last_page->id == id) return last_page;
  if (!table) table = static_cast<Page *>(big_map(PCAP * sizeof(Page)));
  for (size_t k = (id * 0x9E3779B97F4A7C15ull) >> 46;; k = (k + 1) & (PCAP - 1)) {
    Page *p = &table[k];
    if (p->id == id) return last_page = p;
    if (p->id == 0) {
      if (!create) return nullptr;
      if (++npages > PCAP * 3 / 4) harness_error("shadow table is full");
      p->id = id;
      return last_page = p;
    }
  }
}
void expand(Page *p) {
  if (p->cells) return;
  p->cells = new_cells();
  for (int i = 0; i < 512; ++i) p->cells[i] = p->u;
}
std::string where(uintptr_t pc) {
  Dl_info d;
  if (dladdr(reinterpret_cast<void *>(pc), &d) && d.dli_sname) {
    int st = 0;
    char *n = abi::__cxa_demangle(d.dli_sname, nullptr, nullptr, &st);
    std::string s = st == 0 && n ? n : d.dli_sname;
    if (s.size() > 120) s.resize(120);
    return s;
  }
  return strf("code offset %llx", (unsigned long long)(pc - reinterpret_cast<uintptr_t>(&__executable_start)));
}
[[noreturn]] void race(bool w, int other, bool other_w, uintptr_t a, uintptr_t pc, uint32_t opc) {
  lib_depth = 0;
  Dl_info d;
  std::string obj;
  if (dladdr(reinterpret_cast<void *>(a), &d) && d.dli_sname) obj = std::string(" of ") + d.dli_sname;
  std::string o = other_w && opc ? " in " + where(reinterpret_cast<uintptr_t>(&__executable_start) + opc) : "";
  violation("C09:race", "data race: thread %d %s memory%s in %s, unordered with the %s by thread %d%s", me, w ? "writes" : "reads", obj.c_str(), where(pc).c_str(),
            other_w ? "write" : "read", other, o.c_str());
}
inline void check_cell(Cell &c, uint8_t m, bool w, uintptr_t a, uintptr_t pc) {
  const VC &v = T[me].vc;
  if ((c.wm & m) && c.wt != me && c.w > v.c[c.wt]) race(w, c.wt, true, a, pc, c.wpc);
  if (w) {
    for (int i = 0; i <= nthr; ++i)
      if (i != me && (c.rm[i] & m) && c.r[i] > v.c[i]) race(true, i, false, a, pc, 0);
    for (int i = 0; i <= nthr; ++i) c.rm[i] &= ~m;
    if (c.wt == me && c.w == v.c[me]) c.wm |= m;
    else c.wm = m;
    c.wt = (uint8_t)me;
    c.w = v.c[me];
    c.wpc = (uint32_t)(pc - reinterpret_cast<uintptr_t>(&__executable_start));
  } else {
    if (c.r[me] == v.c[me]) c.rm[me] |= m;
    else c.rm[me] = m;
    c.r[me] = v.c[me];
  }
}
void check(uintptr_t a, size_t n, bool w, uintptr_t pc) {
  uintptr_t end = a + n;
  while (a < end) {
    Page *p = page(a >> 12, true);
    uintptr_t pend = ((a >> 12) + 1) << 12;
    if (!p->cells && (a & 4095) == 0 && end >= pend) {
      check_cell(p->u, 0xFF, w, a, pc);
      a = pend;
      continue;
    }
    expand(p);
    uintptr_t stop = end < pend ? end : pend;
    while (a < stop) {
      uintptr_t c = a & ~(uintptr_t)7, ce = c + 8 < stop ? c + 8 : stop;
      uint8_t m = (uint8_t)((0xFFu << (a - c)) & (0xFFu >> (c + 8 - ce)));
      check_cell(p->cells[(c & 4095) >> 3], m, w, a, pc);
      a = ce;
    }
  }
}
void forget(uintptr_t a, size_t n) {
  uintptr_t end = a + n;
  while (a < end) {
    Page *p = page(a >> 12, false);
    uintptr_t pend = ((a >> 12) + 1) << 12, stop = end < pend ? end : pend;
    if (p) {
      if ((a & 4095) == 0 && stop == pend) {
        drop_cells(p);
        p->u = Cell();
      } else if (p->cells || p->u.wm || p->u.rm[0] || p->u.rm[1] || p->u.rm[2] || p->u.rm[3] || p->u.rm[4] || p->u.rm[5]) {
        expand(p);
        for (uintptr_t c = a >> 3; c <= (stop - 1) >> 3; ++c) p->cells[c & 511] = Cell();
      }
    }
    a = stop;
  }
}
inline bool own_stack(uintptr_t a) { return a >= T[me].lo && a < T[me].hi; }
inline void access(uintptr_t a, size_t n, bool w, uintptr_t pc) {
  if (!tracked() || n == 0) return;
  if (own_stack(a)) return;
  R->steps++;
  if (--countdown <= 0) maybe_switch(w ? "a write" : "a read", true);
  check(a, n, w, pc);
}
uint8_t seen_pc[1 << 14];
inline void enter(uintptr_t pc) {
  if (!tracked()) return;
  R->steps++;
  uintptr_t o = pc - reinterpret_cast<uintptr_t>(&__executable_start);
  uint32_t k = ((o >> 2) ^ (o >> 15)) & (COV_SIZE - 1);
  R->cov[k] = 1;
  if (!seen_pc[k]) { // code nobody has run yet: first-use effects live here
    seen_pc[k] = 1;
    if (mag && nswitch < 3000 && draw(SC, 10) == 9) countdown = 0;
  }
  if (--countdown <= 0) maybe_switch("a function", true);
  if (R->steps > R->op_end_steps + 1000000000ull) violation("C09:hang", "no operation of any thread has finished during the last 1000000000 visible steps");
}

// ------------------------------------------------------------ synchronisation
struct Sync { VC vc; int owner = 0, depth = 0, readers = 0; };
std::map<uintptr_t, Sync> *syncs = nullptr;
Sync &sync_of(uintptr_t k) {
  if (!syncs) syncs = new std::map<uintptr_t, Sync>;
  return (*syncs)[k];
}
void acquire(Sync &s) { T[me].vc.join(s.vc); }
void release(Sync &s) {
  s.vc.join(T[me].vc);
  T[me].vc.c[me]++;
}
void after_sync(const char *what) {
  if (mag && nswitch < 5000 && draw(SC, 3) == 2) maybe_switch(what, true);
}
// Locks taken inside the C++ runtime protect only the runtime's own data, which
// is not tracked: they exclude, but order nothing of the library's.
bool ours(uintptr_t pc) { return pc >= reinterpret_cast<uintptr_t>(&__executable_start) && pc < reinterpret_cast<uintptr_t>(&etext); }
void lock_key(uintptr_t k, bool recursive, const char *what, bool hb) {
  NoLib nl;
  if (hb) after_sync(what);
  while (true) {
    Sync &s = sync_of(k);
    if (s.owner == me && recursive) { s.depth++; return; }
    if (s.owner == 0 && s.readers == 0) {
      s.owner = me;
      s.depth = 1;
      if (hb) acquire(s);
      return;
    }
    if (s.owner == me) violation("C09:deadlock", "a thread locks %s it already holds", what);
    block(k, what);
  }
}
bool trylock_key(uintptr_t k, bool recursive, bool hb) {
  NoLib nl;
  Sync &s = sync_of(k);
  if (s.owner == me && recursive) { s.depth++; return true; }
  if (s.owner || s.readers) return false;
  s.owner = me;
  s.depth = 1;
  if (hb) acquire(s);
  return true;
}
void unlock_key(uintptr_t k, const char *what, bool hb) {
  NoLib nl;
  Sync &s = sync_of(k);
  if (s.owner == me && --s.depth > 0) return;
  if (s.owner == me) s.owner = 0;
  else if (s.readers > 0) s.readers--;
  if (hb) release(s);
  wake(k);
  if (hb) after_sync(what);
}
void on_alloc(void *p, size_t n) {
  if (on() && p) forget(reinterpret_cast<uintptr_t>(p), n);
}
void on_yield(const char *what) {
  if (!on()) return;
  R->steps++;
  if (mag && nswitch < 5000 && draw(SC, 6) == 5) countdown = 0;
  if (--countdown <= 0) maybe_switch(what, true);
}

void on_kernel_access(const void *p, size_t n, bool w) {
  if (on() && n && !own_stack((uintptr_t)p)) check((uintptr_t)p, n, w, (uintptr_t)&__executable_start);
}

void finish_thread(void *) { // after the thread's thread_local destructors
  NoLib nl;
  int self = me;
  T[self].st = DONE;
  me = 0;
  lib_depth = 0;
  sem_post_(T[0].go);
}
void *trampoline(void *arg) {
  int id = (int)(intptr_t)arg;
  me = id;
  lib_depth = 0;
  pthread_setspecific(exit_key, arg);
  sem_wait_(T[id].go);
  (*T[id].body)();
  return nullptr;
}
} // namespace

void run_threads(const std::vector<std::function<void()>> &bodies, unsigned magnitude) {
  NoLib nl;
  nthr = (int)bodies.size();
  if (nthr >= MAXT) harness_error("too many simulated threads");
  pthread_key_create(&exit_key, finish_thread);
  T[0].vc.c[0] = 1;
  mag = magnitude;
  nswitch = 0;
  constexpr size_t STACK = 1 << 20;
  for (int i = 1; i <= nthr; ++i) {
    Thr &t = T[i];
    t.body = &bodies[i - 1];
    t.st = READY;
    t.vc = T[0].vc;
    t.vc.c[i] = 1;
    char *st = static_cast<char *>(mmap(nullptr, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
    t.lo = reinterpret_cast<uintptr_t>(st);
    t.hi = t.lo + STACK;
    pthread_attr_t at;
    pthread_attr_init(&at);
    pthread_attr_setstack(&at, st, STACK);
    if (pthread_create(&t.h, &at, trampoline, (void *)(intptr_t)i)) harness_error("pthread_create failed");
    pthread_attr_destroy(&at);
  }
  T[0].vc.c[0]++;
  alloc_hook = on_alloc;
  access_hook = on_kernel_access;
  yield_hook = on_yield;
  active = true;
  int running = nthr;
  while (running) {
    int c[MAXT], n = 0;
    for (int i = 1; i <= nthr; ++i)
      if (T[i].st == READY) c[n++] = i;
    if (!n) violation("C09:deadlock", "the remaining threads wait for locks that nobody will release");
    int to = c[draw(SC, n)];
    next_countdown();
    ev("   [thread %d runs]", to);
    sem_post_(T[to].go);
    sem_wait_(T[0].go);
    for (int i = 1; i <= nthr; ++i)
      if (T[i].st == DONE && T[i].h) {
        pthread_join(T[i].h, nullptr);
        T[i].h = 0;
        T[0].vc.join(T[i].vc);
        --running;
      }
  }
  active = false;
  alloc_hook = nullptr;
  access_hook = nullptr;
  yield_hook = nullptr;
  if (table)
    for (size_t i = 0; i < PCAP; ++i)
      if (table[i].id && table[i].cells) {
        for (int k = 0; k < 512; ++k) {
          Cell &c = table[i].cells[k];
          int who = 0;
          for (int t = 1; t <= nthr; ++t) who += c.rm[t] != 0 || (c.wm && c.wt == t);
          thread_stats.shared_cells += who > 1;
        }
      }
}
} // namespace sim

// ============================================ compiler access callbacks
using namespace sim;
#define PC reinterpret_cast<uintptr_t>(__builtin_return_address(0))
#define AC(n)                                                                                                                                                  \
  void __tsan_read##n(void *a) { access((uintptr_t)a, n, false, PC); }                                                                                         \
  void __tsan_write##n(void *a) { access((uintptr_t)a, n, true, PC); }                                                                                         \
  void __tsan_volatile_read##n(void *a) { access((uintptr_t)a, n, false, PC); }                                                                                \
  void __tsan_volatile_write##n(void *a) { access((uintptr_t)a, n, true, PC); }                                                                                \
  void __tsan_unaligned_read##n(void *a) { access((uintptr_t)a, n, false, PC); }                                                                               \
  void __tsan_unaligned_write##n(void *a) { access((uintptr_t)a, n, true, PC); }                                                                               \
  void __tsan_unaligned_volatile_read##n(void *a) { access((uintptr_t)a, n, false, PC); }                                                                      \
  void __tsan_unaligned_volatile_write##n(void *a) { access((uintptr_t)a, n, true, PC); }
extern "C" {
AC(1) AC(2) AC(4) AC(8) AC(16)
void __tsan_init() {}
void __tsan_func_entry(void *) { enter(PC); }
void __tsan_func_exit() {}
void __tsan_read_range(void *a, size_t n) { access((uintptr_t)a, n, false, PC); }
void __tsan_write_range(void *a, size_t n) { access((uintptr_t)a, n, true, PC); }
void __tsan_vptr_update(void **a, void *v) { (void)v; access((uintptr_t)a, 8, true, PC); }
void __tsan_vptr_read(void **a) { access((uintptr_t)a, 8, false, PC); }

// atomics: sequentially consistent steps, each an acquire and a release
#define SYNC(a)                                                                                                                                                \
  if (tracked()) {                                                                                                                                             \
    NoLib nl;                                                                                                                                                  \
    R->steps++;                                                                                                                                                \
    after_sync("an atomic operation");                                                                                                                         \
    Sync &s = sync_of((uintptr_t)(a));                                                                                                                         \
    acquire(s);                                                                                                                                                \
    release(s);                                                                                                                                                \
  }
#define AT(bits, type)                                                                                                                                         \
  type __tsan_atomic##bits##_load(const volatile type *a, int) { SYNC(a) return __atomic_load_n(a, __ATOMIC_SEQ_CST); }                                        \
  void __tsan_atomic##bits##_store(volatile type *a, type v, int) { SYNC(a) __atomic_store_n(a, v, __ATOMIC_SEQ_CST); }                                        \
  type __tsan_atomic##bits##_exchange(volatile type *a, type v, int) { SYNC(a) return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); }                           \
  type __tsan_atomic##bits##_fetch_add(volatile type *a, type v, int) { SYNC(a) return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); }                           \
  type __tsan_atomic##bits##_fetch_sub(volatile type *a, type v, int) { SYNC(a) return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); }                           \
  type __tsan_atomic##bits##_fetch_and(volatile type *a, type v, int) { SYNC(a) return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); }                           \
  type __tsan_atomic##bits##_fetch_or(volatile type *a, type v, int) { SYNC(a) return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); }                             \
  type __tsan_atomic##bits##_fetch_xor(volatile type *a, type v, int) { SYNC(a) return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); }                           \
  type __tsan_atomic##bits##_fetch_nand(volatile type *a, type v, int) { SYNC(a) return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); }                         \
  int __tsan_atomic##bits##_compare_exchange_strong(volatile type *a, type *e, type v, int, int) {                                                             \
    SYNC(a) return __atomic_compare_exchange_n(a, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                                                            \
  }                                                                                                                                                            \
  int __tsan_atomic##bits##_compare_exchange_weak(volatile type *a, type *e, type v, int, int) {                                                               \
    SYNC(a) return __atomic_compare_exchange_n(a, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                                                            \
  }                                                                                                                                                            \
  type __tsan_atomic##bits##_compare_exchange_val(volatile type *a, type e, type v, int, int) {                                                                \
    SYNC(a) __atomic_compare_exchange_n(a, &e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                                                                  \
    return e;                                                                                                                                                  \
  }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) { SYNC(1) __atomic_thread_fence(__ATOMIC_SEQ_CST); }
void __tsan_atomic_signal_fence(int) {}

// ------------------------------------------------------ guards of statics
int __cxa_guard_acquire(uint64_t *g) {
  uint8_t *b = reinterpret_cast<uint8_t *>(g);
  if (!tracked()) {
    if (*b) return 0;
    b[1] = 1;
    return 1;
  }
  NoLib nl;
  uintptr_t k = (uintptr_t)g;
  after_sync("a static initialiser");
  while (true) {
    if (*b) {
      acquire(sync_of(k));
      return 0;
    }
    if (!b[1]) {
      b[1] = (uint8_t)(1 + me);
      acquire(sync_of(k)); // an attempt that failed comes before this one
      return 1;
    }
    if (b[1] == 1 + me) violation("C09:deadlock", "recursive initialisation of a static");
    block(k, "a static initialiser");
  }
}
void __cxa_guard_release(uint64_t *g) {
  uint8_t *b = reinterpret_cast<uint8_t *>(g);
  b[1] = 0;
  if (tracked()) {
    NoLib nl;
    release(sync_of((uintptr_t)g));
    *b = 1;
    wake((uintptr_t)g);
    after_sync("a static initialiser");
    return;
  }
  *b = 1;
}
void __cxa_guard_abort(uint64_t *g) {
  reinterpret_cast<uint8_t *>(g)[1] = 0;
  if (tracked()) {
    NoLib nl;
    release(sync_of((uintptr_t)g));
    wake((uintptr_t)g);
  }
}

// --------------------------------------------------------------- pthreads
#define REAL(name)                                                                                                                                             \
  static decltype(&name) real = nullptr;                                                                                                                       \
  if (!real) real = reinterpret_cast<decltype(&name)>(dlsym(RTLD_NEXT, #name));
static bool recursive(pthread_mutex_t *m) { return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE; }
int pthread_mutex_lock(pthread_mutex_t *m) noexcept {
  if (on()) { lock_key((uintptr_t)m, recursive(m), "a mutex", ours(PC)); return 0; }
  REAL(pthread_mutex_lock)
  return real(m);
}
int pthread_mutex_trylock(pthread_mutex_t *m) noexcept {
  if (on()) return trylock_key((uintptr_t)m, recursive(m), ours(PC)) ? 0 : EBUSY;
  REAL(pthread_mutex_trylock)
  return real(m);
}
int pthread_mutex_unlock(pthread_mutex_t *m) noexcept {
  if (on()) { unlock_key((uintptr_t)m, "a mutex", ours(PC)); return 0; }
  REAL(pthread_mutex_unlock)
  return real(m);
}
int pthread_rwlock_wrlock(pthread_rwlock_t *m) noexcept {
  if (on()) { lock_key((uintptr_t)m, false, "a lock", ours(PC)); return 0; }
  REAL(pthread_rwlock_wrlock)
  return real(m);
}
int pthread_rwlock_rdlock(pthread_rwlock_t *m) noexcept {
  if (on()) {
    NoLib nl;
    bool hb = ours(PC);
    if (hb) after_sync("a shared lock");
    while (true) {
      Sync &s = sync_of((uintptr_t)m);
      if (!s.owner) { s.readers++; if (hb) acquire(s); return 0; }
      block((uintptr_t)m, "a shared lock");
    }
  }
  REAL(pthread_rwlock_rdlock)
  return real(m);
}
int pthread_rwlock_trywrlock(pthread_rwlock_t *m) noexcept {
  if (on()) return trylock_key((uintptr_t)m, false, ours(PC)) ? 0 : EBUSY;
  REAL(pthread_rwlock_trywrlock)
  return real(m);
}
int pthread_rwlock_tryrdlock(pthread_rwlock_t *m) noexcept {
  if (on()) {
    NoLib nl;
    Sync &s = sync_of((uintptr_t)m);
    if (s.owner) return EBUSY;
    s.readers++;
    if (ours(PC)) acquire(s);
    return 0;
  }
  REAL(pthread_rwlock_tryrdlock)
  return real(m);
}
int pthread_rwlock_unlock(pthread_rwlock_t *m) noexcept {
  if (on()) { unlock_key((uintptr_t)m, "a lock", ours(PC)); return 0; }
  REAL(pthread_rwlock_unlock)
  return real(m);
}
int pthread_once(pthread_once_t *o, void (*f)()) {
  if (on()) {
    uintptr_t k = (uintptr_t)o;
    bool hb = ours(PC);
    if (*o == 2) {
      NoLib nl;
      if (hb) after_sync("a once flag"), acquire(sync_of(k));
      return 0;
    }
    lock_key(k, false, "a once flag", hb);
    struct Un { uintptr_t k; bool hb; ~Un() { unlock_key(k, "a once flag", hb); } } un{k, hb};
    if (*o != 2) {
      f();
      *o = 2;
    }
    return 0;
  }
  if (*o == 2) return 0;
  f(); // single-threaded outside of the simulation
  *o = 2;
  return 0;
}
int sched_yield() noexcept {
  if (on()) { NoLib nl; maybe_switch("a yield", true); return 0; }
  return (int)syscall(SYS_sched_yield);
}
static void pause_point() { NoLib nl; maybe_switch("a pause", true); }
int nanosleep(const struct timespec *a, struct timespec *b) {
  if (on()) { pause_point(); return 0; }
  return (int)syscall(SYS_nanosleep, a, b);
}
int clock_nanosleep(clockid_t c, int f, const struct timespec *a, struct timespec *b) {
  if (on()) { pause_point(); return 0; }
  return (int)syscall(SYS_clock_nanosleep, c, f, a, b);
}
// state of the whole process: other threads look right after it changes
char *setlocale(int cat, const char *name) noexcept {
  static auto r = reinterpret_cast<char *(*)(int, const char *)>(dlsym(RTLD_NEXT, "setlocale"));
  char *p = r(cat, name);
  if (name && on()) pause_point();
  return p;
}
// exception objects come from inside the runtime
void *__cxa_allocate_exception(size_t n) noexcept {
  static void *(*real)(size_t) = nullptr;
  if (!real) real = reinterpret_cast<void *(*)(size_t)>(dlsym(RTLD_NEXT, "__cxa_allocate_exception"));
  void *p = real(n);
  if (on()) forget((uintptr_t)p, n);
  return p;
}

// ------------------------------------------- block operations, wherever called
void *memcpy(void *d, const void *s, size_t n) noexcept {
  if (n && tracked()) {
    access((uintptr_t)s, n, false, PC);
    access((uintptr_t)d, n, true, PC);
  }
  void *r = d;
  asm volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory");
  return r;
}
void *memmove(void *d, const void *s, size_t n) noexcept {
  if (n && tracked()) {
    access((uintptr_t)s, n, false, PC);
    access((uintptr_t)d, n, true, PC);
  }
  void *r = d;
  if ((uintptr_t)d - (uintptr_t)s >= n) {
    asm volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory");
  } else {
    char *dd = (char *)d + n - 1;
    const char *ss = (const char *)s + n - 1;
    asm volatile("std\n\trep movsb\n\tcld" : "+D"(dd), "+S"(ss), "+c"(n) : : "memory");
  }
  return r;
}
void *memset(void *d, int v, size_t n) noexcept {
  if (n && tracked()) access((uintptr_t)d, n, true, PC);
  void *r = d;
  asm volatile("rep stosb" : "+D"(d), "+c"(n) : "a"(v) : "memory");
  return r;
}
}
std::locale std::locale::global(const std::locale &l) {
  static auto r = reinterpret_cast<std::locale (*)(const std::locale &)>(dlsym(RTLD_NEXT, "_ZNSt6locale6globalERKS_"));
  std::locale old = r(l);
  if (sim::on()) pause_point();
  return old;
}
#else
namespace sim {
ThreadStats thread_stats;
void run_threads(const std::vector<std::function<void()>> &bodies, unsigned) {
  for (auto &b : bodies) b();
}
} // namespace sim
#endif
