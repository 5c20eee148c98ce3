// Deterministic simulation core: one seed (or one recorded list of choices)
// decides every workload step, delivery, fault and context switch of a run.
#pragma once
#include <cstdarg>
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <string>
#include <vector>

namespace sim {

// ---------------------------------------------------------------- randomness
struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 1) : s(seed) {}
  uint64_t next() {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
};
inline uint64_t mix(uint64_t a, uint64_t b) {
  Rng r(a ^ (b * 0xD1342543DE82EF95ull + 0x2545F4914F6CDD1Dull));
  r.next();
  return r.next();
}

// The three independent choice streams of a run.
enum Stream { WL = 0 /*workload*/, IO = 1 /*delivery and faults*/, SC = 2 /*thread schedule*/, NSTREAM = 3 };

constexpr uint32_t CHOICE_CAP = 1u << 14;
constexpr uint32_t SPAN_CAP = 1024;
constexpr uint32_t NCOUNTER = 256;
constexpr uint32_t COV_SIZE = 1u << 14;
constexpr uint32_t TRACE_CAP = 1u << 19;

struct Span { uint32_t begin[NSTREAM], end[NSTREAM]; };
struct Counter { char name[48]; uint64_t n; };

enum Outcome : int32_t { RUNNING = 0, HELD = 1, VIOLATION = 2, HARNESS_ERROR = 3 };

// Written by the forked run, read by its parent.
struct SharedRun {
  // control, set by parent
  uint64_t seed;
  int32_t replaying, tracing;
  uint32_t in_n[NSTREAM];
  uint64_t in[NSTREAM][CHOICE_CAP];
  // results
  uint32_t out_n[NSTREAM];
  uint64_t out[NSTREAM][CHOICE_CAP];
  uint64_t drawn[NSTREAM];
  uint32_t nspan;
  Span span[SPAN_CAP];
  int32_t outcome;
  char cls[160];
  char msg[1500];
  uint64_t event_hash, nevents, steps, syscalls, sim_ns, allocs, switches, sig, libops, op_end_steps;
  int32_t nontrivial, own_errno; // own_errno: the workload decides what errno holds before an operation
  int32_t unwinding; // operations run while an exception is in flight
  char desc[200];
  Counter counter[NCOUNTER];
  uint8_t cov[COV_SIZE];
  uint32_t trace_n;
  char trace[TRACE_CAP];
};
extern SharedRun *R;

// ------------------------------------------------------------------- choices
void begin_run();                        // in the child, before the workload
uint64_t draw(Stream s, uint64_t n);     // uniform in [0,n); 0 is the simplest
inline bool chance(Stream s, uint64_t num, uint64_t den) { return draw(s, den) >= den - num; }
inline uint64_t range(Stream s, uint64_t lo, uint64_t hi) { return lo + draw(s, hi - lo + 1); }
template <class T> const T &pick(Stream s, const std::vector<T> &v) { return v[draw(s, v.size())]; }
// index chosen with integer weights; index 0 is the simplest
size_t weighted(Stream s, const std::vector<unsigned> &w);
void span_begin();
void span_end();
struct OpSpan { OpSpan() { span_begin(); } ~OpSpan() { span_end(); } };

// -------------------------------------------------------------------- events
void ev(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void count(const char *name, uint64_t n = 1);        // fault and probe counters
void note_sig(uint64_t x);                           // behaviour signature ("state reached")
void describe(const char *fmt, ...) __attribute__((format(printf, 1, 2)));

// ------------------------------------------------------------------ verdicts
[[noreturn]] void violation(const char *cls, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
[[noreturn]] void harness_error(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
[[noreturn]] void finish_held();

// ------------------------------------------------------------ library scope
// Inside a LibScope, allocations and I/O belong to the library under test.
extern thread_local int lib_depth;
struct LibScope { LibScope() { ++lib_depth; } ~LibScope() { --lib_depth; } };
struct NoLib { int saved; NoLib() : saved(lib_depth) { lib_depth = 0; } ~NoLib() { lib_depth = saved; } };

// deterministic step budget (edges executed in library code); 0 = unlimited
extern uint64_t step_budget;

// set by the thread scheduler (C09), otherwise null
extern void (*yield_hook)(const char *what);
extern void (*alloc_hook)(void *p, size_t n);
extern void (*free_hook)(void *p);
extern void (*access_hook)(const void *p, size_t n, bool write); // by the simulated kernel, for the library
// faults aimed at the calling thread only: which of its next allocations or
// file calls fails (-1: none)
extern thread_local int64_t tl_alloc_fail, tl_io_fail;
inline void nontrivial() { R->nontrivial = 1; }

// ----------------------------------------------------------------- allocator
struct AllocState {
  uint64_t n = 0;              // allocations seen inside the library since reset
  int64_t fail_at = -1;        // index (from n=0) of the allocation to fail
  int64_t fail_len = 1;        // how many consecutive ones fail (-1: all from there)
  uint64_t fired = 0;          // how many were failed
  uint64_t limit = 3ull << 30; // largest single allocation granted
  uint64_t limit_hits = 0;
  uint64_t live_lib_bytes = 0, live_lib_blocks = 0;
  uint64_t peak_lib_bytes = 0, total_lib_bytes = 0;
  uint64_t live_cap = 6ull << 30;   // simulated memory size for library allocations
  uint8_t fill = 0xA5;
};
extern AllocState A;
void alloc_arm(int64_t fail_at, int64_t len);
void alloc_disarm();

uint64_t fnv(const void *p, size_t n, uint64_t h = 1469598103934665603ull);
std::string strf(const char *fmt, ...) __attribute__((format(printf, 1, 2)));

} // namespace sim
