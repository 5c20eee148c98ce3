#include "core.h"
#include <cstdio>
#include <cstdlib>
#include <unistd.h>

namespace sim {
SharedRun *R = nullptr;
thread_local int lib_depth = 0;
uint64_t step_budget = 0;
void (*yield_hook)(const char *) = nullptr;
void (*alloc_hook)(void *, size_t) = nullptr;
void (*free_hook)(void *) = nullptr;
void (*access_hook)(const void *, size_t, bool) = nullptr;
thread_local int64_t tl_alloc_fail = -1, tl_io_fail = -1;


static Rng g_rng[NSTREAM];
static int g_span_open = 0;

uint64_t fnv(const void *p, size_t n, uint64_t h) {
  const uint8_t *b = static_cast<const uint8_t *>(p);
  for (size_t i = 0; i < n; ++i) h = (h ^ b[i]) * 1099511628211ull;
  return h;
}

std::string strf(const char *fmt, ...) {
  NoLib nl;
  char buf[2048];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(buf, sizeof buf, fmt, ap);
  va_end(ap);
  return buf;
}

void begin_run() {
  for (int i = 0; i < NSTREAM; ++i) g_rng[i] = Rng(mix(R->seed, 1000 + i));
  g_span_open = 0;
}

uint64_t draw(Stream s, uint64_t n) {
  if (n <= 1) return 0;
  uint64_t i = R->drawn[s]++;
  uint64_t v;
  if (R->replaying) {
    v = i < R->in_n[s] ? R->in[s][i] % n : 0;
  } else {
    v = i < CHOICE_CAP ? g_rng[s].next() % n : 0; // past the cap only the simplest choice
  }
  if (i < CHOICE_CAP) {
    R->out[s][i] = v;
    R->out_n[s] = static_cast<uint32_t>(i + 1);
  }
  return v;
}

size_t weighted(Stream s, const std::vector<unsigned> &w) {
  uint64_t total = 0;
  for (unsigned x : w) total += x;
  uint64_t v = draw(s, total);
  for (size_t i = 0; i < w.size(); ++i) {
    if (v < w[i]) return i;
    v -= w[i];
  }
  return 0;
}

void span_begin() {
  NoLib nl;
  if (g_span_open++ == 0 && R->nspan < SPAN_CAP)
    for (int i = 0; i < NSTREAM; ++i) R->span[R->nspan].begin[i] = R->out_n[i];
}
void span_end() {
  if (--g_span_open == 0 && R->nspan < SPAN_CAP) {
    for (int i = 0; i < NSTREAM; ++i) R->span[R->nspan].end[i] = R->out_n[i];
    R->nspan++;
  }
}

void ev(const char *fmt, ...) {
  NoLib nl;
  char buf[600];
  va_list ap;
  va_start(ap, fmt);
  int n = vsnprintf(buf, sizeof buf - 1, fmt, ap);
  va_end(ap);
  if (n > (int)sizeof buf - 2) n = sizeof buf - 2;
  R->event_hash = fnv(buf, n, R->event_hash ? R->event_hash : 1469598103934665603ull);
  R->nevents++;
  if (R->tracing && R->trace_n + n + 2 < TRACE_CAP) {
    memcpy(R->trace + R->trace_n, buf, n);
    R->trace_n += n;
    R->trace[R->trace_n++] = '\n';
  }
}

void count(const char *name, uint64_t k) {
  uint32_t h = static_cast<uint32_t>(fnv(name, strlen(name))) % NCOUNTER;
  for (uint32_t i = 0; i < NCOUNTER; ++i) {
    Counter &c = R->counter[(h + i) % NCOUNTER];
    if (c.name[0] == 0) strncpy(c.name, name, sizeof c.name - 1);
    if (strncmp(c.name, name, sizeof c.name - 1) == 0) {
      c.n += k;
      return;
    }
  }
}

void note_sig(uint64_t x) { R->sig = mix(R->sig, x); }

void describe(const char *fmt, ...) {
  NoLib nl;
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(R->desc, sizeof R->desc, fmt, ap);
  va_end(ap);
}

void violation(const char *cls, const char *fmt, ...) {
  lib_depth = 0;
  if (R->outcome != RUNNING) _exit(0); // another verdict is being written
  snprintf(R->cls, sizeof R->cls, "%s", cls);
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(R->msg, sizeof R->msg, fmt, ap);
  va_end(ap);
  ev("VIOLATION %s: %s", R->cls, R->msg);
  R->outcome = VIOLATION;
  _exit(0);
}

void harness_error(const char *fmt, ...) {
  lib_depth = 0;
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(R->msg, sizeof R->msg, fmt, ap);
  va_end(ap);
  snprintf(R->cls, sizeof R->cls, "harness");
  R->outcome = HARNESS_ERROR;
  _exit(0);
}

void finish_held() {
  R->outcome = HELD;
  _exit(0);
}
} // namespace sim

// --------------------------------------------------- edge callback (gcc trace-pc)
extern "C" char __executable_start;
extern "C" __attribute__((no_sanitize("address", "undefined"), no_instrument_function)) void
__sanitizer_cov_trace_pc() {
  using namespace sim;
  if (lib_depth <= 0 || !R) return;
  uintptr_t pc = reinterpret_cast<uintptr_t>(__builtin_return_address(0)) -
                 reinterpret_cast<uintptr_t>(&__executable_start);
  R->cov[((pc >> 2) ^ (pc >> 15)) & (COV_SIZE - 1)] = 1;
  if (++R->steps > step_budget && step_budget)
    violation("hang:step-budget", "library code ran past its step budget of %llu control-flow edges",
              (unsigned long long)step_budget);
}
