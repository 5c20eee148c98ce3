// Simulated threads: real pthreads of which exactly one runs at a time; every
// memory access of library code, every lock, atomic, system call and block
// copy is a possible switch point, and every access feeds a happens-before
// race detector.
#pragma once
#include "core.h"
#include <functional>
#include <vector>

namespace sim {
// Runs the bodies as simulated threads until all are done.
// magnitude: how far apart (log2 of visible points) switches are; 0 = none.
void run_threads(const std::vector<std::function<void()>> &bodies, unsigned magnitude);
struct ThreadStats { uint64_t points = 0, shared_cells = 0, races = 0, blocked = 0, switches_inside = 0; };
extern ThreadStats thread_stats;
} // namespace sim
