// Workload generation shared by all properties. Every decision is a choice.
#pragma once
#include "ops.h"
#include "simos.h"

namespace gen {
using ops::TSpec;
struct Cfg {
  uint64_t max_bytes = 1 << 16; // of element data, usual upper bound
  unsigned big_weight = 2;      // how often a boundary-sized tensor is drawn (of ~40)
  bool strings = true;
  bool trailing_nul = false;
  bool zero = true;             // zero-sized tensors
  bool long_headers = true;
  int only_dt = -1;
};
TSpec tensor(const Cfg &c = Cfg());
void fill(TSpec &t, unsigned pattern, uint64_t seed); // element values
npy::endian_t endian();
npy::compression_method_t compression();
std::string name();              // archive member name as a user passes it
std::string stored(const std::string &n); // the name the archive must list
void benign_io();                // short transfers, EINTR
void no_io_faults();
std::string brief(const std::string &name);
const std::vector<uint64_t> &boundary_sizes();
} // namespace gen
