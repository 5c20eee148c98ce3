#include "workloads.h"
#define W(x) __attribute__((weak)) void x() {}
namespace wl { W(c02) W(c03) W(c04) W(c05) W(c07) W(c08) W(c09) W(c10) W(c11) W(c12) W(c13) W(c15) W(c16) W(selftest) }
