// The simulated operating system: an in-memory file system reached by the
// unmodified library through std::fstream -> libc (interposed), with injected
// faults, and a simulated clock.
#pragma once
#include "core.h"
#include <map>
#include <memory>
#include <string>

namespace sim {

struct Inode {
  static constexpr uint64_t PAGE = 65536;
  uint64_t size = 0;
  bool fifo = false; // not seekable, write-only sink
  bool readonly = false;
  std::map<uint64_t, std::unique_ptr<char[]>> pages; // absent = zeros
  void write(uint64_t off, const char *p, uint64_t n);
  uint64_t read(uint64_t off, char *p, uint64_t n) const;
  void truncate(uint64_t n);
};

// Fault configuration. Rates are per 1024 calls of that kind.
struct IoCfg {
  unsigned r_eintr = 0, r_short = 0, w_eintr = 0, w_short = 0, o_eintr = 0; // benign
  unsigned r_eio = 0, w_eio = 0, w_nospc = 0, open_err = 0, close_err = 0, seek_err = 0; // errors
  int64_t disk_free = -1;   // bytes that may still be written; then ENOSPC
  int64_t crash_after = -1; // bytes that still reach the disk; then nothing does
  // one-shot fault: the k-th following call of that class fails
  enum Cls { NONE, READ, WRITE, OPEN, CLOSE, SEEK } shot_cls = NONE;
  int64_t shot_in = -1;
  int64_t shot_len = 1;     // consecutive failures; -1: all from then on
};
extern IoCfg io;

struct IoStat {
  uint64_t errors = 0;   // error-class faults that fired since reset
  uint64_t benign = 0;
  uint64_t calls = 0;
  uint64_t rcalls = 0, wcalls = 0, ocalls = 0, ccalls = 0, scalls = 0;
};
extern IoStat io_stat;
extern bool frozen;               // crashed: nothing more reaches the disk

void io_quiet();                  // no faults of any kind from now on
void fs_put(const std::string &path, const std::string &bytes);
void fs_put_fifo(const std::string &path);
bool fs_exists(const std::string &path);
std::string fs_get(const std::string &path);
Inode *fs_inode(const std::string &path);
void fs_remove(const std::string &path);
std::vector<std::string> fs_list();
size_t fs_open_handles();

extern uint64_t clock_ns;         // simulated time since the epoch
void set_clock(uint64_t ns);
extern const char *env_text; // what every environment variable holds for the library; null: what it really holds

} // namespace sim
