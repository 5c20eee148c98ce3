#include "simos.h"
#include <atomic>
#include <cstdio>
#include <cstdlib>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <stdarg.h>
#include <sys/ioctl.h>
#include <sys/mman.h>
#include <sys/random.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

namespace sim {

inline void sched_yield_point(const char *what) { if (yield_hook) yield_hook(what); }

IoCfg io;
IoStat io_stat;
bool frozen = false;
uint64_t clock_ns = 1700000000ull * 1000000000ull;

void Inode::write(uint64_t off, const char *p, uint64_t n) {
  if (off + n > size) size = off + n;
  while (n) {
    uint64_t pg = off / PAGE, in = off % PAGE, k = std::min(n, PAGE - in);
    auto it = pages.find(pg);
    if (it == pages.end()) {
      bool zero = p[0] == 0 && memcmp(p, p + 1, k - 1) == 0;
      if (!zero) {
        auto &b = pages[pg];
        b.reset(new char[PAGE]());
        memcpy(b.get() + in, p, k);
      }
    } else {
      memcpy(it->second.get() + in, p, k);
    }
    off += k;
    p += k;
    n -= k;
  }
}
uint64_t Inode::read(uint64_t off, char *p, uint64_t n) const {
  if (off >= size) return 0;
  n = std::min(n, size - off);
  uint64_t left = n;
  while (left) {
    uint64_t pg = off / PAGE, in = off % PAGE, k = std::min(left, PAGE - in);
    auto it = pages.find(pg);
    if (it == pages.end()) memset(p, 0, k);
    else memcpy(p, it->second.get() + in, k);
    off += k;
    p += k;
    left -= k;
  }
  return n;
}
void Inode::truncate(uint64_t n) {
  if (n < size) {
    for (auto it = pages.begin(); it != pages.end();) {
      if (it->first * PAGE >= n) it = pages.erase(it);
      else {
        if (it->first == n / PAGE) memset(it->second.get() + n % PAGE, 0, PAGE - n % PAGE);
        ++it;
      }
    }
  }
  size = n;
}

namespace {
struct OpenFile {
  std::shared_ptr<Inode> node;
  std::string path;
  uint64_t pos = 0;
  bool rd = false, wr = false, append = false;
  FILE *fp = nullptr;
};
constexpr int FD0 = 1 << 20;
std::map<std::string, std::shared_ptr<Inode>> &fs() {
  static auto *m = new std::map<std::string, std::shared_ptr<Inode>>;
  return *m;
}
std::map<int, OpenFile> &fds() {
  static auto *m = new std::map<int, OpenFile>;
  return *m;
}
std::map<FILE *, int> &fps() {
  static auto *m = new std::map<FILE *, int>;
  return *m;
}
// Relative paths used by the library mean the simulated working directory.
bool is_sim(const char *p) { return p && (strncmp(p, "/simfs/", 7) == 0 || (p[0] && p[0] != '/' && lib_depth > 0)); }
std::string norm(const std::string &p) {
  if (p.compare(0, 7, "/simfs/") == 0 && p.find("/.") == std::string::npos && p.find("//") == std::string::npos) return p;
  std::string in = p[0] == '/' ? p : "/simfs/cwd/" + p;
  std::vector<std::string> parts;
  for (size_t i = 0; i < in.size();) {
    size_t j = in.find('/', i);
    if (j == std::string::npos) j = in.size();
    std::string c = in.substr(i, j - i);
    if (c == "..") {
      if (!parts.empty()) parts.pop_back();
    } else if (!c.empty() && c != ".") {
      parts.push_back(c);
    }
    i = j + 1;
  }
  std::string out;
  for (auto &c : parts) out += "/" + c;
  return out;
}
bool is_sim(int fd) { return fd >= FD0; }

void tick(uint64_t ns) { clock_ns += ns; if (R) { R->sim_ns += ns; } }

// one-shot plan: true if this call is the chosen victim
bool shot(IoCfg::Cls c) {
  if (io.shot_cls != c) return false;
  if (io.shot_in > 0) { io.shot_in--; return false; }
  if (io.shot_in < 0) return false;
  if (io.shot_len < 0) return true;
  if (--io.shot_len <= 0) io.shot_in = -1;
  return true;
}
bool tl_shot() { return tl_io_fail >= 0 && tl_io_fail-- == 0; }
void fired(const char *what, bool error) {
  count(what);
  (error ? io_stat.errors : io_stat.benign)++;
  tick(error ? 5000000 : 300000);
}

int new_fd(const std::string &path, std::shared_ptr<Inode> n, bool rd, bool wr, bool app) {
  int fd = FD0;
  while (fds().count(fd)) ++fd;
  OpenFile f;
  f.node = n;
  f.path = path;
  f.rd = rd;
  f.wr = wr;
  f.append = app;
  fds()[fd] = f;
  return fd;
}

int sim_open(const char *raw, bool rd, bool wr, bool creat, bool trunc, bool app, bool excl) {
  NoLib nl;
  const std::string full = norm(raw);
  const char *path = full.c_str();
  sched_yield_point("open");
  io_stat.calls++;
  io_stat.ocalls++;
  R->syscalls++;
  tick(20000);
  bool fail = shot(IoCfg::OPEN) || tl_shot();
  if (!fail && io.open_err + io.o_eintr) {
    unsigned v = static_cast<unsigned>(draw(IO, 1024));
    fail = v >= 1024 - io.open_err;
  }
  if (fail) {
    static const int errs[] = {EACCES, EMFILE, ENOSPC, EIO, ENOENT};
    int e = errs[draw(IO, 5)];
    fired("fault.open_error", true);
    ev("  sys open %s -> errno %d", path, e);
    errno = e;
    return -1;
  }
  auto it = fs().find(path);
  if (it == fs().end()) {
    if (!creat || strstr(path, "/missing/")) {
      ev("  sys open %s -> ENOENT", path);
      errno = ENOENT;
      return -1;
    }
    if (frozen) {
      ev("  sys open %s (after crash)", path);
      return new_fd(path, std::make_shared<Inode>(), rd, wr, app);
    }
    it = fs().emplace(path, std::make_shared<Inode>()).first;
  } else if (excl && creat) {
    errno = EEXIST;
    return -1;
  } else if (wr && it->second->readonly) {
    ev("  sys open %s -> EACCES", path);
    errno = EACCES;
    return -1;
  } else if (trunc && !frozen && !it->second->fifo) {
    it->second->truncate(0);
  }
  int fd = new_fd(path, it->second, rd, wr, app);
  ev("  sys open %s -> fd%d", path, fd - FD0);
  return fd;
}

const size_t MAX_TRANSFER = 0x7ffff000; // what one call moves at most on Linux
ssize_t sim_read(int fd, char *buf, size_t n) {
  NoLib nl;
  sched_yield_point("read");
  auto it = fds().find(fd);
  if (it == fds().end()) { errno = EBADF; return -1; }
  OpenFile &f = it->second;
  io_stat.calls++;
  io_stat.rcalls++;
  R->syscalls++;
  tick(10000 + n / 10);
  if (!f.rd) { errno = EBADF; return -1; }
  if (shot(IoCfg::READ) || tl_shot()) {
    fired("fault.read_eio", true);
    ev("  sys read fd%d %zu @%llu -> EIO", fd - FD0, n, (unsigned long long)f.pos);
    errno = EIO;
    return -1;
  }
  if (io.r_eio + io.r_eintr + io.r_short) {
    unsigned v = static_cast<unsigned>(draw(IO, 1024));
    unsigned top = 1024;
    if (v >= (top -= io.r_eintr)) {
      fired("fault.read_eintr", false);
      ev("  sys read fd%d %zu -> EINTR", fd - FD0, n);
      errno = EINTR;
      return -1;
    }
    if (v >= (top -= io.r_short)) {
      if (n > 1) {
        size_t k = draw(IO, 3) == 0 ? 1 : 1 + draw(IO, n - 1);
        fired("fault.read_short", false);
        n = k;
      }
    } else if (v >= (top -= io.r_eio)) {
      fired("fault.read_eio", true);
      ev("  sys read fd%d %zu @%llu -> EIO", fd - FD0, n, (unsigned long long)f.pos);
      errno = EIO;
      return -1;
    }
  }
  if (n > MAX_TRANSFER) {
    n = MAX_TRANSFER;
    count("fault.read_capped");
  }
  uint64_t k = f.node->read(f.pos, buf, n);
  if (access_hook && nl.saved > 0) access_hook(buf, k, true);
  ev("  sys read fd%d %zu @%llu -> %llu", fd - FD0, n, (unsigned long long)f.pos, (unsigned long long)k);
  f.pos += k;
  return static_cast<ssize_t>(k);
}

// Writes through one simulated system call; iov flattened by the caller.
ssize_t sim_write(int fd, const struct iovec *v, int cnt) {
  NoLib nl;
  sched_yield_point("write");
  auto it = fds().find(fd);
  if (it == fds().end()) { errno = EBADF; return -1; }
  OpenFile &f = it->second;
  size_t n = 0;
  for (int i = 0; i < cnt; ++i) n += v[i].iov_len;
  io_stat.calls++;
  io_stat.wcalls++;
  R->syscalls++;
  tick(10000 + n / 10);
  if (!f.wr) { errno = EBADF; return -1; }
  if (n == 0) return 0;
  size_t want = n;
  if (shot(IoCfg::WRITE) || tl_shot()) {
    int e = draw(IO, 3) == 0 ? EIO : ENOSPC;
    fired(e == EIO ? "fault.write_eio" : "fault.write_enospc", true);
    ev("  sys write fd%d %zu @%llu -> errno %d", fd - FD0, n, (unsigned long long)f.pos, e);
    errno = e;
    return -1;
  }
  if (io.w_eintr + io.w_short + io.w_eio + io.w_nospc) {
    unsigned x = static_cast<unsigned>(draw(IO, 1024));
    unsigned top = 1024;
    if (x >= (top -= io.w_eintr)) {
      fired("fault.write_eintr", false);
      ev("  sys write fd%d %zu -> EINTR", fd - FD0, n);
      errno = EINTR;
      return -1;
    }
    if (x >= (top -= io.w_short)) {
      if (n > 1) {
        want = draw(IO, 3) == 0 ? 1 : 1 + draw(IO, n - 1);
        fired("fault.write_short", false);
      }
    } else if (x >= (top -= io.w_eio)) {
      fired("fault.write_eio", true);
      ev("  sys write fd%d %zu -> EIO", fd - FD0, n);
      errno = EIO;
      return -1;
    } else if (x >= (top -= io.w_nospc)) {
      fired("fault.write_enospc", true);
      ev("  sys write fd%d %zu -> ENOSPC", fd - FD0, n);
      errno = ENOSPC;
      return -1;
    }
  }
  if (want > MAX_TRANSFER) {
    want = MAX_TRANSFER;
    count("fault.write_capped");
  }
  if (io.disk_free >= 0) {
    if (io.disk_free == 0) {
      fired("fault.disk_full", true);
      ev("  sys write fd%d %zu -> ENOSPC (disk full)", fd - FD0, n);
      errno = ENOSPC;
      return -1;
    }
    if (want > static_cast<uint64_t>(io.disk_free)) want = static_cast<size_t>(io.disk_free);
    io.disk_free -= static_cast<int64_t>(want);
  }
  if (f.append) f.pos = f.node->size;
  size_t left = want;
  for (int i = 0; i < cnt && left; ++i) {
    size_t k = std::min(left, v[i].iov_len);
    size_t keep = k;
    if (access_hook && nl.saved > 0) access_hook(v[i].iov_base, k, false);
    if (!frozen && io.crash_after >= 0) {
      if (static_cast<uint64_t>(io.crash_after) < k) {
        keep = static_cast<size_t>(io.crash_after);
        io.crash_after = 0;
      } else {
        io.crash_after -= static_cast<int64_t>(k);
      }
    }
    if (frozen) keep = 0;
    if (keep) {
      if (f.node->fifo) f.node->write(f.node->size, static_cast<const char *>(v[i].iov_base), keep);
      else f.node->write(f.pos, static_cast<const char *>(v[i].iov_base), keep);
    }
    f.pos += k;
    left -= k;
    if (!frozen && keep < k) {
      frozen = true;
      count("fault.crash");
      ev("  CRASH: the disk keeps %llu bytes of %s", (unsigned long long)f.node->size, f.path.c_str());
    }
  }
  ev("  sys write fd%d %zu -> %zu, file %llu bytes", fd - FD0, n, want, (unsigned long long)f.node->size);
  return static_cast<ssize_t>(want);
}

off64_t sim_lseek(int fd, off64_t off, int wh) {
  NoLib nl;
  auto it = fds().find(fd);
  if (it == fds().end()) { errno = EBADF; return -1; }
  OpenFile &f = it->second;
  io_stat.calls++;
  io_stat.scalls++;
  R->syscalls++;
  tick(1000);
  if (f.node->fifo) {
    fired("fault.seek_espipe", true);
    errno = ESPIPE;
    return -1;
  }
  bool fail = shot(IoCfg::SEEK) || tl_shot();
  if (!fail && io.seek_err) fail = draw(IO, 1024) >= 1024 - io.seek_err;
  if (fail) {
    fired("fault.seek_error", true);
    ev("  sys lseek fd%d -> EIO", fd - FD0);
    errno = EIO;
    return -1;
  }
  int64_t base = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? (int64_t)f.pos : (int64_t)f.node->size;
  if (base + off < 0) {
    ev("  sys lseek fd%d -> EINVAL", fd - FD0);
    errno = EINVAL;
    return -1;
  }
  f.pos = static_cast<uint64_t>(base + off);
  ev("  sys lseek fd%d %lld,%d -> %llu", fd - FD0, (long long)off, wh, (unsigned long long)f.pos);
  return static_cast<off64_t>(f.pos);
}

int sim_close(int fd) {
  NoLib nl;
  sched_yield_point("close");
  auto it = fds().find(fd);
  if (it == fds().end()) { errno = EBADF; return -1; }
  bool wr = it->second.wr;
  io_stat.calls++;
  io_stat.ccalls++;
  R->syscalls++;
  tick(5000);
  bool fail = wr && shot(IoCfg::CLOSE);
  if (wr && !fail && io.close_err) fail = draw(IO, 1024) >= 1024 - io.close_err;
  if (fail) {
    // A delayed write error reported at close: the tail of the file is lost.
    auto &n = *it->second.node;
    uint64_t lose = n.size ? 1 + draw(IO, n.size) : 0;
    if (!frozen && !n.fifo) n.truncate(n.size - lose);
    fired("fault.close_error", true);
    ev("  sys close fd%d -> EIO, last %llu bytes lost", fd - FD0, (unsigned long long)lose);
    fds().erase(it);
    errno = EIO;
    return -1;
  }
  ev("  sys close fd%d", fd - FD0);
  fds().erase(it);
  return 0;
}

int sim_stat(Inode &n, struct stat *st) {
  memset(st, 0, sizeof *st);
  st->st_mode = n.fifo ? (S_IFIFO | 0644) : (S_IFREG | 0644);
  st->st_size = static_cast<off_t>(n.size);
  st->st_nlink = 1;
  st->st_blksize = 4096;
  st->st_blocks = static_cast<blkcnt_t>((n.size + 511) / 512);
  return 0;
}

ssize_t ck_read(void *c, char *b, size_t n) { return sim_read((int)(intptr_t)c, b, n); }
ssize_t ck_write(void *c, const char *b, size_t n) {
  struct iovec v = {const_cast<char *>(b), n};
  ssize_t r = sim_write((int)(intptr_t)c, &v, 1);
  return r < 0 ? 0 : r;
}
int ck_seek(void *c, off64_t *off, int wh) {
  off64_t r = sim_lseek((int)(intptr_t)c, *off, wh);
  if (r < 0) return -1;
  *off = r;
  return 0;
}
int ck_close(void *c) { return sim_close((int)(intptr_t)c); }

FILE *sim_fopen(const char *path, const char *mode) {
  NoLib nl;
  bool r = strchr(mode, 'r'), w = strchr(mode, 'w'), a = strchr(mode, 'a'), p = strchr(mode, '+'), x = strchr(mode, 'x');
  int fd = sim_open(path, r || p, w || a || p, w || a, w, a, x);
  if (fd < 0) return nullptr;
  cookie_io_functions_t f = {ck_read, ck_write, ck_seek, ck_close};
  FILE *fp = fopencookie((void *)(intptr_t)fd, mode, f);
  fps()[fp] = fd;
  fds()[fd].fp = fp;
  return fp;
}
template <class F> F real(const char *name) { return reinterpret_cast<F>(dlsym(RTLD_NEXT, name)); }
} // namespace

void io_quiet() {
  io = IoCfg();
}
void fs_put(const std::string &path, const std::string &bytes) {
  NoLib nl;
  auto n = std::make_shared<Inode>();
  n->write(0, bytes.data(), bytes.size());
  n->size = bytes.size();
  fs()[norm(path)] = n;
}
void fs_put_fifo(const std::string &path) {
  NoLib nl;
  auto n = std::make_shared<Inode>();
  n->fifo = true;
  fs()[norm(path)] = n;
}
bool fs_exists(const std::string &path) { NoLib nl; return fs().count(norm(path)); }
Inode *fs_inode(const std::string &path) {
  NoLib nl;
  auto it = fs().find(norm(path));
  return it == fs().end() ? nullptr : it->second.get();
}
std::string fs_get(const std::string &path) {
  NoLib nl;
  Inode *n = fs_inode(path);
  if (!n) return "";
  std::string s(n->size, '\0');
  n->read(0, &s[0], n->size);
  return s;
}
void fs_remove(const std::string &path) { NoLib nl; fs().erase(norm(path)); }
std::vector<std::string> fs_list() {
  std::vector<std::string> v;
  for (auto &e : fs()) v.push_back(e.first);
  return v;
}
size_t fs_open_handles() { return fds().size(); }
const char *env_text = nullptr;
void set_clock(uint64_t ns) { clock_ns = ns; }
} // namespace sim

using namespace sim;

// ------------------------------------------------------------- interposition
extern "C" {
FILE *fopen64(const char *path, const char *mode) {
  if (R && is_sim(path)) return sim_fopen(path, mode);
  return real<FILE *(*)(const char *, const char *)>("fopen64")(path, mode);
}
FILE *fopen(const char *path, const char *mode) { return fopen64(path, mode); }
FILE *fdopen(int fd, const char *mode) {
  if (is_sim(fd)) {
    NoLib nl;
    cookie_io_functions_t f = {ck_read, ck_write, ck_seek, ck_close};
    FILE *fp = fopencookie((void *)(intptr_t)fd, mode, f);
    fps()[fp] = fd;
    return fp;
  }
  return real<FILE *(*)(int, const char *)>("fdopen")(fd, mode);
}
int fclose(FILE *fp) {
  static auto r = real<int (*)(FILE *)>("fclose");
  if (R && fps().count(fp)) {
    NoLib nl;
    fps().erase(fp);
    return r(fp);
  }
  return r(fp);
}
int fileno(FILE *fp) {
  if (R) {
    auto it = fps().find(fp);
    if (it != fps().end()) return it->second;
  }
  static auto r = real<int (*)(FILE *)>("fileno");
  return r(fp);
}
int open64(const char *path, int flags, ...) {
  va_list ap;
  va_start(ap, flags);
  int mode = (flags & (O_CREAT | O_TMPFILE)) ? va_arg(ap, int) : 0;
  va_end(ap);
  if (R && is_sim(path)) {
    int acc = flags & O_ACCMODE;
    return sim_open(path, acc != O_WRONLY, acc != O_RDONLY, flags & O_CREAT, flags & O_TRUNC, flags & O_APPEND, flags & O_EXCL);
  }
  return static_cast<int>(syscall(SYS_openat, AT_FDCWD, path, flags, mode));
}
int open(const char *path, int flags, ...) {
  va_list ap;
  va_start(ap, flags);
  int mode = (flags & (O_CREAT | O_TMPFILE)) ? va_arg(ap, int) : 0;
  va_end(ap);
  return open64(path, flags, mode);
}
ssize_t read(int fd, void *buf, size_t n) {
  if (is_sim(fd)) return sim_read(fd, static_cast<char *>(buf), n);
  return syscall(SYS_read, fd, buf, n);
}
ssize_t pread64(int fd, void *buf, size_t n, off64_t off) {
  if (is_sim(fd)) {
    auto it = fds().find(fd);
    if (it == fds().end()) { errno = EBADF; return -1; }
    uint64_t old = it->second.pos;
    it->second.pos = static_cast<uint64_t>(off);
    ssize_t r = sim_read(fd, static_cast<char *>(buf), n);
    it->second.pos = old;
    return r;
  }
  return syscall(SYS_pread64, fd, buf, n, off);
}
ssize_t pread(int fd, void *buf, size_t n, off_t off) { return pread64(fd, buf, n, off); }
ssize_t write(int fd, const void *buf, size_t n) {
  if (is_sim(fd)) {
    struct iovec v = {const_cast<void *>(buf), n};
    return sim_write(fd, &v, 1);
  }
  return syscall(SYS_write, fd, buf, n);
}
ssize_t writev(int fd, const struct iovec *v, int cnt) {
  if (is_sim(fd)) return sim_write(fd, v, cnt);
  return syscall(SYS_writev, fd, v, cnt);
}
off64_t lseek64(int fd, off64_t off, int wh) {
  if (is_sim(fd)) return sim_lseek(fd, off, wh);
  return syscall(SYS_lseek, fd, off, wh);
}
off_t lseek(int fd, off_t off, int wh) { return lseek64(fd, off, wh); }
int close(int fd) {
  if (is_sim(fd)) return sim_close(fd);
  return static_cast<int>(syscall(SYS_close, fd));
}
int fsync(int fd) {
  if (is_sim(fd)) return 0;
  return static_cast<int>(syscall(SYS_fsync, fd));
}
int fdatasync(int fd) {
  if (is_sim(fd)) return 0;
  return static_cast<int>(syscall(SYS_fdatasync, fd));
}
int ftruncate64(int fd, off64_t n) {
  if (is_sim(fd)) {
    NoLib nl;
    auto it = fds().find(fd);
    if (it == fds().end()) { errno = EBADF; return -1; }
    if (!frozen) it->second.node->truncate(static_cast<uint64_t>(n));
    return 0;
  }
  return static_cast<int>(syscall(SYS_ftruncate, fd, n));
}
int ftruncate(int fd, off_t n) { return ftruncate64(fd, n); }
int fstat(int fd, struct stat *st) {
  if (is_sim(fd)) {
    auto it = fds().find(fd);
    if (it == fds().end()) { errno = EBADF; return -1; }
    return sim_stat(*it->second.node, st);
  }
  return static_cast<int>(syscall(SYS_fstat, fd, st));
}
int fstat64(int fd, struct stat64 *st) { return fstat(fd, reinterpret_cast<struct stat *>(st)); }
int stat(const char *path, struct stat *st) {
  if (R && is_sim(path)) {
    NoLib nl;
    Inode *n = fs_inode(path);
    if (!n) { errno = ENOENT; return -1; }
    return sim_stat(*n, st);
  }
  return static_cast<int>(syscall(SYS_stat, path, st));
}
int stat64(const char *path, struct stat64 *st) { return stat(path, reinterpret_cast<struct stat *>(st)); }
int lstat(const char *path, struct stat *st) {
  if (R && is_sim(path)) return stat(path, st);
  return static_cast<int>(syscall(SYS_lstat, path, st));
}
int lstat64(const char *path, struct stat64 *st) { return lstat(path, reinterpret_cast<struct stat *>(st)); }
int access(const char *path, int mode) {
  if (R && is_sim(path)) {
    NoLib nl;
    if (fs_exists(path)) return 0;
    errno = ENOENT;
    return -1;
  }
  return static_cast<int>(syscall(SYS_access, path, mode));
}
int unlink(const char *path) {
  if (R && is_sim(path)) {
    NoLib nl;
    if (!fs_exists(path)) { errno = ENOENT; return -1; }
    if (!frozen) fs_remove(path);
    ev("  sys unlink %s", path);
    return 0;
  }
  return static_cast<int>(syscall(SYS_unlink, path));
}
int remove(const char *path) {
  if (R && is_sim(path)) return unlink(path);
  return real<int (*)(const char *)>("remove")(path);
}
char *getcwd(char *buf, size_t n) {
  if (R && lib_depth > 0) {
    static const char cwd[] = "/simfs/cwd";
    if (buf && n < sizeof cwd) { errno = ERANGE; return nullptr; }
    char *p = buf ? buf : static_cast<char *>(malloc(n > sizeof cwd ? n : sizeof cwd));
    return p ? strcpy(p, cwd) : nullptr;
  }
  static auto r = real<char *(*)(char *, size_t)>("getcwd");
  return r(buf, n);
}
int rename(const char *a, const char *b) {
  if (R && is_sim(a) && is_sim(b)) {
    NoLib nl;
    const std::string na = norm(a), nb = norm(b);
    auto it = fs().find(na);
    if (it == fs().end()) { errno = ENOENT; return -1; }
    ev("  sys rename %s %s", a, b);
    if (!frozen && na != nb) {
      fs()[nb] = it->second;
      fs().erase(na);
    }
    return 0;
  }
  return static_cast<int>(syscall(SYS_rename, a, b));
}
int ioctl(int fd, unsigned long req, ...) {
  va_list ap;
  va_start(ap, req);
  void *arg = va_arg(ap, void *);
  va_end(ap);
  if (is_sim(fd)) {
    if (req == FIONREAD) {
      auto it = fds().find(fd);
      if (it == fds().end()) { errno = EBADF; return -1; }
      // As on a real file, the number of bytes left may be reported; a legal
      // system may also report nothing available yet.
      uint64_t left = it->second.node->size > it->second.pos ? it->second.node->size - it->second.pos : 0;
      *static_cast<int *>(arg) = static_cast<int>(left > 0x7fffffff ? 0x7fffffff : left);
      return 0;
    }
    errno = ENOTTY;
    return -1;
  }
  return static_cast<int>(syscall(SYS_ioctl, fd, req, arg));
}
int poll(struct pollfd *p, nfds_t n, int timeout) {
  if (n >= 1 && is_sim(p[0].fd)) {
    p[0].revents = p[0].events;
    return 1;
  }
  return static_cast<int>(syscall(SYS_poll, p, n, timeout));
}
int truncate64(const char *path, off64_t n) {
  if (R && is_sim(path)) {
    NoLib nl;
    Inode *i = fs_inode(path);
    if (!i) { errno = ENOENT; return -1; }
    ev("  sys truncate %s %lld", path, (long long)n);
    if (!frozen) i->truncate(static_cast<uint64_t>(n));
    return 0;
  }
  return static_cast<int>(syscall(SYS_truncate, path, n));
}
int truncate(const char *path, off_t n) { return truncate64(path, n); }
// A mapping of a simulated file is a copy of what it held when it was mapped.
void *mmap64(void *addr, size_t len, int prot, int flags, int fd, off64_t off) {
  if (is_sim(fd)) {
    auto it = fds().find(fd);
    if (it == fds().end()) { errno = EBADF; return MAP_FAILED; }
    if ((flags & MAP_SHARED) && (prot & PROT_WRITE)) { errno = ENODEV; return MAP_FAILED; }
    void *p = reinterpret_cast<void *>(syscall(SYS_mmap, addr, len, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
    if (p == MAP_FAILED) return p;
    it->second.node->read(static_cast<uint64_t>(off), static_cast<char *>(p), len);
    ev("  sys mmap %zu at %lld", len, (long long)off);
    return p;
  }
  return reinterpret_cast<void *>(syscall(SYS_mmap, addr, len, prot, flags, fd, off));
}
void *mmap(void *addr, size_t len, int prot, int flags, int fd, off_t off) { return mmap64(addr, len, prot, flags, fd, off); }
// ------------------------------------------------------ environment variables
// The library reads none; a run may have every one it asks for hold a drawn text.
static char *env_of(const char *fn, const char *name) {
  if (R && lib_depth > 0 && env_text) {
    count("probe.getenv");
    return const_cast<char *>(env_text);
  }
  return real<char *(*)(const char *)>(fn)(name);
}
char *getenv(const char *name) { return env_of("getenv", name); }
char *secure_getenv(const char *name) { return env_of("secure_getenv", name); }
// -------------------------------------------------------------- randomness
// The library uses none; if it ever does, a run must still be repeatable.
static uint64_t next_random() {
  static uint64_t state = R->seed;
  uint64_t z = (state += 0x9E3779B97F4A7C15ull);
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  count("probe.random");
  return z ^ (z >> 31);
}
static void fill_random(void *p, size_t n) {
  for (size_t i = 0; i < n; ++i) static_cast<char *>(p)[i] = static_cast<char>(next_random());
}
int rand() {
  if (R && lib_depth > 0) return static_cast<int>(next_random() & 0x7fffffff);
  return real<int (*)()>("rand")();
}
long random() {
  if (R && lib_depth > 0) return static_cast<long>(next_random() & 0x7fffffff);
  return real<long (*)()>("random")();
}
ssize_t getrandom(void *p, size_t n, unsigned flags) {
  if (R && lib_depth > 0) return fill_random(p, n), static_cast<ssize_t>(n);
  return syscall(SYS_getrandom, p, n, flags);
}
int getentropy(void *p, size_t n) {
  if (R && lib_depth > 0) return fill_random(p, n), 0;
  return syscall(SYS_getrandom, p, n, 0) == static_cast<long>(n) ? 0 : -1;
}
unsigned arc4random() {
  unsigned v;
  getentropy(&v, sizeof v);
  return v;
}
void arc4random_buf(void *p, size_t n) { getentropy(p, n); }
unsigned _ZNSt13random_device9_M_getvalEv(void *) { // std::random_device::operator()
  unsigned v;
  getentropy(&v, sizeof v);
  return v;
}
pid_t getpid() {
  if (R && lib_depth > 0) return 4242;
  return static_cast<pid_t>(syscall(SYS_getpid));
}
// ------------------------------------------------------------------- clock
time_t time(time_t *t) {
  time_t v;
  if (R) {
    clock_ns += 1000;
    v = static_cast<time_t>(clock_ns / 1000000000ull);
    if (lib_depth > 0) count("probe.clock_read");
  } else {
    struct timespec ts;
    syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts);
    v = ts.tv_sec;
  }
  if (t) *t = v;
  return v;
}
int clock_gettime(clockid_t id, struct timespec *ts) {
  if (R && lib_depth > 0) {
    clock_ns += 1000;
    ts->tv_sec = static_cast<time_t>(clock_ns / 1000000000ull);
    ts->tv_nsec = static_cast<long>(clock_ns % 1000000000ull);
    count("probe.clock_read");
    return 0;
  }
  return static_cast<int>(syscall(SYS_clock_gettime, id, ts));
}
int gettimeofday(struct timeval *tv, void *) {
  struct timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  tv->tv_sec = ts.tv_sec;
  tv->tv_usec = ts.tv_nsec / 1000;
  return 0;
}
} // extern "C"
