// npysim: runs, replays and minimises simulated executions. Every execution is
// a forked child of this process, so all start from the same state.
#include "core.h"
#include "simos.h"
#include "workloads.h"
#include <algorithm>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <map>
#include <set>
#include <signal.h>
#include <sstream>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <unistd.h>

using namespace sim;

namespace {
struct Entry { const char *id; void (*fn)(); };
const Entry TABLE[] = {{"C01", wl::c01}, {"C01G", wl::c01g}, {"C02", wl::c02}, {"C03", wl::c03}, {"C04", wl::c04}, {"C05", wl::c05}, {"C06", wl::c06},
                       {"C07", wl::c07}, {"C08", wl::c08}, {"C09", wl::c09}, {"C10", wl::c10}, {"C11", wl::c11}, {"C12", wl::c12},
                       {"C13", wl::c13}, {"C14", wl::c14}, {"C15", wl::c15}, {"C15E", wl::c15e}, {"C16", wl::c16}, {"C20", wl::c20}, {"C20G", wl::c20g}, {"SELF", wl::selftest}};
void (*workload)() = nullptr;
std::string prop;
unsigned wall_limit = 120; // seconds per run: a backstop, deterministic budgets come first
std::string err_path;

double now() {
  struct timespec ts;
  syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts);
  return ts.tv_sec + ts.tv_nsec * 1e-9;
}

struct Choices { std::vector<uint64_t> c[NSTREAM]; };
Choices taken() {
  Choices x;
  for (int s = 0; s < NSTREAM; ++s) x.c[s].assign(R->out[s], R->out[s] + R->out_n[s]);
  return x;
}
size_t weight(const Choices &x) { return x.c[0].size() + x.c[1].size() + x.c[2].size(); }

void reset_shared() {
  R->nspan = 0;
  R->outcome = RUNNING;
  R->cls[0] = R->msg[0] = R->desc[0] = 0;
  R->event_hash = R->nevents = R->steps = R->syscalls = R->sim_ns = R->allocs = R->switches = R->sig = R->libops = R->op_end_steps = 0;
  R->nontrivial = R->own_errno = R->unwinding = 0;
  for (int s = 0; s < NSTREAM; ++s) R->out_n[s] = 0, R->drawn[s] = 0;
  R->trace_n = 0;
}

std::string read_small(const std::string &p) {
  std::ifstream f(p);
  std::stringstream ss;
  ss << f.rdbuf();
  return ss.str();
}

// Runs one execution in a child. `choices` null: draw from the seed.
void execute(uint64_t seed, const Choices *choices, bool trace) {
  reset_shared();
  R->seed = seed;
  R->replaying = choices != nullptr;
  R->tracing = trace;
  if (choices)
    for (int s = 0; s < NSTREAM; ++s) {
      R->in_n[s] = (uint32_t)std::min<size_t>(choices->c[s].size(), CHOICE_CAP);
      std::copy(choices->c[s].begin(), choices->c[s].begin() + R->in_n[s], R->in[s]);
    }
  fflush(nullptr);
  pid_t pid = fork();
  if (pid < 0) { perror("fork"); exit(2); }
  if (pid == 0) {
    int efd = ::open(err_path.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
    int nfd = ::open("/dev/null", O_WRONLY);
    dup2(nfd, 1);
    dup2(efd, 2);
    struct rlimit rl = {0, 0};
    setrlimit(RLIMIT_CORE, &rl);
    alarm(wall_limit);
    begin_run();
    workload();
    finish_held();
  }
  int st = 0;
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
  if (WIFSIGNALED(st) || (WIFEXITED(st) && WEXITSTATUS(st) != 0) || R->outcome == RUNNING) {
    std::string note = read_small(err_path), kind, where;
    if (WIFSIGNALED(st)) {
      int sg = WTERMSIG(st);
      if (sg == SIGKILL) { // memory guard of the sandbox, not a verdict
        R->outcome = HARNESS_ERROR;
        snprintf(R->cls, sizeof R->cls, "harness");
        snprintf(R->msg, sizeof R->msg, "the run was killed (SIGKILL)");
        return;
      }
      if (sg == SIGALRM) kind = "hang:wall-clock";
      else kind = std::string("crash:") + (sg == SIGSEGV ? "SIGSEGV" : sg == SIGABRT ? "SIGABRT" : sg == SIGFPE ? "SIGFPE" : sg == SIGBUS ? "SIGBUS" : sg == SIGILL ? "SIGILL" : "signal");
    } else {
      kind = "crash:exit" + std::to_string(WIFEXITED(st) ? WEXITSTATUS(st) : -1);
    }
    size_t p = note.find("SUMMARY: ");
    if (p != std::string::npos) {
      std::string line = note.substr(p + 9, note.find('\n', p) - p - 9);
      std::istringstream is(line);
      std::string tool, what;
      is >> tool >> what;
      kind = "sanitizer:" + what;
      where = line;
      size_t in = line.find(" in ");
      if (in != std::string::npos) kind += line.substr(in);
    } else if ((p = note.find("runtime error: ")) != std::string::npos) {
      std::string line = note.substr(p + 15, note.find('\n', p) - p - 15);
      kind = "sanitizer:undefined";
      where = line;
    } else if ((p = note.find("terminate called")) != std::string::npos) {
      kind = "crash:terminate";
      where = note.substr(p, 200);
    } else {
      where = note.substr(0, 200);
    }
    for (auto &ch : where)
      if (ch == '\n') ch = ' ';
    R->outcome = VIOLATION;
    snprintf(R->cls, sizeof R->cls, "%s", kind.c_str());
    snprintf(R->msg, sizeof R->msg, "the process ended abnormally (%s): %s", kind.c_str(), where.c_str());
  }
}

std::string vclass() { return R->cls; }

// ----------------------------------------------------------------- minimiser
struct Best { Choices c; std::vector<Span> spans; };
bool reproduces(const Choices &c, const std::string &cls, Best &best, unsigned &budget, double until) {
  if (budget == 0 || now() > until) return false;
  --budget;
  execute(0, &c, false);
  if (R->outcome != VIOLATION || vclass() != cls) return false;
  best.c = taken(); // canonical: unused tail dropped, values reduced
  for (int s = 0; s < NSTREAM; ++s) // trailing zeros are what a missing choice means
    while (!best.c.c[s].empty() && best.c.c[s].back() == 0) best.c.c[s].pop_back();
  best.spans.assign(R->span, R->span + R->nspan);
  return true;
}
Choices cut(const Choices &c, const Span &sp) {
  Choices r = c;
  for (int s = 0; s < NSTREAM; ++s) {
    size_t b = std::min<size_t>(sp.begin[s], r.c[s].size()), e = std::min<size_t>(sp.end[s], r.c[s].size());
    r.c[s].erase(r.c[s].begin() + b, r.c[s].begin() + e);
  }
  return r;
}
void minimise(Choices start, const std::string &cls, Best &best, double seconds, unsigned budget) {
  double until = now() + seconds;
  best.c = start;
  best.spans.clear();
  if (!reproduces(start, cls, best, budget, until)) return;
  bool again = true;
  while (again && budget && now() < until) {
    again = false;
    // whole operations, from the end
    for (size_t i = best.spans.size(); i-- > 0;) {
      if (i >= best.spans.size()) continue;
      Choices t = cut(best.c, best.spans[i]);
      if (weight(t) < weight(best.c) && reproduces(t, cls, best, budget, until)) again = true;
    }
    // runs of choices
    for (int s : {(int)IO, (int)SC, (int)WL})
      for (size_t len = best.c.c[s].size(); len >= 1; len /= 2)
        for (size_t i = 0; i + len <= best.c.c[s].size() && budget && now() < until;) {
          Choices t = best.c;
          t.c[s].erase(t.c[s].begin() + i, t.c[s].begin() + i + len);
          if (reproduces(t, cls, best, budget, until)) again = true;
          else i += len;
        }
    // single values: zero, then halve
    for (int s : {(int)IO, (int)SC, (int)WL})
      for (size_t i = 0; i < best.c.c[s].size() && budget && now() < until; ++i) {
        uint64_t v = best.c.c[s][i];
        if (!v) continue;
        for (uint64_t nv : {(uint64_t)0, v / 2, v - 1}) {
          if (nv >= v) continue;
          Choices t = best.c;
          t.c[s][i] = nv;
          if (reproduces(t, cls, best, budget, until)) { again = true; break; }
        }
      }
  }
}

void write_replay(const std::string &path, uint64_t seed, const Choices &c) {
  std::ofstream f(path);
  f << "# npysim replay file\n# property " << prop << "\n# class " << R->cls << "\n# violation " << R->msg << "\n";
  f << "property " << prop << "\nseed " << seed << "\nclass " << R->cls << "\nhash " << std::hex << R->event_hash << std::dec << "\n";
  const char *names[] = {"workload", "faults", "schedule"};
  for (int s = 0; s < NSTREAM; ++s) {
    f << names[s] << " " << c.c[s].size();
    for (auto v : c.c[s]) f << " " << v;
    f << "\n";
  }
  f << "trace\n";
  f.write(R->trace, R->trace_n);
}

int do_search(int argc, char **argv) {
  uint64_t seed = 1, runs = 1000, worker = 0, workers = 1, maxviol = 3;
  double secs = 20, shrink_secs = 20;
  std::string out = ".";
  for (int i = 2; i + 1 < argc; i += 2) {
    std::string a = argv[i], v = argv[i + 1];
    if (a == "--seed") seed = std::stoull(v);
    else if (a == "--runs") runs = std::stoull(v);
    else if (a == "--worker") worker = std::stoull(v);
    else if (a == "--workers") workers = std::stoull(v);
    else if (a == "--secs") secs = std::stod(v);
    else if (a == "--shrink-secs") shrink_secs = std::stod(v);
    else if (a == "--out") out = v;
    else if (a == "--max-violations") maxviol = std::stoull(v);
  }
  err_path = out + "/err." + std::to_string(worker);
  double t0 = now();
  uint64_t done = 0, nontriv = 0, rechecked = 0, mismatches = 0, errors = 0;
  uint64_t steps = 0, syscalls = 0, events = 0, libops = 0, allocs = 0, switches = 0, choices = 0;
  double simsec = 0;
  std::set<uint64_t> hashes, nt_hashes, sigs;
  std::map<std::string, std::pair<uint64_t, uint64_t>> viol; // class -> count, first seed
  std::vector<std::string> files;
  std::string samples, errmsg;
  for (int k = 0; k < (int)NCOUNTER; ++k) R->counter[k] = Counter();
  memset(R->cov, 0, COV_SIZE);
  std::set<std::string> seen_cls;
  std::string stop = out + "/stop"; // another worker has found a violation
  for (uint64_t i = worker; i < runs && now() - t0 < secs; i += workers) {
    if (access(stop.c_str(), F_OK) == 0) break;
    uint64_t s = mix(mix(seed, fnv(prop.data(), prop.size())), i);
    execute(s, nullptr, false);
    ++done;
    uint64_t h = R->event_hash;
    steps += R->steps; syscalls += R->syscalls; events += R->nevents; libops += R->libops; allocs += R->allocs; switches += R->switches;
    choices += R->out_n[0] + R->out_n[1] + R->out_n[2];
    simsec += R->sim_ns * 1e-9;
    hashes.insert(h);
    sigs.insert(R->sig);
    if (R->nontrivial) { ++nontriv; nt_hashes.insert(h); }
    if (samples.size() < 1500 && R->desc[0] && R->nontrivial) samples += strf("seed %llu: %s\n", (unsigned long long)s, R->desc);
    if (R->outcome == HARNESS_ERROR) {
      ++errors;
      errmsg = R->msg;
      continue;
    }
    bool violated = R->outcome == VIOLATION;
    std::string cls = R->cls;
    if (violated) {
      auto &v = viol[cls];
      if (v.first++ == 0) v.second = s;
    }
    if (violated && seen_cls.insert(cls).second && files.size() < maxviol) {
      Choices c = taken();
      execute(s, nullptr, false); // the same seed again: same execution?
      ++rechecked;
      if (R->outcome != VIOLATION || R->event_hash != h || vclass() != cls) { ++mismatches; errmsg = "seed " + std::to_string(s) + " did not repeat exactly (" + cls + ")"; if (mismatches < 20) seen_cls.erase(cls); continue; }
      Best best;
      minimise(c, cls, best, shrink_secs, 4000);
      execute(0, &best.c, true);
      if (R->outcome == VIOLATION && vclass() == cls) {
        std::string file = out + "/" + prop + "-w" + std::to_string(worker) + "-" + std::to_string(files.size()) + ".replay";
        write_replay(file, s, best.c);
        files.push_back(file + "\t" + cls + "\t" + R->msg);
      } else {
        ++mismatches;
        errmsg = "minimised run did not repeat";
      }
      t0 += 0; // minimisation counts against the time limit
    } else if (i % 20 == 7 && !violated) {
      execute(s, nullptr, false);
      ++rechecked;
      if (R->event_hash != h || R->outcome != HELD) { ++mismatches; errmsg = "seed " + std::to_string(s) + " did not repeat exactly"; }
    }
    if (!files.empty()) close(open(stop.c_str(), O_CREAT | O_WRONLY, 0600));
    if (files.size() >= maxviol) break;
  }
  unlink(err_path.c_str());
  // counters accumulate in shared memory across runs (re-executions included)
  std::ofstream f(out + "/stats." + std::to_string(worker));
  f << "done " << done << "\nnontrivial " << nontriv << "\nrechecked " << rechecked << "\nmismatches " << mismatches << "\nerrors " << errors
    << "\nsteps " << steps << "\nsyscalls " << syscalls << "\nevents " << events << "\nlibops " << libops << "\nallocs " << allocs
    << "\nswitches " << switches << "\nchoices " << choices << "\nsim_seconds " << simsec << "\nwall " << now() - t0 << "\n";
  for (auto &c : R->counter)
    if (c.name[0]) f << "counter " << c.name << " " << c.n << "\n";
  std::string cov;
  for (unsigned k = 0; k < COV_SIZE; ++k)
    if (R->cov[k]) f << "cov " << k << "\n";
  for (auto h : hashes) f << "hash " << std::hex << h << std::dec << "\n";
  for (auto h : nt_hashes) f << "nthash " << std::hex << h << std::dec << "\n";
  for (auto h : sigs) f << "sig " << std::hex << h << std::dec << "\n";
  for (auto &v : viol) f << "violclass " << v.second.first << " " << v.second.second << " " << v.first << "\n";
  for (auto &v : files) f << "violation\t" << v << "\n";
  std::istringstream ss(samples);
  for (std::string l; std::getline(ss, l);) f << "sample " << l << "\n";
  if (!errmsg.empty()) f << "errmsg " << errmsg << "\n";
  f << "end\n";
  return 0;
}

int do_replay(const std::string &file, bool verbose) {
  std::ifstream f(file);
  if (!f) { fprintf(stderr, "cannot open %s\n", file.c_str()); return 2; }
  Choices c;
  std::string line, cls;
  uint64_t hash = 0;
  while (std::getline(f, line)) {
    if (line == "trace") break;
    std::istringstream is(line);
    std::string k;
    is >> k;
    if (k == "property") is >> prop;
    else if (k == "class") std::getline(is >> std::ws, cls);
    else if (k == "hash") is >> std::hex >> hash;
    else if (k == "workload" || k == "faults" || k == "schedule") {
      int s = k == "workload" ? WL : k == "faults" ? IO : SC;
      size_t n;
      is >> n;
      for (size_t i = 0; i < n; ++i) { uint64_t v; is >> v; c.c[s].push_back(v); }
    }
  }
  for (auto &e : TABLE)
    if (prop == e.id) workload = e.fn;
  if (!workload) { fprintf(stderr, "unknown property\n"); return 2; }
  err_path = "/tmp/npysim-replay." + std::to_string(getpid());
  execute(0, &c, true);
  unlink(err_path.c_str());
  if (verbose) fwrite(R->trace, 1, R->trace_n, stdout);
  printf("outcome %s\nclass %s\nmessage %s\nhash %llx\n", R->outcome == VIOLATION ? "violation" : R->outcome == HELD ? "held" : "error", R->cls, R->msg,
         (unsigned long long)R->event_hash);
  if (R->outcome == VIOLATION && cls == R->cls && hash == R->event_hash) { printf("reproduced exactly\n"); return 1; }
  if (R->outcome == VIOLATION) { printf("a different violation than recorded (%s)\n", cls.c_str()); return 3; }
  return R->outcome == HELD ? 0 : 2;
}
} // namespace

int main(int argc, char **argv) {
  // one address space layout for every process, where the sandbox allows it
  int pers = personality(0xffffffff);
  if (pers != -1 && !(pers & ADDR_NO_RANDOMIZE) && !getenv("NPYSIM_CHILD")) {
    setenv("NPYSIM_CHILD", "1", 1);
    if (personality(pers | ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv);
  }
  R = static_cast<SharedRun *>(mmap(nullptr, sizeof(SharedRun), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  if (R == MAP_FAILED) { perror("mmap"); return 2; }
  std::string cmd = argc > 1 ? argv[1] : "";
  if (cmd == "search") {
    std::vector<char *> rest;
    for (int i = 0; i < argc; ++i) {
      if (i + 1 < argc && std::string(argv[i]) == "--prop") { prop = argv[++i]; continue; }
      if (i + 1 < argc && std::string(argv[i]) == "--wall") { wall_limit = (unsigned)atoi(argv[++i]); continue; }
      rest.push_back(argv[i]);
    }
    for (auto &e : TABLE)
      if (prop == e.id) workload = e.fn;
    if (!workload) { fprintf(stderr, "unknown property '%s'\n", prop.c_str()); return 2; }
    return do_search((int)rest.size(), rest.data());
  }
  if (cmd == "replay" && argc > 2) return do_replay(argv[2], argc > 3);
  if (cmd == "one" && argc > 3) { // npysim one PROP SEED: one run, with its trace
    prop = argv[2];
    for (auto &e : TABLE)
      if (prop == e.id) workload = e.fn;
    err_path = "/tmp/npysim-one." + std::to_string(getpid());
    execute(std::stoull(argv[3]), nullptr, true);
    unlink(err_path.c_str());
    fwrite(R->trace, 1, R->trace_n, stdout);
    printf("outcome %d class %s\n%s\nhash %llx\n", R->outcome, R->cls, R->msg, (unsigned long long)R->event_hash);
    return R->outcome == HELD ? 0 : 1;
  }
  fprintf(stderr, "usage: npysim search --prop ID [--seed N --runs N --secs S --worker K --workers N --out DIR] | replay FILE [-v] | one ID SEED\n");
  return 2;
}
