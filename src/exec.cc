#include "exec.h"

#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <malloc.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <poll.h>

namespace sim {

const char* kTargetName[TG_NTARGET] = {"convert", "trader", "engine", "ind"};
Totals g_tot;
static std::string g_dir;
static int g_memout = -1, g_memerr = -1, g_shm = -1;

struct Zygote {
  pid_t pid = 0;
  int to = -1, from = -1;
};
static Zygote g_z[TG_NTARGET];

void SchedFinish();
void ScribbleStack(int fill);

typedef int (*MainFn)(int, char**);

// The main of one simulated process. Runs in a freshly forked child.
static void ChildMain(MainFn fn) {
  ExecCfg& c = g_sh->cfg;
  dup2(g_memout, 1);
  dup2(g_memerr, 2);
  struct rlimit rl = {20, 21};
  setrlimit(RLIMIT_CPU, &rl);
  rl = {0, 0};
  setrlimit(RLIMIT_CORE, &rl);
  rl = {3ull << 30, 3ull << 30};
  setrlimit(RLIMIT_AS, &rl);
  if (c.tz[0])
    setenv("TZ", c.tz, 1);
  else
    unsetenv("TZ");
  tzset();
  static char* argv[65];
  for (int i = 0; i < c.argc; ++i) argv[i] = strdup(c.argv[i]);
  argv[c.argc] = nullptr;
  atexit(SchedFinish);
  ChildActivate();
  if (c.fill_byte >= 0) ScribbleStack(c.fill_byte);
  exit(fn(c.argc, argv));
}

// A zygote is a freshly executed process with the environment, descriptors and mappings
// of every other zygote of its target, so that the address space a simulated process
// starts with does not depend on what the worker did before.
static constexpr uintptr_t kShAddr = 0x100000000000ull;
enum { FD_SHM = 200, FD_IN, FD_OUT, FD_MEMOUT, FD_MEMERR };

static void ZygoteLoop(Target t, int in, int out) {
  prctl(PR_SET_PDEATHSIG, SIGKILL);
  mallopt(M_ARENA_MAX, 1);
  const std::string so = g_dir + "/" + kTargetName[t] + ".so";
  void* h = dlopen(so.c_str(), RTLD_NOW | RTLD_LOCAL);
  MainFn fn = nullptr;
  if (h) fn = (MainFn)dlsym(h, "sim_main");
  if (h && !fn) fn = (MainFn)dlsym(h, "_Z8sim_mainiPPc");
  if (!fn) {
    fprintf(stderr, "sim: cannot load %s: %s\n", so.c_str(), dlerror());
    _exit(3);
  }
  char cmd;
  while (read(in, &cmd, 1) == 1) {
    pid_t pid = fork();
    if (pid == 0) {
      prctl(PR_SET_PDEATHSIG, SIGKILL);
      ChildMain(fn);
    }
    int32_t st = -1;
    if (pid > 0) {
      int w = 0;
      while (waitpid(pid, &w, 0) < 0 && errno == EINTR) {
      }
      st = WIFEXITED(w) ? WEXITSTATUS(w) : 1000 + WTERMSIG(w);
    } else {
      st = EXIT_SIM_ERROR;
    }
    if (write(out, &st, sizeof st) != sizeof st) break;
  }
  _exit(0);
}

static bool MapShared(int fd) {
  g_sh = (Shared*)mmap((void*)kShAddr, sizeof(Shared), PROT_READ | PROT_WRITE,
                       MAP_SHARED | MAP_NORESERVE | MAP_FIXED_NOREPLACE, fd, 0);
  return g_sh != MAP_FAILED;
}

int ZygoteMain(int target, const std::string& dir) {
  g_dir = dir;
  if (!MapShared(FD_SHM)) {
    perror("sim: mmap");
    return 3;
  }
  g_memout = FD_MEMOUT;
  g_memerr = FD_MEMERR;
  signal(SIGPIPE, SIG_IGN);
  ZygoteLoop((Target)target, FD_IN, FD_OUT);
  return 0;
}

void ExecInit(const std::string& dir) {
  g_dir = dir;
  g_shm = memfd_create("simshm", MFD_CLOEXEC);
  if (g_shm < 0 || ftruncate(g_shm, sizeof(Shared)) || !MapShared(g_shm)) {
    perror("mmap");
    _exit(2);
  }
  g_memout = memfd_create("simout", MFD_CLOEXEC);
  g_memerr = memfd_create("simerr", MFD_CLOEXEC);
  signal(SIGPIPE, SIG_IGN);
}

static void StartZygote(Target t) {
  int a[2], b[2];
  if (pipe2(a, O_CLOEXEC) || pipe2(b, O_CLOEXEC)) {
    perror("pipe");
    _exit(2);
  }
  fflush(stdout);
  pid_t pid = fork();
  if (pid == 0) {
    const int from[] = {g_shm, a[0], b[1], g_memout, g_memerr};
    int tmp[5];
    for (int i = 0; i < 5; ++i) tmp[i] = fcntl(from[i], F_DUPFD_CLOEXEC, 300);
    for (int i = 0; i < 5; ++i)
      if (dup2(tmp[i], FD_SHM + i) < 0) _exit(3);
    char tg[8];
    snprintf(tg, sizeof tg, "%d", (int)t);
    const char* av[] = {"sim", "zygote", tg, nullptr};
    const char* ev[] = {"SIM_NOASLR=1", "PATH=/usr/bin:/bin", nullptr};
    execve("/proc/self/exe", (char**)av, (char**)ev);
    perror("sim: exec");
    _exit(3);
  }
  ::close(a[0]);
  ::close(b[1]);
  g_z[t] = Zygote{pid, a[1], b[0]};
}

ExecCfg DefaultCfg() {
  ExecCfg c;
  memset(&c, 0, sizeof c);
  c.disk_capacity = -1;
  c.op_budget = 3000000;
  c.access_budget = 120000000ULL;
  c.clock_start_ns = 1700000000LL * 1000000000LL;
  c.fill_byte = -1;
  c.alloc_fail_at = -1;
  c.cpus = 4;
  c.sched_mode = SM_SERIAL;
  c.thread_fail_all = -1;
  return c;
}

void SetArgs(const std::vector<std::string>& args) {
  ExecCfg& c = g_sh->cfg;
  c.argc = 0;
  for (const auto& a : args) {
    if (c.argc >= 60 || a.size() >= sizeof c.argv[0]) abort();
    snprintf(c.argv[c.argc++], sizeof c.argv[0], "%s", a.c_str());
  }
}

void AddFault(int op, uint32_t nth, int kind, int64_t param, const char* file) {
  ExecCfg& c = g_sh->cfg;
  if (c.nfaults >= kMaxFaults) return;
  Fault& f = c.faults[c.nfaults++];
  memset(&f, 0, sizeof f);
  f.op = op, f.nth = nth, f.kind = kind, f.param = param;
  snprintf(f.file, sizeof f.file, "%s", file);
}

static std::string ReadMem(int fd) {
  off_t n = lseek(fd, 0, SEEK_END);
  std::string s(n > kOutCap ? kOutCap : n, 0);
  size_t k = 0;
  while (k < s.size()) {
    ssize_t r = pread(fd, &s[k], s.size() - k, k);
    if (r <= 0) break;
    k += r;
  }
  s.resize(k);
  return s;
}

Exec RunTarget(Target t) {
  Exec e;
  if (!g_z[t].pid) StartZygote(t);
  // Results: keep the conflict list (input of guided runs).
  static uint64_t conf[kMaxConflict];
  int nconf = g_sh->res.nconflict;
  bool keep = g_sh->cfg.sched_mode == SM_CONFLICT;
  if (keep) memcpy(conf, g_sh->res.conflict, nconf * sizeof conf[0]);
  memset(&g_sh->res, 0, offsetof(ExecRes, rec));
  g_sh->res.nrec = g_sh->res.rec_overflow = 0;
  g_sh->res.nconflict = 0;
  g_sh->res.vfs_error = 0;
  g_sh->res.nvops = 0;
  g_sh->res.vop_data_len = 0;
  if (keep) {
    memcpy(g_sh->res.conflict, conf, nconf * sizeof conf[0]);
    g_sh->res.nconflict = nconf;
  }
  if (ftruncate(g_memout, 0) || ftruncate(g_memerr, 0)) _exit(2);
  lseek(g_memout, 0, SEEK_SET);
  lseek(g_memerr, 0, SEEK_SET);
  char cmd = 'r';
  int32_t st = EXIT_SIM_ERROR;
  if (write(g_z[t].to, &cmd, 1) != 1) {
    e.status = EXIT_SIM_ERROR;
  } else {
    struct pollfd pf = {g_z[t].from, POLLIN, 0};
    int pr = poll(&pf, 1, 45000);
    if (pr <= 0) {
      // A real deadlock outside the scheduler's control: replace the zygote.
      kill(g_z[t].pid, SIGKILL);
      waitpid(g_z[t].pid, nullptr, 0);
      ::close(g_z[t].to);
      ::close(g_z[t].from);
      g_z[t] = Zygote();
      st = EXIT_SIM_HANG;
    } else if (read(g_z[t].from, &st, sizeof st) != sizeof st) {
      st = EXIT_SIM_ERROR;
    }
  }
  e.status = st;
  e.out = ReadMem(g_memout);
  e.err = ReadMem(g_memerr);
  e.trace.assign(g_sh->trace, g_sh->res.trace_len);
  ++g_tot.execs;
  ++g_tot.by_target[t];
  for (int i = 0; i < ST_NSTAT; ++i) g_tot.stat[i] += g_sh->res.stat[i];
  g_tot.sim_ns += g_sh->res.sim_ns > 0 ? g_sh->res.sim_ns : 0;
  g_tot.ops += g_sh->res.ops_total;
  g_tot.accesses += g_sh->res.access_count;
  return e;
}

DiskImage SaveDisk() {
  DiskImage m;
  for (int i = 0; i < kMaxFiles; ++i)
    if (g_sh->disk.f[i].used)
      m[g_sh->disk.f[i].path] = std::string((const char*)g_sh->data[i], g_sh->disk.f[i].size);
  return m;
}
void LoadDisk(const DiskImage& img) {
  DiskReset();
  for (const auto& kv : img) DiskPut(kv.first, kv.second);
}
OpLog SaveOpLog() {
  OpLog l;
  l.ops.assign(g_sh->vops, g_sh->vops + g_sh->res.nvops);
  l.data.assign(g_sh->opdata, g_sh->opdata + g_sh->res.vop_data_len);
  return l;
}
void LoadWriterLog(const OpLog& log) {
  memcpy(g_sh->wops, log.ops.data(), log.ops.size() * sizeof(VOp));
  memcpy(g_sh->wopdata, log.data.data(), log.data.size());
  g_sh->nwops = log.ops.size();
}

uint64_t HashBytes(uint64_t h, const void* p, size_t n) {
  const uint8_t* b = (const uint8_t*)p;
  for (size_t i = 0; i < n; ++i) h = (h ^ b[i]) * 0x100000001b3ULL;
  return h;
}

}  // namespace sim
