// Simulated clock, memory, CPU count and the thread scheduler (baton passing over
// real threads). Preemption points: every instrumented memory access of the
// repository's code (the -fsanitize=thread ABI is implemented here) and every
// blocking or synchronising libc call.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <dlfcn.h>
#include <errno.h>
#include <malloc.h>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

#include <bits/atomic_futex.h>
#include <random>

#include "absl/time/clock.h"

#include "shared.h"

namespace sim {

// Randomness the program asks the system for: different in every environment, repeatable.
static SplitMix g_rand(0);
uint32_t Random() {
  ++g_sh->res.stat[ST_RANDOM];
  return (uint32_t)(g_rand.Next() >> 32);
}

// ---------------------------------------------------------------- clock
static int64_t g_now = 0, g_mono = 0;
static SplitMix g_clk(0);
int64_t SimNowNs() { return g_now; }
void ClockReset() {
  g_now = g_sh->cfg.clock_start_ns;
  g_mono = 1000000000;
  g_clk = SplitMix(g_sh->cfg.clock_seed);
  g_rand = SplitMix(g_sh->cfg.clock_seed * 31 + g_sh->cfg.clock_start_ns + g_sh->cfg.sched_seed);
}
static void ClockTick() {
  g_now += 1000;
  g_mono += 1000;
  if (g_sh->cfg.clock_seed) {
    uint64_t r = g_clk.Below(6);
    if (r == 0) {
      g_now += (int64_t)g_clk.Below(200000) * 1000000000LL - 100000LL * 1000000000LL;
      ++g_sh->res.stat[ST_CLOCK_JUMP];
    } else if (r == 1) {
      int64_t d = g_clk.Below(5000) * 1000000LL;
      g_now += d;
      g_mono += d;
    }
  }
}

// ---------------------------------------------------------------- threads
constexpr int kMaxThreads = 256;
enum TState { T_FREE, T_RUNNABLE, T_BLOCKED, T_DONE };
struct SimThread {
  TState state;
  const void* wait;     // what it is blocked on
  sem_t sem;
  pthread_t pt;
  void* (*fn)(void*);
  void* arg;
  void* ret;
  bool gone;            // the real thread has ended
};
static SimThread g_t[kMaxThreads];
static int g_nt = 0;
static int g_cur = 0;
static int g_alive = 1;          // threads not DONE
static bool g_multi = false;     // more than one thread was ever created
static pthread_key_t g_exit_key;
static bool g_key_made = false;
static uint64_t g_access = 0;
static uint64_t g_next_event = ~0ULL;  // access count of the next thing to do
static SplitMix g_srng(0);
static uint64_t g_next_switch = ~0ULL;
static int g_sw_pos = 0;         // SM_EXPLICIT: next preempt entry
static uint64_t g_block_idx = 0;
static int g_pct_pos = 0;
static uint64_t g_create_idx = 0;
static uint64_t g_last_switch_access = 0;
static uint64_t g_conf_prob = 0;
constexpr uint64_t kFairSlice = 400000;  // accesses without a switch before a forced one

// conflict profile / guidance
constexpr uint32_t kProfSize = 1u << 20;
struct Prof {
  uint64_t addr;
  int16_t tid;
  uint8_t wrote, shared;
};
static Prof* g_prof = nullptr;
constexpr uint32_t kBloomBits = 1u << 16;
static uint8_t g_bloom[kBloomBits / 8];
static bool g_guided = false;
static uint64_t g_budget = ~0ULL;

static void UpdateNextEvent() {
  uint64_t n = g_budget;
  if (g_multi) {
    if (g_next_switch < n) n = g_next_switch;
    uint64_t fair = g_last_switch_access + kFairSlice;
    if (g_alive > 1 && fair < n) n = fair;
  }
  g_next_event = n;
}

static void PlanNext() {
  const ExecCfg& c = g_sh->cfg;
  g_next_switch = ~0ULL;
  switch (c.sched_mode) {
    case SM_RANDOM:
      g_next_switch = g_access + 1 + g_srng.Below(2ULL * (c.sched_rate ? c.sched_rate : 1000));
      break;
    case SM_PCT:
      while (g_pct_pos < c.npct && c.pct_at[g_pct_pos] <= g_access) ++g_pct_pos;
      if (g_pct_pos < c.npct) g_next_switch = c.pct_at[g_pct_pos];
      break;
    case SM_EXPLICIT:
      while (g_sw_pos < c.nsw && (c.sw[g_sw_pos].is_pick || c.sw[g_sw_pos].at <= g_access)) ++g_sw_pos;
      if (g_sw_pos < c.nsw) g_next_switch = c.sw[g_sw_pos].at;
      break;
    default:
      break;
  }
  UpdateNextEvent();
}

void SchedReset() {
  const ExecCfg& c = g_sh->cfg;
  g_nt = 1;
  g_cur = 0;
  g_alive = 1;
  g_multi = false;
  g_t[0].state = T_RUNNABLE;
  g_t[0].pt = pthread_self();
  sem_init(&g_t[0].sem, 0, 0);
  g_access = 0;
  g_block_idx = 0;
  g_sw_pos = 0;
  g_pct_pos = 0;
  g_create_idx = 0;
  g_last_switch_access = 0;
  g_srng = SplitMix(c.sched_seed);
  g_budget = c.access_budget ? c.access_budget : ~0ULL;
  g_guided = c.sched_mode == SM_CONFLICT;
  memset(g_bloom, 0, sizeof g_bloom);
  if (g_guided)
    for (int i = 0; i < g_sh->res.nconflict; ++i) {
      uint64_t h = (g_sh->res.conflict[i] * 0x9e3779b97f4a7c15ULL) >> 48;
      g_bloom[h / 8] |= 1 << (h % 8);
    }
  g_conf_prob = c.sched_rate ? c.sched_rate : 4;
  if (c.profile_conflicts && !g_prof) g_prof = (Prof*)calloc(kProfSize, sizeof(Prof));
  if (!g_key_made) {
    g_key_made = true;
    pthread_key_create(&g_exit_key, [](void* p) {
      // Runs after the thread's C++ thread_local destructors: gives the baton away.
      extern void ThreadExit(int);
      ThreadExit((int)(intptr_t)p - 1);
    });
  }
  PlanNext();
}

static int g_reap = -1;  // a thread that gave the baton away for good and is ending
static void ReapEnded();
static void SemWait(sem_t* s) {
  while (sem_wait(s) != 0) {
  }
  // The ended thread releases its stack and heap caches before anything else happens.
  if (g_reap >= 0) ReapEnded();
}

static void RecordSwitch(uint64_t at, int tid, bool pick) {
  ExecRes& r = g_sh->res;
  r.sched_hash = (r.sched_hash ^ (at * 1000003 + tid * 2 + pick)) * 0x100000001b3ULL;
  if (r.nrec < kMaxSwitch)
    r.rec[r.nrec++] = SwitchPoint{at, tid, pick};
  else
    r.rec_overflow = 1;
}

static int PickRunnable(int exclude) {
  const ExecCfg& c = g_sh->cfg;
  int cand[kMaxThreads], n = 0;
  for (int i = 0; i < g_nt; ++i)
    if (i != exclude && g_t[i].state == T_RUNNABLE) cand[n++] = i;
  if (n == 0) return -1;
  if (c.sched_mode == SM_SERIAL || c.sched_mode == SM_NONE) return cand[0];
  if (c.sched_mode == SM_EXPLICIT) return cand[0];
  return cand[g_srng.Below(n)];
}

static void SwitchTo(int next) {
  const int me = g_cur;
  if (next == me) return;
  g_cur = next;
  g_last_switch_access = g_access;
  UpdateNextEvent();
  sem_post(&g_t[next].sem);
  SemWait(&g_t[me].sem);
}

// Called when the current thread must give up the baton (blocked or finished).
static int PickAtBlock() {
  const ExecCfg& c = g_sh->cfg;
  const uint64_t idx = g_block_idx++;
  ++g_sh->res.block_count;
  int next = -1;
  if (c.sched_mode == SM_EXPLICIT) {
    for (int i = 0; i < c.nsw; ++i)
      if (c.sw[i].is_pick && c.sw[i].at == idx && c.sw[i].tid < g_nt &&
          g_t[c.sw[i].tid].state == T_RUNNABLE)
        next = c.sw[i].tid;
  }
  if (next < 0) next = PickRunnable(-1);
  if (next < 0) SimExit(EXIT_SIM_DEADLOCK);
  int dflt = -1;
  for (int i = 0; i < g_nt && dflt < 0; ++i)
    if (g_t[i].state == T_RUNNABLE) dflt = i;
  if (c.sched_mode != SM_EXPLICIT && g_sh->res.nrec >= kMaxSwitch - 2) next = dflt;
  if (next != dflt) RecordSwitch(idx, next, true);
  return next;
}

static void Block(const void* on) {
  SimThread& t = g_t[g_cur];
  t.state = T_BLOCKED;
  t.wait = on;
  SwitchTo(PickAtBlock());
}
static void WakeAll(const void* on) {
  for (int i = 0; i < g_nt; ++i)
    if (g_t[i].state == T_BLOCKED && g_t[i].wait == on) g_t[i].state = T_RUNNABLE;
}
static void WakeOne(const void* on) {
  for (int i = 0; i < g_nt; ++i)
    if (g_t[i].state == T_BLOCKED && g_t[i].wait == on) {
      g_t[i].state = T_RUNNABLE;
      return;
    }
}

void ThreadExit(int id) {
  if (!SimActive() || id < 0) return;
  g_t[id].state = T_DONE;
  --g_alive;
  WakeAll(&g_t[id]);
  int next = PickAtBlock();
  g_cur = next;
  g_last_switch_access = g_access;
  UpdateNextEvent();
  g_reap = id;
  sem_post(&g_t[next].sem);
}

// Leaves the fill pattern on the stack below the caller.
__attribute__((noinline)) void ScribbleStack(int fill) {
  char buf[96 << 10];
  memset(buf, fill, sizeof buf);
  asm volatile("" : : "r"(buf) : "memory");
}

static void* ThreadMain(void* p) {
  SimThread* t = (SimThread*)p;
  if (g_sh->cfg.fill_byte >= 0) ScribbleStack(g_sh->cfg.fill_byte);
  SemWait(&t->sem);
  pthread_setspecific(g_exit_key, (void*)(intptr_t)(t - g_t + 1));
  return t->fn(t->arg);
}

// Voluntary or forced preemption of the running thread.
static void Preempt(int stat) {
  if (!g_multi || g_alive < 2) return;
  const ExecCfg& c = g_sh->cfg;
  int next = -1;
  // The recorded plan stays short enough to be replayed explicitly.
  if (c.sched_mode != SM_EXPLICIT && g_sh->res.nrec >= kMaxSwitch - 100 &&
      g_access < g_last_switch_access + kFairSlice)
    return;
  if (c.sched_mode == SM_EXPLICIT) {
    for (int i = 0; i < c.nsw; ++i)
      if (!c.sw[i].is_pick && c.sw[i].at == g_access && c.sw[i].tid < g_nt &&
          g_t[c.sw[i].tid].state == T_RUNNABLE)
        next = c.sw[i].tid;
    if (next < 0 && g_access >= g_last_switch_access + kFairSlice) next = PickRunnable(g_cur);
  } else {
    next = PickRunnable(g_cur);
  }
  if (next < 0 || next == g_cur) return;
  ++g_sh->res.stat[stat];
  RecordSwitch(g_access, next, false);
  SwitchTo(next);
}

static void Event() {
  g_sh->res.access_count = g_access;
  if (g_access >= g_budget) SimExit(EXIT_SIM_HANG);
  const bool due = g_access >= g_next_switch;
  const bool fair = g_access >= g_last_switch_access + kFairSlice;
  if (due || fair) {
    Preempt(ST_PREEMPT);
    g_last_switch_access = g_access;
  }
  PlanNext();
}

static inline void Access(const void* addr, bool write) {
  if (!SimActive()) return;
  ++g_access;
  if (__builtin_expect(g_multi, 0)) {
    if (g_guided) {
      uint64_t h = (((uint64_t)addr >> 3) * 0x9e3779b97f4a7c15ULL) >> 48;
      if ((g_bloom[h / 8] >> (h % 8)) & 1) {
        if (g_srng.Below(g_conf_prob) == 0 && g_sh->res.nrec < kMaxSwitch - 64) Preempt(ST_CONFLICT_PREEMPT);
      }
    } else if (g_prof && g_sh->cfg.profile_conflicts) {
      uint64_t a = (uint64_t)addr >> 3;
      uint32_t h = (a * 0x9e3779b97f4a7c15ULL) >> 44;
      for (int k = 0; k < 8; ++k) {
        Prof& p = g_prof[(h + k) & (kProfSize - 1)];
        if (p.addr == 0) {
          p.addr = a;
          p.tid = g_cur;
          p.wrote = write;
          break;
        }
        if (p.addr == a) {
          if (p.tid != g_cur && (p.wrote || write)) {
            if (!p.shared && g_sh->res.nconflict < kMaxConflict) {
              p.shared = 1;
              g_sh->res.conflict[g_sh->res.nconflict++] = a;
            }
          }
          if (p.tid != g_cur) p.tid = g_cur;
          p.wrote |= write;
          break;
        }
      }
    }
  }
  if (__builtin_expect(g_access >= g_next_event, 0)) Event();
}

static void SyncPoint() {
  if (!SimActive() || !g_multi) return;
  ++g_access;
  if (g_access >= g_next_event) Event();
}
void SchedFinish() {
  g_sh->res.access_count = g_access;
  g_sh->res.sim_ns = g_mono - 1000000000;
}

}  // namespace sim

using namespace sim;

#define REAL(ret, name, args)                          \
  typedef ret(*name##_fn_t) args;                        \
  static name##_fn_t real_##name() {                      \
    static name##_fn_t p = nullptr;                       \
    if (!p) p = (name##_fn_t)dlsym(RTLD_NEXT, #name);     \
    return p;                                          \
  }

REAL(int, pthread_create, (pthread_t*, const pthread_attr_t*, void* (*)(void*), void*))
REAL(int, pthread_join, (pthread_t, void**))
REAL(int, pthread_detach, (pthread_t))
REAL(int, pthread_mutex_lock, (pthread_mutex_t*))
REAL(int, pthread_mutex_trylock, (pthread_mutex_t*))
REAL(int, pthread_mutex_unlock, (pthread_mutex_t*))
REAL(int, pthread_cond_wait, (pthread_cond_t*, pthread_mutex_t*))
REAL(int, pthread_cond_timedwait, (pthread_cond_t*, pthread_mutex_t*, const struct timespec*))
REAL(int, pthread_cond_clockwait, (pthread_cond_t*, pthread_mutex_t*, clockid_t, const struct timespec*))
REAL(int, pthread_cond_signal, (pthread_cond_t*))
REAL(int, pthread_cond_broadcast, (pthread_cond_t*))
REAL(int, pthread_rwlock_rdlock, (pthread_rwlock_t*))
REAL(int, pthread_rwlock_wrlock, (pthread_rwlock_t*))
REAL(int, pthread_rwlock_unlock, (pthread_rwlock_t*))
REAL(int, pthread_rwlock_tryrdlock, (pthread_rwlock_t*))
REAL(int, pthread_rwlock_trywrlock, (pthread_rwlock_t*))
REAL(int, pthread_once, (pthread_once_t*, void (*)(void)))
REAL(int, sched_yield, (void))
REAL(int, clock_gettime, (clockid_t, struct timespec*))
REAL(int, gettimeofday, (struct timeval*, void*))
REAL(time_t, time, (time_t*))
REAL(int, nanosleep, (const struct timespec*, struct timespec*))
REAL(int, clock_nanosleep, (clockid_t, int, const struct timespec*, struct timespec*))
REAL(int, usleep, (useconds_t))
REAL(int, get_nprocs, (void))
REAL(long, sysconf, (int))

namespace sim {
static void ReapEnded() {
  const int id = g_reap;
  g_reap = -1;
  real_pthread_join()(g_t[id].pt, &g_t[id].ret);
  g_t[id].gone = true;
}
}  // namespace sim

static inline bool Multi() { return SimActive() && sim::g_multi; }

extern "C" {

// ---- threads
int pthread_create(pthread_t* out, const pthread_attr_t* attr, void* (*fn)(void*), void* arg) {
  if (!SimActive()) return real_pthread_create()(out, attr, fn, arg);
  const ExecCfg& c = g_sh->cfg;
  const uint64_t idx = g_create_idx++;
  ++g_sh->res.threads_created;
  if ((idx < 64 && (c.thread_fail_mask >> idx & 1)) ||
      (c.thread_fail_all >= 0 && (int64_t)idx >= c.thread_fail_all)) {
    ++g_sh->res.stat[ST_THREAD_EAGAIN];
    return EAGAIN;
  }
  int id = -1;
  if (g_nt < kMaxThreads) id = g_nt++;
  if (id < 0) return EAGAIN;
  SimThread& t = g_t[id];
  t.state = T_RUNNABLE;
  t.fn = fn;
  t.arg = arg;
  t.ret = nullptr;
  t.gone = false;
  sem_init(&t.sem, 0, 0);
  // Always joinable for real: the scheduler waits for its end.
  pthread_attr_t at;
  size_t stack = 0;
  pthread_attr_init(&at);
  if (attr && pthread_attr_getstacksize(attr, &stack) == 0 && stack) pthread_attr_setstacksize(&at, stack);
  int rc = real_pthread_create()(&t.pt, &at, ThreadMain, &t);
  pthread_attr_destroy(&at);
  if (rc) {
    --g_nt;
    return rc;
  }
  *out = t.pt;
  ++g_alive;
  g_multi = true;
  if ((uint64_t)g_alive > g_sh->res.max_threads) g_sh->res.max_threads = g_alive;
  UpdateNextEvent();
  // A new thread may run at once or later: let the schedule decide.
  if (c.sched_mode == SM_RANDOM || c.sched_mode == SM_CONFLICT || c.sched_mode == SM_PCT) {
    ++g_access;
    if (g_srng.Below(3) == 0) Preempt(ST_PREEMPT);
  } else if (c.sched_mode == SM_EXPLICIT) {
    ++g_access;
    Preempt(ST_PREEMPT);
  } else {
    ++g_access;
  }
  return 0;
}
int pthread_join(pthread_t pt, void** ret) {
  if (SimActive()) {
    for (int i = 1; i < g_nt; ++i)
      if (g_t[i].pt == pt && g_t[i].fn) {
        while (g_t[i].state != T_DONE) Block(&g_t[i]);
        g_t[i].fn = nullptr;
        if (!g_t[i].gone) break;
        if (ret) *ret = g_t[i].ret;
        return 0;
      }
  }
  return real_pthread_join()(pt, ret);
}
int pthread_detach(pthread_t pt) {
  if (!SimActive()) return real_pthread_detach()(pt);
  return 0;
}
int pthread_mutex_lock(pthread_mutex_t* m) {
  if (!Multi()) return real_pthread_mutex_lock()(m);
  SyncPoint();
  for (;;) {
    int rc = real_pthread_mutex_trylock()(m);
    if (rc != EBUSY) return rc;
    Block(m);
  }
}
int pthread_mutex_unlock(pthread_mutex_t* m) {
  int rc = real_pthread_mutex_unlock()(m);
  if (Multi()) {
    WakeAll(m);
    SyncPoint();
  }
  return rc;
}
int pthread_cond_wait(pthread_cond_t* cv, pthread_mutex_t* m) {
  if (!SimActive()) return real_pthread_cond_wait()(cv, m);
  real_pthread_mutex_unlock()(m);
  WakeAll(m);
  Block(cv);
  return pthread_mutex_lock(m);
}
static int TimedWait(pthread_cond_t* cv, pthread_mutex_t* m, const struct timespec* ts, bool mono) {
  // Timed waits: other runnable threads go first; if there are none, time passes.
  int next = -1;
  for (int i = 0; i < g_nt; ++i)
    if (i != g_cur && g_t[i].state == T_RUNNABLE) next = i;
  real_pthread_mutex_unlock()(m);
  WakeAll(m);
  int rc = 0;
  if (next >= 0) {
    SyncPoint();
    Preempt(ST_PREEMPT);
  } else {
    int64_t t = ts->tv_sec * 1000000000LL + ts->tv_nsec;
    int64_t& now = mono ? g_mono : g_now;
    if (t > now) now = t;
    rc = ETIMEDOUT;
  }
  int rc2 = pthread_mutex_lock(m);
  return rc2 ? rc2 : rc;
}
int pthread_cond_timedwait(pthread_cond_t* cv, pthread_mutex_t* m, const struct timespec* ts) {
  if (!SimActive()) return real_pthread_cond_timedwait()(cv, m, ts);
  return TimedWait(cv, m, ts, false);
}
int pthread_cond_clockwait(pthread_cond_t* cv, pthread_mutex_t* m, clockid_t c, const struct timespec* ts) {
  if (!SimActive()) return real_pthread_cond_clockwait()(cv, m, c, ts);
  return TimedWait(cv, m, ts, c == CLOCK_MONOTONIC);
}
int pthread_cond_signal(pthread_cond_t* cv) {
  if (!SimActive()) return real_pthread_cond_signal()(cv);
  WakeOne(cv);
  SyncPoint();
  return 0;
}
int pthread_cond_broadcast(pthread_cond_t* cv) {
  if (!SimActive()) return real_pthread_cond_broadcast()(cv);
  WakeAll(cv);
  SyncPoint();
  return 0;
}
int pthread_rwlock_rdlock(pthread_rwlock_t* l) {
  if (!Multi()) return real_pthread_rwlock_rdlock()(l);
  SyncPoint();
  for (;;) {
    int rc = real_pthread_rwlock_tryrdlock()(l);
    if (rc != EBUSY) return rc;
    Block(l);
  }
}
int pthread_rwlock_wrlock(pthread_rwlock_t* l) {
  if (!Multi()) return real_pthread_rwlock_wrlock()(l);
  SyncPoint();
  for (;;) {
    int rc = real_pthread_rwlock_trywrlock()(l);
    if (rc != EBUSY) return rc;
    Block(l);
  }
}
int pthread_rwlock_unlock(pthread_rwlock_t* l) {
  int rc = real_pthread_rwlock_unlock()(l);
  if (Multi()) {
    WakeAll(l);
    SyncPoint();
  }
  return rc;
}
int pthread_once(pthread_once_t* o, void (*fn)(void)) {
  if (!SimActive()) return real_pthread_once()(o, fn);
  constexpr int kDone = 2, kRunning = 1 << 20;
  for (;;) {
    if (*o == kDone) return 0;
    if (*o == kRunning) {
      Block(o);
      continue;
    }
    *o = kRunning;
    try {
      fn();
    } catch (...) {
      *o = 0;
      WakeAll(o);
      throw;
    }
    *o = kDone;
    WakeAll(o);
    return 0;
  }
}
// Function-local statics: a thread preempted inside an initialiser must not make
// another one wait for real.
int __cxa_guard_acquire(uint64_t* g) {
  volatile char* b = (volatile char*)g;
  for (;;) {
    if (b[0] == 1) return 0;
    if (b[1] == 0) {
      b[1] = 1;
      return 1;
    }
    if (!Multi()) abort();  // recursive initialisation
    Block(g);
  }
}
void __cxa_guard_release(uint64_t* g) {
  volatile char* b = (volatile char*)g;
  b[1] = 0;
  b[0] = 1;
  if (Multi()) WakeAll(g);
}
void __cxa_guard_abort(uint64_t* g) {
  volatile char* b = (volatile char*)g;
  b[1] = 0;
  if (Multi()) WakeAll(g);
}
int sched_yield(void) {
  if (!Multi()) return real_sched_yield()();
  ++g_access;
  Preempt(ST_PREEMPT);
  return 0;
}

// ---- clock
int clock_gettime(clockid_t id, struct timespec* ts) {
  if (!SimActive()) return real_clock_gettime()(id, ts);
  ClockTick();
  int64_t t = id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE ? g_now : g_mono;
  ts->tv_sec = t / 1000000000LL;
  ts->tv_nsec = t % 1000000000LL;
  return 0;
}
int gettimeofday(struct timeval* tv, void* tz) {
  if (!SimActive()) return real_gettimeofday()(tv, tz);
  ClockTick();
  tv->tv_sec = g_now / 1000000000LL;
  tv->tv_usec = g_now % 1000000000LL / 1000;
  return 0;
}
time_t time(time_t* p) {
  if (!SimActive()) return real_time()(p);
  ClockTick();
  time_t t = g_now / 1000000000LL;
  if (p) *p = t;
  return t;
}
int nanosleep(const struct timespec* a, struct timespec* rem) {
  if (!SimActive()) return real_nanosleep()(a, rem);
  int64_t d = a->tv_sec * 1000000000LL + a->tv_nsec;
  g_now += d;
  g_mono += d;
  sched_yield();
  return 0;
}
int clock_nanosleep(clockid_t id, int fl, const struct timespec* a, struct timespec* rem) {
  if (!SimActive()) return real_clock_nanosleep()(id, fl, a, rem);
  int64_t t = a->tv_sec * 1000000000LL + a->tv_nsec;
  if (fl & TIMER_ABSTIME) t -= id == CLOCK_REALTIME ? g_now : g_mono;
  if (t > 0) g_now += t, g_mono += t;
  sched_yield();
  return 0;
}
int usleep(useconds_t us) {
  if (!SimActive()) return real_usleep()(us);
  g_now += us * 1000LL;
  g_mono += us * 1000LL;
  sched_yield();
  return 0;
}
int get_nprocs(void) {
  if (!SimActive()) return real_get_nprocs()();
  return g_sh->cfg.cpus > 0 ? g_sh->cfg.cpus : 1;
}
long sysconf(int name) {
  if (SimActive() && (name == _SC_NPROCESSORS_ONLN || name == _SC_NPROCESSORS_CONF)) return get_nprocs();
  return real_sysconf()(name);
}

// ---- identity and randomness
pid_t getpid(void) {
  if (!SimActive()) return (pid_t)syscall(SYS_getpid);
  return 4242;
}
pid_t getppid(void) {
  if (!SimActive()) return (pid_t)syscall(SYS_getppid);
  return 4241;
}
pid_t gettid(void) {
  if (!SimActive()) return (pid_t)syscall(SYS_gettid);
  return 4242 + sim::g_cur;
}
ssize_t getrandom(void* p, size_t n, unsigned fl) {
  if (!SimActive()) return syscall(SYS_getrandom, p, n, fl);
  for (size_t i = 0; i < n; ++i) ((uint8_t*)p)[i] = (uint8_t)sim::Random();
  return n;
}
int getentropy(void* p, size_t n) { return getrandom(p, n, 0) < 0 ? -1 : 0; }
uint32_t arc4random(void) { return sim::Random(); }

// ---- memory
extern void* __libc_malloc(size_t);
extern void* __libc_calloc(size_t, size_t);
extern void __libc_free(void*);
void* malloc(size_t n) {
  if (!SimActive()) return __libc_malloc(n);
  ExecCfg& c = g_sh->cfg;
  if (n >= c.alloc_fail_min) {
    const uint64_t k = g_sh->res.alloc_count++;
    if (c.alloc_fail_at >= 0 && k == (uint64_t)c.alloc_fail_at) {
      ++g_sh->res.stat[ST_ALLOC_FAIL];
      errno = ENOMEM;
      return nullptr;
    }
  }
  void* p = __libc_malloc(n);
  if (p && c.fill_byte >= 0) memset(p, c.fill_byte, n > 65536 ? 65536 : n);
  return p;
}
void free(void* p) {
  // Released memory is overwritten too, so that a later use shows.
  if (p && SimActive() && g_sh->cfg.fill_byte >= 0) {
    const size_t n = malloc_usable_size(p);
    memset(p, g_sh->cfg.fill_byte, n > 65536 ? 65536 : n);
  }
  __libc_free(p);
}

// ---- instrumentation ABI
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define RD(n) \
  void __tsan_read##n(void* a) { Access(a, false); } \
  void __tsan_write##n(void* a) { Access(a, true); } \
  void __tsan_unaligned_read##n(void* a) { Access(a, false); } \
  void __tsan_unaligned_write##n(void* a) { Access(a, true); } \
  void __tsan_volatile_read##n(void* a) { Access(a, false); } \
  void __tsan_volatile_write##n(void* a) { Access(a, true); } \
  void __tsan_unaligned_volatile_read##n(void* a) { Access(a, false); } \
  void __tsan_unaligned_volatile_write##n(void* a) { Access(a, true); }
RD(1) RD(2) RD(4) RD(8) RD(16)
void __tsan_read_range(void* a, size_t) { Access(a, false); }
void __tsan_write_range(void* a, size_t) { Access(a, true); }
void __tsan_vptr_update(void** a, void*) { Access(a, true); }
void __tsan_vptr_read(void** a) { Access(a, false); }

#define ATOMICS(bits, T) \
  T __tsan_atomic##bits##_load(const volatile T* a, int) { Access((void*)a, false); return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
  void __tsan_atomic##bits##_store(volatile T* a, T v, int) { Access((void*)a, true); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_exchange(volatile T* a, T v, int) { Access((void*)a, true); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_fetch_add(volatile T* a, T v, int) { Access((void*)a, true); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_fetch_sub(volatile T* a, T v, int) { Access((void*)a, true); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_fetch_and(volatile T* a, T v, int) { Access((void*)a, true); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_fetch_or(volatile T* a, T v, int) { Access((void*)a, true); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_fetch_xor(volatile T* a, T v, int) { Access((void*)a, true); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_fetch_nand(volatile T* a, T v, int) { Access((void*)a, true); return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); } \
  int __tsan_atomic##bits##_compare_exchange_strong(volatile T* a, T* c, T v, int, int) { Access((void*)a, true); return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
  int __tsan_atomic##bits##_compare_exchange_weak(volatile T* a, T* c, T v, int, int) { Access((void*)a, true); return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_compare_exchange_val(volatile T* a, T c, T v, int, int) { Access((void*)a, true); __atomic_compare_exchange_n(a, &c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return c; }
ATOMICS(8, uint8_t)
ATOMICS(16, uint16_t)
ATOMICS(32, uint32_t)
ATOMICS(64, uint64_t)
void __tsan_atomic_thread_fence(int) { __atomic_thread_fence(__ATOMIC_SEQ_CST); }
void __tsan_atomic_signal_fence(int) {}

}  // extern "C"

// ---- std::random_device
namespace std {
void random_device::_M_init(const std::string&) { _M_file = nullptr; _M_func = nullptr; _M_fd = -1; }
void random_device::_M_init_pretr1(const std::string&) { _M_file = nullptr; _M_func = nullptr; _M_fd = -1; }
void random_device::_M_fini() {}
random_device::result_type random_device::_M_getval() { return sim::Random(); }
random_device::result_type random_device::_M_getval_pretr1() { return sim::Random(); }
double random_device::_M_getentropy() const noexcept { return 32; }
}  // namespace std

// ---- std::future waits
namespace std {
bool __atomic_futex_unsigned_base::_M_futex_wait_until(unsigned* addr, unsigned val, bool has_timeout,
                                                       chrono::seconds s, chrono::nanoseconds ns) {
  while (__atomic_load_n(addr, __ATOMIC_SEQ_CST) == val) {
    if (!SimActive()) {
      real_sched_yield()();
      continue;
    }
    if (has_timeout) {
      ++g_access;
      Preempt(ST_PREEMPT);
      if (__atomic_load_n(addr, __ATOMIC_SEQ_CST) != val) return true;
      int64_t t = s.count() * 1000000000LL + ns.count();
      if (t > g_now) g_now = t;
      return false;
    }
    Block(addr);
  }
  return true;
}
bool __atomic_futex_unsigned_base::_M_futex_wait_until_steady(unsigned* addr, unsigned val, bool has_timeout,
                                                              chrono::seconds s, chrono::nanoseconds ns) {
  while (__atomic_load_n(addr, __ATOMIC_SEQ_CST) == val) {
    if (!SimActive()) {
      real_sched_yield()();
      continue;
    }
    if (has_timeout) {
      ++g_access;
      Preempt(ST_PREEMPT);
      if (__atomic_load_n(addr, __ATOMIC_SEQ_CST) != val) return true;
      int64_t t = s.count() * 1000000000LL + ns.count();
      if (t > g_mono) g_mono = t;
      return false;
    }
    Block(addr);
  }
  return true;
}
void __atomic_futex_unsigned_base::_M_futex_notify_all(unsigned* addr) {
  if (SimActive()) WakeAll(addr);
}
}  // namespace std

// ---- abseil's clock interpolates with the processor's cycle counter: read the simulated one.
namespace absl {
ABSL_NAMESPACE_BEGIN
int64_t GetCurrentTimeNanos() {
  struct timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  return ts.tv_sec * 1000000000LL + ts.tv_nsec;
}
Time Now() {
  struct timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  return time_internal::FromUnixDuration(time_internal::MakeDuration(
      ts.tv_sec, static_cast<uint32_t>(ts.tv_nsec) * 4u));
}
ABSL_NAMESPACE_END
}  // namespace absl
