/* Controlled scheduler. Compiled by gcc, not instrumented.
 *
 * The compiler calls back at every basic block and before every load and store
 * of the instrumented crates. A registered thread owns the baton ("turn") while
 * it runs; everyone else waits at its next callback. A plan lists the points
 * (thread, number of the callback) at which the baton is handed over.
 */
#define _GNU_SOURCE
#include <stdint.h>
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
#include <unistd.h>
#include <fcntl.h>
#include <time.h>
#include <errno.h>
#include <sys/syscall.h>
#include <linux/futex.h>

#define MAXT 4
#define MAXPLAN 8

struct access { uint64_t at; uintptr_t lo; uint32_t len; uint32_t write; };

static struct { int thread; uint64_t at; int to; } plan[MAXPLAN];
static int nplan, plan_i;
static int nthreads;
/* A thread's callbacks so far, and the callback at which it must look up. */
struct th { volatile uint64_t count; volatile uint64_t stop; uint64_t run_from; char pad[104]; };
static struct th th[MAXT];
static volatile int turn;
static volatile int done_[MAXT], tid_[MAXT];
static uint64_t fairness = 50u * 1000 * 1000;
static volatile uint64_t taken_, blocked_;
static volatile int warp_; /* counts forced handovers */

/* optional access log, one per thread */
static struct access *log_[MAXT];
static uint64_t log_n[MAXT], log_cap;

static __thread struct th *mine;
static __thread int me = -1;
static __thread uintptr_t stack_lo, stack_hi;

static void fwait(volatile int *p, int v, long ns) {
  struct timespec t = {0, ns};
  syscall(SYS_futex, p, FUTEX_WAIT_PRIVATE, v, &t, 0, 0);
}
static void fwake(volatile int *p) { syscall(SYS_futex, p, FUTEX_WAKE_PRIVATE, 100, 0, 0, 0); }

static char state_of(int tid) {
  char p[64], b[256];
  snprintf(p, sizeof p, "/proc/self/task/%d/stat", tid);
  int f = open(p, O_RDONLY);
  if (f < 0) return '?';
  ssize_t n = read(f, b, sizeof b - 1);
  close(f);
  if (n <= 0) return '?';
  b[n] = 0;
  char *q = strrchr(b, ')');
  return q && q[1] ? q[2] : '?';
}

static void give(int to) {
  __atomic_store_n(&turn, to, __ATOMIC_SEQ_CST);
  fwake(&turn);
}

/* The thread after `from` that can still run, or -1. */
static int other(int from) {
  for (int k = 1; k < nthreads; k++) {
    int t = (from + k) % nthreads;
    if (!done_[t]) return t;
  }
  return -1;
}

/* Wait for the baton. If its holder sleeps in the kernel (it waits for a lock
 * held by a thread that was preempted) take the baton over. */
static void await_turn(void) {
  uint64_t seen = ~0ull;
  int asleep = 0, holder = -1;
  for (;;) {
    int t = __atomic_load_n(&turn, __ATOMIC_SEQ_CST);
    if (t == me) return;
    fwait(&turn, t, 200 * 1000);
    int h = __atomic_load_n(&turn, __ATOMIC_SEQ_CST);
    if (h == me) return;
    if (h < 0 || !tid_[h]) continue;
    uint64_t c = th[h].count;
    if (h == holder && c == seen && state_of(tid_[h]) == 'S') asleep++;
    else asleep = 0;
    holder = h;
    seen = c;
    if (asleep >= 4) {
      int expect = h;
      if (__atomic_compare_exchange_n(&turn, &expect, me, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST)) {
        __atomic_store_n(&th[h].stop, 0, __ATOMIC_SEQ_CST);
        __atomic_fetch_add(&blocked_, 1, __ATOMIC_SEQ_CST);
        return;
      }
      asleep = 0;
    }
  }
}

static void rearm(struct th *t) {
  uint64_t stop = t->count + fairness;
  if (plan_i < nplan && plan[plan_i].thread == me && plan[plan_i].at < stop) stop = plan[plan_i].at;
  if (log_cap) stop = 0;
  __atomic_store_n(&t->stop, stop, __ATOMIC_SEQ_CST);
  /* the baton may have been taken in between */
  if (turn != me) __atomic_store_n(&t->stop, 0, __ATOMIC_SEQ_CST);
}

static void __attribute__((noinline)) slow(struct th *t, uintptr_t lo, uint32_t len, int write) {
  if (turn != me) await_turn();
  uint64_t c = t->count;
  if (log_cap && len && !(lo >= stack_lo && lo < stack_hi)) {
    uint64_t n = log_n[me];
    if (n < log_cap) {
      struct access *a = &log_[me][n];
      a->at = c; a->lo = lo; a->len = len; a->write = write;
    }
    log_n[me] = n + 1;
  }
  if (plan_i < nplan && plan[plan_i].thread == me && plan[plan_i].at <= c) {
    int to = plan[plan_i++].to;
    if (to < 0 || done_[to]) to = other(me);
    if (to >= 0 && to != me) {
      taken_++;
      t->run_from = c;
      give(to);
      await_turn();
    }
  } else if (!log_cap && c - t->run_from >= fairness) {
    int to = other(me);
    warp_++;
    t->run_from = c;
    if (to >= 0) {
      give(to);
      await_turn();
    }
  }
  rearm(t);
}

static inline __attribute__((always_inline)) void point(uintptr_t lo, uint32_t len, int write) {
  struct th *t = mine;
  if (__builtin_expect(!t, 0)) return;
  if (__builtin_expect(++t->count >= t->stop, 0)) slow(t, lo, len, write);
}

void __sanitizer_cov_trace_pc(void) { point(0, 0, 0); }
#define LS(n) \
  void __sanitizer_cov_load##n(uintptr_t a) { point(a, n, 0); } \
  void __sanitizer_cov_store##n(uintptr_t a) { point(a, n, 1); }
LS(1) LS(2) LS(4) LS(8) LS(16)

/* ---- interface for the driver */
void conc_setup(int n, int first, uint64_t fair) {
  nthreads = n;
  nplan = plan_i = 0;
  fairness = fair;
  turn = first;
  memset((void *)done_, 0, sizeof done_);
  memset((void *)tid_, 0, sizeof tid_);
  memset((void *)th, 0, sizeof th);
  taken_ = 0; blocked_ = 0; warp_ = 0;
}
void conc_plan(int thread, uint64_t at, int to) {
  if (nplan < MAXPLAN) { plan[nplan].thread = thread; plan[nplan].at = at; plan[nplan].to = to; nplan++; }
}
void conc_log(uint64_t cap) {
  log_cap = cap;
  for (int k = 0; k < MAXT; k++) { log_n[k] = 0; if (cap && !log_[k]) log_[k] = malloc(cap * sizeof(struct access)); }
}
void conc_begin(int id, uintptr_t stack_bytes) {
  uintptr_t sp = (uintptr_t)__builtin_frame_address(0);
  stack_lo = sp - stack_bytes;
  stack_hi = sp + 65536;
  tid_[id] = (int)syscall(SYS_gettid);
  me = id;
  await_turn();
  mine = &th[id];
  rearm(mine);
}
void conc_end(void) {
  int id = me;
  mine = 0;
  me = -1;
  done_[id] = 1;
  if (__atomic_load_n(&turn, __ATOMIC_SEQ_CST) == id) {
    int to = other(id);
    give(to >= 0 ? to : -1);
  }
}
uint64_t conc_count(int id) { return th[id].count; }
uint64_t conc_taken(void) { return taken_; }
uint64_t conc_blocked(void) { return blocked_; }
uint64_t conc_forced(void) { return (uint64_t)warp_; }
int conc_done(int id) { return done_[id]; }
uint64_t conc_log_len(int id) { return log_n[id]; }
const struct access *conc_log_at(int id) { return log_[id]; }
