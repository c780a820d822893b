// otelsim runtime: runs real OS threads one at a time under a seeded scheduler.
// Scheduling points: every atomic operation of the instrumented crates (via the __tsan_* entry points rustc's
// -Zsanitizer=thread instrumentation calls), futexes, thread creation/exit/join, sleeps, yields and clock reads.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <linux/futex.h>
#include <pthread.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>
#include "rt.h"

extern char __ehdr_start[];
#define MAXT 256
#define FUTEX_CMD(op) ((op) & 127)
#define SEC 1000000000ull
#define NEVER UINT64_MAX

enum { FREE = 0, RUNNABLE, BLOCKED, EXITED };
enum { B_NONE, B_FUTEX, B_SLEEP, B_JOIN, B_STALL, B_NET };

struct thr {
  int id, state, why, low, timed_out, detached;
  pthread_t real;
  uint32_t go; // real futex word: 1 = may run
  uint32_t *addr;
  uint32_t bitset;
  int join_target;
  uint64_t deadline; // virtual monotonic ns, NEVER = none
  uint64_t block_seq;
  uint64_t prio;
  void *(*fn)(void *);
  void *arg;
  int tsd_round;
  uint64_t busy; // time passed while this thread polled with nobody else to run, since it last blocked
};

static struct thr T[MAXT];
static int nT, nalive;
static struct thr *cur;
static __thread struct thr *me;
static int active;
static struct sim_cfg C;
static struct sim_shm *H;
static uint64_t vnow, rt_off, step, cpoint, run_len, next_deadline;
static uint64_t wake_seq;
static struct thr *reap;
static pthread_key_t exit_key;
static uint64_t rng_sched, rng_rand;
static uint32_t rep_pos; // replay position in H->sched
static uint64_t pct_points[16];
static int pct_n;
static uint64_t low_prio;
static uint64_t nclocked;

static int (*real_create)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
static int (*real_join)(pthread_t, void **);
static int (*real_detach)(pthread_t);

static long raw(long n, long a, long b, long c, long d, long e, long f) {
  long r;
  register long r10 __asm__("r10") = d;
  register long r8 __asm__("r8") = e;
  register long r9 __asm__("r9") = f;
  __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
  return r;
}
static uint64_t sm64(uint64_t *s) {
  uint64_t z = (*s += 0x9e3779b97f4a7c15ull);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}
static uint64_t mix(uint64_t a, uint64_t b) { uint64_t s = a * 0x9e3779b97f4a7c15ull + b; sm64(&s); return sm64(&s); }

// ---------------------------------------------------------------- results
static void finish(int status) {
  H->steps = step; H->vtime = vnow; H->nthreads = nT; H->points = cpoint;
  __atomic_store_n(&H->status, status, __ATOMIC_SEQ_CST);
  raw(SYS_exit_group, status == SIM_OK ? 0 : 1, 0, 0, 0, 0, 0);
  __builtin_unreachable();
}
static void copystr(char *dst, size_t cap, const char *s, size_t n) {
  if (n >= cap) n = cap - 1;
  memcpy(dst, s, n); dst[n] = 0;
}
void sim_done(void) { finish(SIM_OK); }
void sim_violation(const char *cls, size_t cn, const char *msg, size_t mn) {
  copystr(H->cls, sizeof H->cls, cls, cn); copystr(H->msg, sizeof H->msg, msg, mn);
  finish(SIM_VIOLATION);
}
static void describe_threads(char *b, size_t cap) {
  size_t k = 0;
  for (int i = 0; i < nT && k + 80 < cap; i++) {
    struct thr *t = &T[i];
    if (t->state == EXITED) continue;
    static const char *w[] = {"-", "futex", "sleep", "join", "stall", "network"};
    k += snprintf(b + k, cap - k, " T%d:%s/%s", i, t->state == RUNNABLE ? "runnable" : "blocked", w[t->why]);
  }
}
static void hang(int status, const char *what) {
  char b[1024]; b[0] = 0;
  describe_threads(b, sizeof b);
  snprintf(H->cls, sizeof H->cls, "%s", what);
  snprintf(H->msg, sizeof H->msg, "%s at t=%.6fs step=%lu:%s", what, vnow / 1e9, (unsigned long)step, b);
  finish(status);
}
static void internal(const char *m) {
  snprintf(H->msg, sizeof H->msg, "internal: %s", m);
  finish(SIM_INTERNAL);
}
void sim_count(const char *name, size_t n, uint64_t d) {
  char nm[40]; copystr(nm, sizeof nm, name, n);
  for (int i = 0; i < SIM_NCOUNT; i++) {
    if (!H->count[i].name[0]) { memcpy(H->count[i].name, nm, sizeof nm); H->count[i].v = d; return; }
    if (!strcmp(H->count[i].name, nm)) { H->count[i].v += d; return; }
  }
}
static void cnt(const char *s) { sim_count(s, strlen(s), 1); }
void sim_trace(const char *s, size_t n) {
  if (!C.trace) return;
  char b[600]; size_t k = snprintf(b, 80, "%12.6f #%-7lu T%-2d ", vnow / 1e9, (unsigned long)step, me ? me->id : -1);
  if (n > sizeof b - k - 2) n = sizeof b - k - 2;
  memcpy(b + k, s, n); b[k + n] = '\n';
  raw(SYS_write, C.trace_fd, (long)b, k + n + 1, 0, 0, 0);
}
static void trf(const char *f, ...) {
  if (!C.trace) return;
  char b[256]; va_list ap; va_start(ap, f); int n = vsnprintf(b, sizeof b, f, ap); va_end(ap);
  sim_trace(b, n);
}

// ---------------------------------------------------------------- workload choices
uint32_t sim_choose(uint32_t stream, uint32_t n) {
  if (n <= 1 || !active) return 0;
  if (stream >= SIM_STREAMS) stream = SIM_STREAMS - 1;
  struct sim_stream *w = &H->w[stream];
  uint32_t v;
  if (C.replay) v = w->pos < w->len ? w->v[w->pos] % n : 0;
  else {
    v = (uint32_t)(mix(mix(C.seed, 77 + stream), w->pos) % n);
    if (w->pos < SIM_WMAX) { w->v[w->pos] = v; w->len = w->pos + 1; }
  }
  if (w->pos < SIM_WMAX) w->pos++; else if (C.replay) v = 0;
  return v;
}

// ---------------------------------------------------------------- schedule choices
// A choice: 0 = default. 1..n = alternative thread. 1000+e = stall current thread 2^e us. 2000 = spurious wakeup.
static void record(uint32_t v) {
  if (v && H->nsched < SIM_SMAX) { H->sched[H->nsched].at = cpoint; H->sched[H->nsched].v = v; H->nsched++; }
}
static uint32_t replayed(void) {
  while (rep_pos < H->nsched && H->sched[rep_pos].at < cpoint) rep_pos++;
  if (rep_pos < H->nsched && H->sched[rep_pos].at == cpoint) return H->sched[rep_pos].v;
  return 0;
}
static int others(struct thr **out, int skip_low) { // runnable threads other than me, cyclic order
  int n = 0, base = me ? me->id : 0;
  for (int k = 1; k <= nT; k++) {
    struct thr *t = &T[(base + k) % nT];
    if (t == me || t->state != RUNNABLE) continue;
    if (skip_low && t->low) continue;
    out[n++] = t;
  }
  return n;
}
static uint64_t draw(void) { return sm64(&rng_sched); }
static int interesting(uintptr_t site) {
  if (!C.nranges) return 1;
  int lo = 0, hi = C.nranges - 1;
  while (lo <= hi) {
    int m = (lo + hi) / 2;
    if (site < C.ranges[m].lo) hi = m - 1;
    else if (site >= C.ranges[m].hi) lo = m + 1;
    else return 1;
  }
  return 0;
}
static uint32_t index_of(struct thr **o, int n, struct thr *t) {
  for (int i = 0; i < n; i++) if (o[i] == t) return i;
  return 0;
}
static struct thr *best_prio(struct thr **o, int n) {
  struct thr *b = o[0];
  for (int i = 1; i < n; i++) if (o[i]->prio > b->prio) b = o[i];
  return b;
}
// policy decision at a voluntary point: 0 = stay
static uint32_t decide(uintptr_t site, struct thr **o, int n) {
  int hot = interesting(site);
  switch (C.mode) {
  case SIM_RANDOM:
    if (!hot && (draw() & 7)) return 0;
    if (C.p_stall && draw() % C.p_stall == 0) return 1000 + C.stall_lo + draw() % C.stall_span;
    if (!n || draw() % C.p_switch) return 0;
    return 1 + draw() % n;
  case SIM_PCT: {
    if (C.p_stall && hot && draw() % C.p_stall == 0) return 1000 + C.stall_lo + draw() % C.stall_span;
    if (!n) return 0;
    int hit = 0;
    if (hot) { // change points count interesting points only
      nclocked++;
      for (int i = 0; i < pct_n; i++) if (pct_points[i] == nclocked) hit = 1;
    }
    if (hit) me->prio = --low_prio;
    struct thr *b = best_prio(o, n);
    if (b->prio > me->prio) return 1 + index_of(o, n, b);
    return 0;
  }
  case SIM_SITE: {
    if (!n && !C.p_stall) return 0;
    if (mix(C.seed ^ 0x51735, site) % C.site_mod) {
      return (n && draw() % 512 == 0) ? 1 + draw() % n : 0;
    }
    if (!hot && (draw() & 7)) return 0;
    if (draw() & 1) return 0;
    if (C.p_stall && draw() % (C.p_stall / 64 + 2) == 0) return 1000 + C.stall_lo + draw() % C.stall_span;
    if (!n) return 0;
    me->low = 1;
    return 1 + draw() % n;
  }
  default: return 0;
  }
}
static uint32_t decide_forced(struct thr **o, int n) { // returns index
  if (n <= 1) return 0;
  if (C.mode == SIM_PCT) return index_of(o, n, best_prio(o, n));
  struct thr *nl[MAXT]; int m = 0;
  for (int i = 0; i < n; i++) if (!o[i]->low) nl[m++] = o[i];
  if (m && draw() % 16) return index_of(o, n, nl[draw() % m]);
  uint32_t i = draw() % n; o[i]->low = 0;
  return i;
}
static void note_switch(struct thr *to, uintptr_t site) {
  H->nswitch++;
  H->hash = mix(H->hash ^ site, (uint64_t)to->id * 1315423911u + (me ? me->id : 99));
}

// ---------------------------------------------------------------- handoff
static void handoff(struct thr *t) { // give the CPU to t, without waiting
  cur = t; run_len = 0;
  __atomic_store_n(&t->go, 1, __ATOMIC_RELEASE);
  raw(SYS_futex, (long)&t->go, FUTEX_WAKE | FUTEX_PRIVATE_FLAG, 1, 0, 0, 0);
}
static void wait_turn(struct thr *t) {
  while (!__atomic_load_n(&t->go, __ATOMIC_ACQUIRE))
    raw(SYS_futex, (long)&t->go, FUTEX_WAIT | FUTEX_PRIVATE_FLAG, 0, 0, 0, 0);
  __atomic_store_n(&t->go, 0, __ATOMIC_RELAXED);
  if (reap) { struct thr *r = reap; reap = NULL; real_join(r->real, NULL); }
}
static void make_runnable(struct thr *t, int timed_out) {
  t->state = RUNNABLE; t->why = B_NONE; t->timed_out = timed_out; t->deadline = NEVER; t->addr = NULL;
}
static void fire_timers(void) {
  if (next_deadline > vnow) return;
  next_deadline = NEVER;
  for (int i = 0; i < nT; i++) {
    struct thr *t = &T[i];
    if (t->state != BLOCKED || t->deadline == NEVER) continue;
    if (t->deadline <= vnow) make_runnable(t, 1);
    else if (t->deadline < next_deadline) next_deadline = t->deadline;
  }
}
static void set_deadline(struct thr *t, uint64_t d) { t->deadline = d; if (d < next_deadline) next_deadline = d; }
static void tick(void) {
  step++; vnow += C.step_ns;
  if (step > C.max_steps) hang(SIM_LIVELOCK, "livelock");
  fire_timers();
}
// The current thread cannot run (blocked or exiting): pick another, advancing time if needed.
static struct thr *pick_forced(uintptr_t site) {
  for (;;) {
    struct thr *o[MAXT]; int n = others(o, 0);
    if (me && me->state == RUNNABLE) { // became runnable through a timer
      memmove(o + 1, o, sizeof(o[0]) * n); o[0] = me; n++;
    }
    if (n) {
      cpoint++;
      uint32_t i = C.replay ? replayed() : decide_forced(o, n);
      if (i >= (uint32_t)n) i = 0;
      if (!C.replay) record(i);
      note_switch(o[i], site);
      return o[i];
    }
    if (next_deadline == NEVER) hang(SIM_DEADLOCK, "deadlock");
    if (next_deadline > C.max_vtime) hang(SIM_LIVELOCK, "no progress within simulated-time budget");
    if (next_deadline > vnow) { H->idle_jumps++; vnow = next_deadline; }
    fire_timers();
  }
}
static uint64_t max_busy; // busy-waiting longer than this is reported, 0 = never
void sim_no_busy_wait(uint64_t ns) { max_busy = ns; }
static uint64_t stalled; // total time threads were stalled for
static uint64_t spin; // points since a thread last blocked
static void block(uintptr_t site) { // me->state already BLOCKED
  struct thr *m = me;
  m->block_seq = ++wake_seq; spin = 0; m->busy = 0;
  struct thr *t = pick_forced(site);
  trf("blocked(%d) -> T%d", m->why, t->id);
  if (t != m) { handoff(t); wait_turn(m); }
  run_len = 0;
}
#define FAIR 1000
static int end_stall(void) {
  struct thr *b = NULL;
  for (int i = 0; i < nT; i++)
    if (T[i].state == BLOCKED && T[i].why == B_STALL && (!b || T[i].deadline < b->deadline)) b = &T[i];
  if (b) make_runnable(b, 0);
  return b != NULL;
}
static void point_at(uintptr_t site) {
  if (!active || !me || C.nopreempt) return;
  tick();
  cpoint++;
  struct thr *o[MAXT]; int n = 0; uint32_t c = 0;
  int fair = ++run_len >= FAIR;
  if (++spin >= 3 * FAIR) { spin = 0; end_stall(); } // whoever spins may be waiting for a stalled thread
  if (C.replay) {
    c = replayed();
    if (c || fair) n = others(o, 0);
  } else {
    n = nalive > 1 ? others(o, 0) : 0;
    if (n || C.p_stall) c = decide(site, o, n);
  }
  if (fair && !c && n) { // fairness for spinning threads (deterministic)
    run_len = 0; me->prio = --low_prio; note_switch(o[0], site); handoff(o[0]); wait_turn(me); return;
  }
  if (c >= 1000 && c < 2000) { // stalls take at most a quarter of the run's time budget, so that they alone never exhaust it
    if (stalled + (1000ull << (c - 1000)) > C.max_vtime / 4) c = 0; else stalled += 1000ull << (c - 1000);
  }
  if (!c) return;
  if (!C.replay) record(c);
  if (c >= 1000 && c < 2000) {
    me->state = BLOCKED; me->why = B_STALL;
    set_deadline(me, vnow + (1000ull << (c - 1000)));
    H->nstall++;
    trf("stalled for %.6fs at %lx", (1000ull << (c - 1000)) / 1e9, site);
    block(site); return;
  }
  if (!n) return;
  struct thr *t = o[(c - 1) % n];
  H->npreempt++;
  note_switch(t, site);
  trf("preempted at %lx -> T%d", site, t->id);
  struct thr *m = me;
  handoff(t); wait_turn(m);
}
#define SITE ((uintptr_t)__builtin_return_address(0) - (uintptr_t)__ehdr_start)
void sim_point(void) { point_at(SITE); }

// ---------------------------------------------------------------- threads
static void exit_dtor(void *p) {
  struct thr *t = p;
  if (t->tsd_round++ < 3) { pthread_setspecific(exit_key, t); return; }
  // last round: no more user code runs on this thread
  tick();
  t->state = EXITED; nalive--;
  for (int i = 0; i < nT; i++)
    if (T[i].state == BLOCKED && T[i].why == B_JOIN && T[i].join_target == t->id) make_runnable(&T[i], 0);
  trf("thread exits");
  struct thr *n = pick_forced(1);
  me = NULL;
  reap = t;
  handoff(n);
}
static void *tramp(void *p) {
  struct thr *t = p;
  me = t;
  wait_turn(t);
  pthread_setspecific(exit_key, t);
  return t->fn(t->arg);
}
static void resolve(void) {
  if (!real_create) {
    real_create = dlsym(RTLD_NEXT, "pthread_create");
    real_join = dlsym(RTLD_NEXT, "pthread_join");
    real_detach = dlsym(RTLD_NEXT, "pthread_detach");
  }
}
#define FAKE ((uintptr_t)0x51b0000000000000ull)
static int fail_spawns;
void sim_fail_spawns(int n) { fail_spawns = n; }
int sim_threads_alive(void) { return nalive; }
int pthread_create(pthread_t *out, const pthread_attr_t *a, void *(*fn)(void *), void *arg) {
  resolve();
  if (!active || !me) return real_create(out, a, fn, arg);
  if (fail_spawns > 0) { fail_spawns--; cnt("fault.spawn_failed"); return EAGAIN; }
  if (nT >= MAXT) internal("too many threads");
  struct thr *t = &T[nT];
  memset(t, 0, sizeof *t);
  t->id = nT; t->state = RUNNABLE; t->deadline = NEVER; t->fn = fn; t->arg = arg;
  t->prio = C.replay ? 0 : ((draw() >> 1) | (1ull << 62));
  int r = real_create(&t->real, a, tramp, t);
  if (r) return r;
  nT++; nalive++;
  *out = (pthread_t)(FAKE + t->id); // real handles may be reused, ours are not
  trf("spawned T%d", t->id);
  point_at(SITE);
  return 0;
}
static struct thr *by_real(pthread_t p) {
  uintptr_t v = (uintptr_t)p;
  return v > FAKE && v < FAKE + (uintptr_t)nT ? &T[v - FAKE] : NULL;
}
int pthread_join(pthread_t p, void **ret) {
  resolve();
  if (!active || !me) return real_join(p, ret);
  point_at(SITE);
  struct thr *t = by_real(p);
  if (!t) return ESRCH;
  while (t->state != EXITED) {
    me->state = BLOCKED; me->why = B_JOIN; me->join_target = t->id; me->deadline = NEVER;
    block(SITE);
  }
  if (ret) *ret = NULL;
  return 0;
}
int pthread_detach(pthread_t p) {
  resolve();
  if (!active || !me) return real_detach(p);
  return 0;
}

// ---------------------------------------------------------------- futex
static uint64_t ts_ns(const struct timespec *t) { return (uint64_t)t->tv_sec * SEC + t->tv_nsec; }
static uint64_t mono(void) { return C.mono_base + vnow; }
static uint64_t real_now(void) { return C.real_base + vnow + rt_off; }

static long sim_futex(uint32_t *addr, int op, uint32_t val, const struct timespec *to, uint32_t val3, uintptr_t site) {
  int cmd = FUTEX_CMD(op);
  if (cmd == FUTEX_WAIT || cmd == FUTEX_WAIT_BITSET) {
    point_at(site);
    if (__atomic_load_n(addr, __ATOMIC_SEQ_CST) != val) { errno = EAGAIN; return -1; }
    uint64_t dl = NEVER;
    if (to) {
      uint64_t x = ts_ns(to);
      if (cmd == FUTEX_WAIT) dl = vnow + x;
      else { uint64_t n = (op & FUTEX_CLOCK_REALTIME) ? real_now() : mono(); dl = x > n ? vnow + (x - n) : vnow; }
    }
    cpoint++;
    uint32_t c = C.replay ? replayed() : ((C.p_spurious && draw() % C.p_spurious == 0) ? 2000 : 0);
    if (!C.replay) record(c);
    if (c == 2000) { H->nspurious++; trf("spurious wakeup"); return 0; }
    struct thr *m = me;
    m->state = BLOCKED; m->why = B_FUTEX; m->addr = addr;
    m->bitset = cmd == FUTEX_WAIT_BITSET ? val3 : ~0u; m->deadline = NEVER;
    if (dl != NEVER) set_deadline(m, dl);
    block(site);
    if (m->timed_out) { m->timed_out = 0; errno = ETIMEDOUT; return -1; }
    return 0;
  }
  if (cmd == FUTEX_WAKE || cmd == FUTEX_WAKE_BITSET) {
    uint32_t bs = cmd == FUTEX_WAKE_BITSET ? val3 : ~0u;
    long n = 0;
    while (n < (long)(int)val) {
      struct thr *b = NULL;
      for (int i = 0; i < nT; i++) {
        struct thr *t = &T[i];
        if (t->state == BLOCKED && t->why == B_FUTEX && t->addr == addr && (t->bitset & bs) && (!b || t->block_seq < b->block_seq)) b = t;
      }
      if (!b) break;
      make_runnable(b, 0); n++;
    }
    point_at(site);
    return n;
  }
  internal("unsupported futex op");
  return -1;
}
static void sleep_until(uint64_t dl, uintptr_t site) {
  tick();
  me->state = BLOCKED; me->why = B_SLEEP; me->deadline = NEVER; set_deadline(me, dl);
  block(site);
  me->timed_out = 0;
}
static void rnd_fill(void *b, size_t n) {
  uint8_t *p = b;
  while (n) { uint64_t x = sm64(&rng_rand); size_t k = n < 8 ? n : 8; memcpy(p, &x, k); p += k; n -= k; }
}
long syscall(long n, ...) {
  va_list ap; va_start(ap, n);
  long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
  va_end(ap);
  if (active && me) {
    if (n == SYS_futex) return sim_futex((uint32_t *)a, b, c, (void *)d, f, SITE);
    if (n == SYS_getrandom) { rnd_fill((void *)a, b); return b; }
  }
  long r = raw(n, a, b, c, d, e, f);
  if (r < 0 && r > -4096) { errno = -r; return -1; }
  return r;
}
ssize_t getrandom(void *b, size_t n, unsigned fl) {
  if (active && me) { rnd_fill(b, n); return n; }
  long r = raw(SYS_getrandom, (long)b, n, fl, 0, 0, 0);
  if (r < 0) { errno = -r; return -1; }
  return r;
}
int getentropy(void *b, size_t n) { return getrandom(b, n, 0) == (ssize_t)n ? 0 : -1; }
int sched_yield(void) {
  if (!active || !me) return raw(SYS_sched_yield, 0, 0, 0, 0, 0, 0);
  tick();
  cpoint++;
  struct thr *o[MAXT]; int n = others(o, 0);
  if (!n) { // spinning with nobody to wait for: let time pass so that timers can fire
    if (next_deadline != NEVER && next_deadline > vnow) {
      uint64_t d = 1000000 < next_deadline - vnow ? 1000000 : next_deadline - vnow;
      vnow += d; me->busy += d;
      for (int i = 0; i < nT; i++) if (T[i].state == BLOCKED && T[i].why == B_STALL) me->busy = 0; // it may wait for that thread
      if (max_busy && me->busy > max_busy) hang(SIM_LIVELOCK, "busy-wait");
    }
    fire_timers();
    return 0;
  }
  uint32_t i = C.replay ? replayed() : decide_forced(o, n);
  if (i >= (uint32_t)n) i = 0;
  if (!C.replay) record(i);
  note_switch(o[i], SITE);
  me->prio = --low_prio;
  struct thr *m = me;
  handoff(o[i]); wait_turn(m);
  return 0;
}

// ---------------------------------------------------------------- time
int clock_gettime(clockid_t id, struct timespec *t) {
  if (!active || !me) { long r = raw(SYS_clock_gettime, id, (long)t, 0, 0, 0, 0); if (r < 0) { errno = -r; return -1; } return 0; }
  point_at(SITE);
  uint64_t v = (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE) ? real_now() : mono();
  t->tv_sec = v / SEC; t->tv_nsec = v % SEC;
  return 0;
}
int gettimeofday(struct timeval *tv, void *tz) {
  (void)tz;
  struct timespec t; clock_gettime(CLOCK_REALTIME, &t);
  tv->tv_sec = t.tv_sec; tv->tv_usec = t.tv_nsec / 1000; return 0;
}
time_t time(time_t *o) { struct timespec t; clock_gettime(CLOCK_REALTIME, &t); if (o) *o = t.tv_sec; return t.tv_sec; }
int nanosleep(const struct timespec *r, struct timespec *rem) {
  if (!active || !me) { long x = raw(SYS_nanosleep, (long)r, (long)rem, 0, 0, 0, 0); if (x < 0) { errno = -x; return -1; } return 0; }
  sleep_until(vnow + ts_ns(r), SITE); return 0;
}
int clock_nanosleep(clockid_t id, int fl, const struct timespec *r, struct timespec *rem) {
  if (!active || !me) return -raw(SYS_clock_nanosleep, id, fl, (long)r, (long)rem, 0, 0);
  uint64_t x = ts_ns(r);
  if (fl & TIMER_ABSTIME) { uint64_t n = id == CLOCK_REALTIME ? real_now() : mono(); x = x > n ? x - n : 0; }
  sleep_until(vnow + x, SITE); return 0;
}
uint64_t sim_now(void) { return vnow; }
uint64_t sim_seq(void) { return active ? ++step : 0; }
uint64_t sim_real_now(void) { return real_now(); }
void sim_clock_jump(int64_t d) { rt_off += d; }
int sim_tid(void) { return me ? me->id : -1; }
int sim_active(void) { return active && me; }
void sim_enter(void) { C.nopreempt++; }
void sim_leave(void) { C.nopreempt--; }

// ---------------------------------------------------------------- network
#include "net.c"

// ---------------------------------------------------------------- start
void sim_start(const struct sim_cfg *c, struct sim_shm *h) {
  resolve();
  C = *c; H = h;
  memset(T, 0, sizeof T);
  nT = 1; nalive = 1; me = cur = &T[0]; me->state = RUNNABLE; me->deadline = NEVER; me->real = pthread_self();
  next_deadline = NEVER; vnow = 0; rt_off = 0; step = 0; cpoint = 0; rep_pos = 0; run_len = 0; spin = 0; stalled = 0;
  rng_sched = mix(C.seed, 1); rng_rand = mix(C.seed, 2);
  me->prio = (draw() >> 1) | (1ull << 62);
  low_prio = 1ull << 40;
  pct_n = C.pct_depth > 16 ? 16 : C.pct_depth;
  for (int i = 0; i < pct_n; i++) pct_points[i] = 1 + draw() % (C.pct_len ? C.pct_len : 1);
  for (int i = 0; i < SIM_STREAMS; i++) H->w[i].pos = 0;
  net_start();
  if (pthread_key_create(&exit_key, exit_dtor)) internal("key");
  active = 1;
}

// ---------------------------------------------------------------- tsan entry points
void __tsan_init(void) {}
void __tsan_func_entry(void *p) { (void)p; }
void __tsan_func_exit(void) {}
#define RW(n) void __tsan_read##n(void *p) { (void)p; } void __tsan_write##n(void *p) { (void)p; } \
  void __tsan_unaligned_read##n(void *p) { (void)p; } void __tsan_unaligned_write##n(void *p) { (void)p; } \
  void __tsan_read_write##n(void *p) { (void)p; } void __tsan_unaligned_read_write##n(void *p) { (void)p; }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, size_t n) { (void)p; (void)n; }
void __tsan_write_range(void *p, size_t n) { (void)p; (void)n; }
void __tsan_vptr_update(void *p, void *q) { (void)p; (void)q; }
void __tsan_vptr_read(void *p) { (void)p; }
void *__tsan_memcpy(void *d, const void *s, size_t n) { return memcpy(d, s, n); }
void *__tsan_memmove(void *d, const void *s, size_t n) { return memmove(d, s, n); }
void *__tsan_memset(void *d, int c, size_t n) { return memset(d, c, n); }
#define SC __ATOMIC_SEQ_CST
#define AT(N, T) \
  T __tsan_atomic##N##_load(const volatile T *p, int mo) { (void)mo; point_at(SITE); return __atomic_load_n(p, SC); } \
  void __tsan_atomic##N##_store(volatile T *p, T v, int mo) { (void)mo; point_at(SITE); __atomic_store_n(p, v, SC); } \
  T __tsan_atomic##N##_exchange(volatile T *p, T v, int mo) { (void)mo; point_at(SITE); return __atomic_exchange_n(p, v, SC); } \
  T __tsan_atomic##N##_fetch_add(volatile T *p, T v, int mo) { (void)mo; point_at(SITE); return __atomic_fetch_add(p, v, SC); } \
  T __tsan_atomic##N##_fetch_sub(volatile T *p, T v, int mo) { (void)mo; point_at(SITE); return __atomic_fetch_sub(p, v, SC); } \
  T __tsan_atomic##N##_fetch_and(volatile T *p, T v, int mo) { (void)mo; point_at(SITE); return __atomic_fetch_and(p, v, SC); } \
  T __tsan_atomic##N##_fetch_or(volatile T *p, T v, int mo) { (void)mo; point_at(SITE); return __atomic_fetch_or(p, v, SC); } \
  T __tsan_atomic##N##_fetch_xor(volatile T *p, T v, int mo) { (void)mo; point_at(SITE); return __atomic_fetch_xor(p, v, SC); } \
  T __tsan_atomic##N##_fetch_nand(volatile T *p, T v, int mo) { (void)mo; point_at(SITE); return __atomic_fetch_nand(p, v, SC); } \
  T __tsan_atomic##N##_compare_exchange_val(volatile T *p, T e, T v, int mo, int fmo) { (void)mo; (void)fmo; point_at(SITE); \
    __atomic_compare_exchange_n(p, &e, v, 0, SC, SC); return e; } \
  int __tsan_atomic##N##_compare_exchange_strong(volatile T *p, T *e, T v, int mo, int fmo) { (void)mo; (void)fmo; point_at(SITE); \
    return __atomic_compare_exchange_n(p, e, v, 0, SC, SC); } \
  int __tsan_atomic##N##_compare_exchange_weak(volatile T *p, T *e, T v, int mo, int fmo) { (void)mo; (void)fmo; point_at(SITE); \
    return __atomic_compare_exchange_n(p, e, v, 0, SC, SC); }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int mo) { (void)mo; point_at(SITE); __atomic_thread_fence(SC); }
void __tsan_atomic_signal_fence(int mo) { (void)mo; }
