/* detomp: a deterministic, seeded replacement for libgomp + the ThreadSanitizer runtime.
 *
 * The repository's extensions are compiled with "-fopenmp -fsanitize=thread" and linked against
 * this library only.  Every OpenMP team member and every attached caller thread is an OS thread
 * with a baton: exactly one of them runs at a time, and who runs next is decided here, by one
 * seeded PRNG, at every instrumented memory access, OpenMP runtime call, GIL hand-off made by the
 * extension, or explicit det_yield().  One seed = one schedule.  A recorded list of switches can
 * be replayed (script mode), which is what minimisation and replay files use.
 */
#define _GNU_SOURCE
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdbool.h>
#include <unistd.h>
#include <pthread.h>
#include <sys/syscall.h>
#include <linux/futex.h>
#include <limits.h>

#define API __attribute__((visibility("default")))
#define MAXTH 104
#define CALLERS 8
#define MAXLOCK 64

enum { FREE, READY, BLOCKED };
enum { ST_RANDOM, ST_PCT, ST_RR, ST_STARVE, ST_RACE, ST_SERIAL, ST_SCRIPT };

struct ws { long next, end, incr, chunk; long left; int served; long *perm; long nperm, pos; int kind; };
struct region {
  void (*fn)(void *); void *data;
  int n, alive, bar_count, bar_gen;
  int nws; struct ws wsl[64];           /* work-sharing constructs, by index */
  int single_done;
  uint32_t epoch;
  struct region *up;
};
struct th {
  int id, state, gil, tid, wsi, singles;
  volatile int go;
  struct region *reg;
  void *waiting;                        /* lock or region waited for */
  int wait_gen;
  int prio;
  int pool;                             /* OS pool worker */
  pthread_t pt;
  int used;
};

static struct th T[MAXTH];
static int nth;
static __thread struct th *me;
static int active;                      /* simulation on */
static int cur;                         /* who has the baton */

/* configuration of the run */
static uint64_t rng, rng2, rng3;
static int strategy, max_team, teams_vary, ordered_chunks;
static double mean_q, hot_p;
static uint64_t step_limit;
static int pct_d, victim;
/* counters */
static uint64_t steps, counted, switches, regions, hot_yields, conflicts, hash, poison_bytes, team_sum, team_max, max_ready, barriers, locks_contended, gil_events, pyyields, shadow_drop;
static int64_t countdown = 1000000; static int64_t cd_start = 1000000;
static uint64_t pct_points[32]; static int pct_n, pct_i;
static int pct_low;
/* switch log: (step, chosen id) */
#define LOGMAX (1<<20)
static uint64_t *lg_step; static int32_t *lg_ch; static int lg_n;
static uint64_t *sc_step; static int32_t *sc_ch; static int sc_n, sc_i;
static int poison_on;
static uint64_t poison_state;

static uint64_t rnd(void) { /* splitmix64 */
  uint64_t z = (rng += 0x9E3779B97F4A7C15ull);
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}
static uint64_t rnd2(void) { uint64_t k = rng; rng = rng2; uint64_t v = rnd(); rng2 = rng; rng = k; return v; } /* structure: team sizes, chunk order */
static uint64_t rnd3(void) { uint64_t k = rng; rng = rng3; uint64_t v = rnd(); rng3 = rng; rng = k; return v; } /* strategy set-up */
static double rndf(void) { return (rnd() >> 11) * (1.0 / 9007199254740992.0); }
static void mix(uint64_t v) { hash = (hash ^ v) * 0x100000001b3ull; }

static void fut_wait(volatile int *a) {
  while (__atomic_load_n(a, __ATOMIC_ACQUIRE) == 0) syscall(SYS_futex, a, FUTEX_WAIT_PRIVATE, 0, NULL, NULL, 0);
  __atomic_store_n(a, 0, __ATOMIC_RELEASE);
}
static void fut_wake(volatile int *a) {
  __atomic_store_n(a, 1, __ATOMIC_RELEASE);
  syscall(SYS_futex, a, FUTEX_WAKE_PRIVATE, 1, NULL, NULL, 0);
}
static void die(const char *msg, int code) {
  char b[256]; int n = snprintf(b, sizeof b, "\nDETOMP-STOP %s steps=%llu switches=%llu\n", msg, (unsigned long long)steps, (unsigned long long)switches);
  if (n > 0) { ssize_t r = write(2, b, n); (void)r; }
  _exit(code);
}
static uint64_t now(void) { return counted + (uint64_t)(cd_start - countdown); }

static void settle(void) { /* fold the countdown into the step counter */
  uint64_t d = (uint64_t)(cd_start - countdown); counted += d; steps = counted;
  cd_start = countdown;
}
static int64_t draw_quantum(void) {
  switch (strategy) {
    case ST_RANDOM: case ST_STARVE: {
      double u = rndf(); if (u < 1e-12) u = 1e-12;
      double q = -mean_q * __builtin_log(u); if (q > 1e9) q = 1e9; return 1 + (int64_t)q; }
    case ST_RR: return (int64_t)mean_q + 1;
    case ST_PCT: { while (pct_i < pct_n && pct_points[pct_i] <= counted) pct_i++;
      if (pct_i < pct_n) return (int64_t)(pct_points[pct_i] - counted);
      return 1000000; }
    case ST_RACE: return 1000000;
    case ST_SCRIPT: { while (sc_i < sc_n && sc_step[sc_i] < counted) sc_i++;
      if (sc_i < sc_n) { int64_t d = (int64_t)(sc_step[sc_i] - counted); return d > 1000000 ? 1000000 : (d < 1 ? 1 : d); } return 1000000; }
    default: return 1000000;
  }
}
static void rearm(void) { settle(); int64_t q = draw_quantum(); if (q > 1000000) q = 1000000; if (q < 1) q = 1; countdown = cd_start = q; 
  if (counted > step_limit) die("step-budget", 77); }

static int pick(bool self_ok, bool forced) {
  int c[MAXTH], n = 0;
  for (int i = 0; i < nth; i++) if (T[i].state == READY && (self_ok || i != cur)) c[n++] = i;
  if (n == 0) die("deadlock", 78);
  if ((uint64_t)n > max_ready) max_ready = n;
  if (strategy == ST_SCRIPT) {
    while (sc_i < sc_n && sc_step[sc_i] < counted) sc_i++;
    if (sc_i < sc_n && sc_step[sc_i] == counted) {
      int want = sc_ch[sc_i]; 
      sc_i++;
      for (int i = 0; i < n; i++) if (c[i] == want) return want;
    }
    if (self_ok && T[cur].state == READY) return cur;
    return c[0];
  }
  switch (strategy) {
    case ST_PCT: {
      if (!forced) T[cur].prio = --pct_low;
      int b = c[0]; for (int i = 1; i < n; i++) if (T[c[i]].prio > T[b].prio) b = c[i];
      return b; }
    case ST_RR: { for (int k = 1; k <= nth; k++) { int i = (cur + k) % nth; if (T[i].state == READY && (self_ok || i != cur)) return i; } return c[0]; }
    case ST_STARVE: {
      int m = 0, d[MAXTH]; for (int i = 0; i < n; i++) if (c[i] != victim) d[m++] = c[i];
      if (m == 0) return c[0];
      return d[rnd() % m]; }
    default: return c[rnd() % n];
  }
}
static void transfer(int to) {
  if (to == cur) return;
  struct th *m = me; switches++;
  if (lg_n < LOGMAX && lg_step) { lg_step[lg_n] = counted; lg_ch[lg_n] = to; lg_n++; }
  mix(counted * 131 + to);
  cur = to;
  fut_wake(&T[to].go);
  fut_wait(&m->go);
}
/* the running thread may go on */
static void preempt(void) {
  rearm();
  if (strategy == ST_SERIAL) return;
  int to = pick(true, false);
  transfer(to);
}
static int others_ready(void);
/* a scheduling decision at a runtime call: one step of its own */
static void explicit_yield(void) { countdown--; if (others_ready()) preempt(); else if (countdown <= 0) rearm(); }
/* the running thread cannot go on: its state is already BLOCKED */
static void block(void) {
  countdown--; settle();
  int to = pick(false, true);
  transfer(to);
  rearm();
}
static int others_ready(void) { for (int i = 0; i < nth; i++) if (T[i].state == READY && i != cur) return 1; return 0; }

/* ---- conflict shadow: which 8-byte granules are touched by two team members, one writing ---- */
#define SHN (1u << 17)
static struct sh { uintptr_t g; uint32_t epoch; uint32_t rmask; int16_t w; uint8_t hot; } *SH;
static uint32_t epoch = 1; static uint32_t sh_count;
static struct sh *sh_get(uintptr_t g) {
  uint32_t h = (uint32_t)((g * 0x9E3779B97F4A7C15ull) >> 40) & (SHN - 1);
  for (int k = 0; k < 4096; k++) {
    struct sh *s = &SH[(h + k) & (SHN - 1)];
    if (s->epoch != epoch) { if (sh_count > SHN / 2) { shadow_drop++; return NULL; } s->epoch = epoch; s->g = g; s->rmask = 0; s->w = -1; s->hot = 0; sh_count++; return s; }
    if (s->g == g) return s;
  }
  shadow_drop++; return NULL;
}
static void shadow_forget(void *p, size_t n) {
  if (!SH || hot_p <= 0) return;
  uintptr_t a = (uintptr_t)p >> 3, b = ((uintptr_t)p + n + 7) >> 3;
  if (b - a > 4096) return;
  for (; a < b; a++) {
    uint32_t h = (uint32_t)((a * 0x9E3779B97F4A7C15ull) >> 40) & (SHN - 1);
    for (int k = 0; k < 4096; k++) { struct sh *s = &SH[(h + k) & (SHN - 1)];
      if (s->epoch != epoch) break;
      if (s->g == a) { s->rmask = 0; s->w = -1; s->hot = 0; break; } }
  }
}
static inline void touch(uintptr_t a, int write) {
  struct th *m = me;
  struct sh *s = sh_get(a >> 3); if (!s) return;
  uint32_t bit = 1u << (m->id & 31);
  if (write) { if ((s->w >= 0 && s->w != m->id) || (s->rmask & ~bit)) { if (!s->hot) { s->hot = 1; conflicts++; } } s->w = m->id; }
  else { if (s->w >= 0 && s->w != m->id) { if (!s->hot) { s->hot = 1; conflicts++; } } s->rmask |= bit; }
  if (s->hot && strategy != ST_SCRIPT && strategy != ST_SERIAL && rndf() < hot_p) { hot_yields++; settle(); int to = pick(true, true); transfer(to); }
}
static inline void acc(void *p, int write) {
  if (!active) return;
  struct th *m = me; if (!m || m->gil) return;   /* under the GIL nothing can be switched, and one-time caches of the interpreter must not count */
  if (--countdown <= 0) { if (!others_ready()) rearm(); else preempt(); }
  else if (m->reg && m->reg->n > 1 && hot_p > 0) touch((uintptr_t)p, write);
}
static void acc_range(void *p, size_t n, int write) {
  if (!active || !me) return;
  size_t k = n / 8; if (k > 64) k = 64; if (k == 0) k = 1;
  for (size_t i = 0; i < k; i++) acc((char *)p + 8 * i, write);
}
#define RW(n) API void __tsan_read##n(void *p) { acc(p, 0); } API void __tsan_write##n(void *p) { acc(p, 1); } \
  API void __tsan_unaligned_read##n(void *p) { acc(p, 0); } API void __tsan_unaligned_write##n(void *p) { acc(p, 1); } \
  API void __tsan_volatile_read##n(void *p) { acc(p, 0); } API void __tsan_volatile_write##n(void *p) { acc(p, 1); } \
  API void __tsan_read##n##_pc(void *p, void *q) { (void)q; acc(p, 0); } API void __tsan_write##n##_pc(void *p, void *q) { (void)q; acc(p, 1); }
RW(1) RW(2) RW(4) RW(8) RW(16)
API void __tsan_read_range(void *p, unsigned long n) { acc_range(p, n, 0); }
API void __tsan_write_range(void *p, unsigned long n) { acc_range(p, n, 1); }
API void __tsan_func_entry(void *pc) { (void)pc; }
API void __tsan_func_exit(void) {}
API void __tsan_init(void) {}
API void __tsan_vptr_update(void **a, void *b) { (void)a; (void)b; }
API void __tsan_vptr_read(void **a) { (void)a; }
API void __tsan_atomic_thread_fence(int mo) { (void)mo; }
API void __tsan_atomic_signal_fence(int mo) { (void)mo; }
#define AT(bits, ty) \
  API ty __tsan_atomic##bits##_load(const volatile ty *a, int mo) { (void)mo; acc((void *)a, 0); return *a; } \
  API void __tsan_atomic##bits##_store(volatile ty *a, ty v, int mo) { (void)mo; acc((void *)a, 1); *a = v; } \
  API ty __tsan_atomic##bits##_exchange(volatile ty *a, ty v, int mo) { (void)mo; acc((void *)a, 1); ty o = *a; *a = v; return o; } \
  API ty __tsan_atomic##bits##_fetch_add(volatile ty *a, ty v, int mo) { (void)mo; acc((void *)a, 1); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
  API ty __tsan_atomic##bits##_fetch_sub(volatile ty *a, ty v, int mo) { (void)mo; acc((void *)a, 1); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
  API ty __tsan_atomic##bits##_fetch_and(volatile ty *a, ty v, int mo) { (void)mo; acc((void *)a, 1); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
  API ty __tsan_atomic##bits##_fetch_or(volatile ty *a, ty v, int mo) { (void)mo; acc((void *)a, 1); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
  API ty __tsan_atomic##bits##_fetch_xor(volatile ty *a, ty v, int mo) { (void)mo; acc((void *)a, 1); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
  API int __tsan_atomic##bits##_compare_exchange_strong(volatile ty *a, ty *c, ty v, int mo, int f) { (void)mo; (void)f; acc((void *)a, 1); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
  API int __tsan_atomic##bits##_compare_exchange_weak(volatile ty *a, ty *c, ty v, int mo, int f) { return __tsan_atomic##bits##_compare_exchange_strong(a, c, v, mo, f); } \
  API ty __tsan_atomic##bits##_compare_exchange_val(volatile ty *a, ty c, ty v, int mo, int f) { (void)mo; (void)f; acc((void *)a, 1); ty o = *a; if (o == c) *a = v; return o; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)

/* ---- wrapped libc / allocator calls made by the extensions (ld --wrap) ---- */
extern void *__real_memcpy(void *, const void *, size_t);
API void *__wrap_memcpy(void *d, const void *s, size_t n) { if (active && me && !me->gil) { acc_range((void *)s, n, 0); acc_range(d, n, 1); } return memcpy(d, s, n); }
API void *__wrap_memmove(void *d, const void *s, size_t n) { if (active && me && !me->gil) { acc_range((void *)s, n, 0); acc_range(d, n, 1); } return memmove(d, s, n); }
API void *__wrap_memset(void *d, int c, size_t n) { if (active && me && !me->gil) acc_range(d, n, 1); return memset(d, c, n); }

/* operator new: redzones and contents filled with seeded garbage, so that a read of memory that
 * was never written, or that lies just outside the block, has an effect that depends on the seed */
#define RZ 64
struct hdr { size_t n; uint64_t magic; };
static double garbage(void) {
  poison_state = poison_state * 6364136223846793005ull + 1442695040888963407ull;
  switch ((poison_state >> 33) % 6) {
    case 0: { union { uint64_t u; double d; } v; v.u = 3 + (poison_state >> 60); return v.d; }   /* small ints seen as int */
    case 1: { union { uint32_t u[2]; double d; } v; v.u[0] = 1; v.u[1] = 2; return v.d; }
    case 2: return 1e300; case 3: return -1e300; case 4: return 0.5; default: return -0.25;
  }
}
extern void *malloc(size_t);
API void *__wrap__Znwm(size_t n) {
  if (n > (size_t)1 << 40) die("operator-new-huge", 79);
  size_t tot = n + 2 * RZ + 16; char *b = malloc(tot); if (!b) die("operator-new-oom", 79);
  struct hdr *h = (struct hdr *)b; 
  if (poison_on) { double *q = (double *)b; for (size_t i = 0; i < tot / 8; i++) q[i] = garbage(); poison_bytes += n; }
  h->n = n; h->magic = 0xA11CA7EDull;
  memset(b + RZ + n, 0xA5, 16);
  if (active && me) shadow_forget(b, tot);
  return b + RZ;
}
static void del(void *p) {
  if (!p) return;
  char *b = (char *)p - RZ; struct hdr *h = (struct hdr *)b;
  if (h->magic != 0xA11CA7EDull) die(h->magic == 0xDEADull ? "double-free" : "heap-header-overwritten", 79);
  for (int i = 0; i < 16; i++) if ((unsigned char)b[RZ + h->n + i] != 0xA5) die("heap-redzone-overwritten", 79);
  h->magic = 0xDEADull;
  if (poison_on) { double *q = (double *)p; for (size_t i = 0; i < h->n / 8; i++) q[i] = garbage(); }
  free(b);
}
API void __wrap__ZdlPv(void *p) { del(p); }
API void __wrap__ZdlPvm(void *p, size_t n) { (void)n; del(p); }
API void *__wrap__Znam(size_t n) { return __wrap__Znwm(n); }
API void __wrap__ZdaPv(void *p) { del(p); }
API void __wrap__ZdaPvm(void *p, size_t n) { (void)n; del(p); }

/* ---- GIL hand-offs made by the extensions ---- */
extern void *PyPyEval_SaveThread(void); extern void PyPyEval_RestoreThread(void *);
extern int PyPyGILState_Ensure(void); extern void PyPyGILState_Release(int);
API void *__wrap_PyPyEval_SaveThread(void) { void *r = PyPyEval_SaveThread(); if (active && me) { me->gil = 0; gil_events++; explicit_yield(); } return r; }
API void __wrap_PyPyEval_RestoreThread(void *p) { if (active && me) { if (!me->gil) explicit_yield(); } PyPyEval_RestoreThread(p); if (active && me) { me->gil = 1; gil_events++; } }
API int __wrap_PyPyGILState_Ensure(void) { if (active && me && !me->gil) explicit_yield(); int r = PyPyGILState_Ensure(); if (active && me) { me->gil++; gil_events++; } return r; }
API void __wrap_PyPyGILState_Release(int s) { PyPyGILState_Release(s); if (active && me) { me->gil--; if (me->gil < 0) me->gil = 0; gil_events++; } }

/* ---- OpenMP ---- */
static void wake_on(void *w) { for (int i = 0; i < nth; i++) if (T[i].state == BLOCKED && T[i].waiting == w) { T[i].state = READY; T[i].waiting = NULL; } }
static void wait_on(void *w) { me->state = BLOCKED; me->waiting = w; block(); }
static void yield_point(void) { if (active && me && !me->gil) { countdown--;
  if (!others_ready() || strategy == ST_SERIAL) { if (countdown <= 0) rearm(); }
  else if (strategy == ST_SCRIPT || strategy == ST_PCT) { if (countdown <= 0) preempt(); }
  else if (countdown <= 0 || (rnd() & 3) == 0) preempt(); } }

static void finish_member(struct region *r) {
  r->alive--;
  if (r->alive == 0) wake_on(r);
}
static void *pool_main(void *arg) {
  struct th *t = arg; me = t;
  for (;;) {
    fut_wait(&t->go);              /* first scheduling of this member */
    struct region *r = t->reg;
    r->fn(r->data);
    /* hand the baton over and go back to the pool */
    countdown--; settle();
    t->state = FREE; t->reg = NULL; t->used = 0;
    finish_member(r);
    int to = pick(false, true);
    switches++; if (lg_n < LOGMAX && lg_step) { lg_step[lg_n] = counted; lg_ch[lg_n] = to; lg_n++; }
    mix(counted * 131 + to); cur = to;
    countdown = cd_start = 1;      /* next access re-arms */
    fut_wake(&T[to].go);
  }
  return NULL;
}
static struct th *get_pool(void) {
  for (int i = 0; i < nth; i++) if (T[i].pool && !T[i].used) return &T[i];
  if (nth >= MAXTH) return NULL;
  struct th *t = &T[nth]; memset(t, 0, sizeof *t); t->id = nth; t->pool = 1; nth++;
  pthread_attr_t a; pthread_attr_init(&a); pthread_attr_setstacksize(&a, 1 << 20); pthread_attr_setdetachstate(&a, PTHREAD_CREATE_DETACHED);
  if (pthread_create(&t->pt, &a, pool_main, t)) die("pthread_create", 70);
  return t;
}
API void GOMP_parallel(void (*fn)(void *), void *data, unsigned num_threads, unsigned flags) {
  (void)flags;
  struct region R; memset(&R, 0, sizeof R); R.fn = fn; R.data = data;
  if (!active || !me || me->gil || me->reg) {      /* no simulation here, or nested: a team of one */
    struct th *m = me; struct region *o = NULL; int ot = 0, ow = 0, os = 0; R.n = 1; R.alive = 1;
    static __thread struct th solo;
    if (!m) { m = me = &solo; m->gil = 1; }
    o = m->reg; ot = m->tid; ow = m->wsi; os = m->singles;
    m->reg = &R; m->tid = 0; m->wsi = 0; m->singles = 0; fn(data);
    m->reg = o; m->tid = ot; m->wsi = ow; m->singles = os; if (m == &solo) me = NULL; return;
  }
  int n = num_threads ? (int)num_threads : max_team;
  if (n > max_team) n = max_team;
  if (teams_vary && n > 1 && rnd2() % 4 == 0) n = 1 + rnd2() % n;
  if (n < 1) n = 1;
  regions++; epoch++; sh_count = 0;
  R.n = n; R.alive = n; R.epoch = epoch;
  struct th *m = me; m->reg = &R; m->tid = 0; m->wsi = 0; m->singles = 0;
  int got = 1;
  for (int i = 1; i < n; i++) {
    struct th *t = get_pool(); if (!t) break;
    t->used = 1; t->reg = &R; t->tid = i; t->gil = 0; t->wsi = 0; t->singles = 0; t->state = READY; t->waiting = NULL;
    t->prio = 1000 + (int)(rnd2() % 1000); got++;
  }
  if (got < n) { R.n = n = got; R.alive = got; }
  team_sum += n; if ((uint64_t)n > team_max) team_max = n;
  if (strategy == ST_STARVE) { int k = rnd3() % n; int j = 0; victim = m->id; for (int i = 0; i < nth; i++) if (T[i].reg == &R && T[i].state == READY && j++ == k) victim = i; }
  m->prio = 1000 + (int)(rnd2() % 1000);
  rearm();
  if (n > 1) { countdown--; settle(); transfer(pick(true, true)); rearm(); }
  fn(data);
  R.alive--;
  if (R.alive > 0) wait_on(&R);
  m->reg = NULL;
  for (int i = 0; i < R.nws && i < 64; i++) free(R.wsl[i].perm);
  explicit_yield();
}
API void GOMP_barrier(void) {
  if (!me || !me->reg || me->reg->n == 1) return;
  struct region *r = me->reg; barriers++;
  yield_point();
  if (++r->bar_count == r->n) { r->bar_count = 0; r->bar_gen++; epoch++; sh_count = 0; for (int i = 0; i < nth; i++) if (T[i].state == BLOCKED && T[i].waiting == &r->bar_count) { T[i].state = READY; T[i].waiting = NULL; } explicit_yield(); }
  else wait_on(&r->bar_count);
}
static struct ws *ws_enter(long s, long e, long inc, long ch, bool *isnew) {
  struct region *r = me->reg; int i = me->wsi++;
  if (i >= 64) die("too-many-worksharing", 70);
  struct ws *w = &r->wsl[i]; *isnew = false;
  if (i >= r->nws) { r->nws = i + 1; *isnew = true; w->next = s; w->end = e; w->incr = inc; w->chunk = ch < 1 ? 1 : ch;
    long cnt = inc > 0 ? (e > s ? (e - s + inc - 1) / inc : 0) : (e < s ? (s - e - inc - 1) / -inc : 0);
    w->left = cnt; w->pos = 0; w->nperm = (cnt + w->chunk - 1) / w->chunk; w->perm = NULL;
    w->served = 0; w->kind = 0;
    if (active && !ordered_chunks && w->nperm > 1 && w->nperm < 100000) {
      w->perm = malloc(sizeof(long) * w->nperm); for (long k = 0; k < w->nperm; k++) w->perm[k] = k;
      for (long k = w->nperm - 1; k > 0; k--) { long j = rnd2() % (k + 1); long t = w->perm[k]; w->perm[k] = w->perm[j]; w->perm[j] = t; }
    }
    w->served = 0; w->end = e; w->left = cnt; w->next = s; }
  return w;
}
static bool ws_next(struct ws *w, long *a, long *b) {
  if (w->pos >= w->nperm) return false;
  long k = w->perm ? w->perm[w->pos] : w->pos; w->pos++;
  long lo = k * w->chunk, hi = lo + w->chunk; if (hi > w->left) hi = w->left;
  *a = w->next + lo * w->incr; *b = w->next + hi * w->incr;
  return true;
}
static bool loop_start(long s, long e, long inc, long ch, long *a, long *b) {
  if (!me || !me->reg) { if (inc > 0 ? s >= e : s <= e) return false; *a = s; *b = e; return true; }
  yield_point(); bool nw; struct ws *w = ws_enter(s, e, inc, ch, &nw); return ws_next(w, a, b);
}
static bool loop_next(long *a, long *b) {
  if (!me || !me->reg) return false;
  yield_point(); return ws_next(&me->reg->wsl[me->wsi - 1], a, b);
}
#define LOOP(k) \
  API bool GOMP_loop_##k##_start(long s, long e, long i, long c, long *a, long *b) { return loop_start(s, e, i, c, a, b); } \
  API bool GOMP_loop_##k##_next(long *a, long *b) { return loop_next(a, b); }
LOOP(dynamic) LOOP(nonmonotonic_dynamic) LOOP(guided) LOOP(nonmonotonic_guided) LOOP(static)
API bool GOMP_loop_runtime_start(long s, long e, long i, long *a, long *b) { return loop_start(s, e, i, 1, a, b); }
API bool GOMP_loop_runtime_next(long *a, long *b) { return loop_next(a, b); }
API bool GOMP_loop_maybe_nonmonotonic_runtime_start(long s, long e, long i, long *a, long *b) { return loop_start(s, e, i, 1, a, b); }
API bool GOMP_loop_maybe_nonmonotonic_runtime_next(long *a, long *b) { return loop_next(a, b); }
API bool GOMP_loop_nonmonotonic_runtime_start(long s, long e, long i, long *a, long *b) { return loop_start(s, e, i, 1, a, b); }
API bool GOMP_loop_nonmonotonic_runtime_next(long *a, long *b) { return loop_next(a, b); }
#define ULOOP(k) \
  API bool GOMP_loop_ull_##k##_start(bool up, unsigned long s, unsigned long e, unsigned long i, unsigned long c, unsigned long *a, unsigned long *b) { (void)up; return loop_start((long)s, (long)e, (long)i, (long)c, (long *)a, (long *)b); } \
  API bool GOMP_loop_ull_##k##_next(unsigned long *a, unsigned long *b) { return loop_next((long *)a, (long *)b); }
ULOOP(dynamic) ULOOP(nonmonotonic_dynamic) ULOOP(guided) ULOOP(nonmonotonic_guided) ULOOP(static)
API void GOMP_loop_end(void) { GOMP_barrier(); }
API void GOMP_loop_end_nowait(void) { yield_point(); }
API bool GOMP_loop_end_cancel(void) { GOMP_barrier(); return false; }
API bool GOMP_single_start(void) { if (!me || !me->reg) return true; yield_point(); int k = me->singles++; if (k == me->reg->single_done) { me->reg->single_done++; return true; } return false; }
API unsigned GOMP_sections_start(unsigned c) { long a, b; if (!me || !me->reg) return c ? 1 : 0; return loop_start(1, (long)c + 1, 1, 1, &a, &b) ? (unsigned)a : 0; }
API unsigned GOMP_sections_next(void) { long a, b; return loop_next(&a, &b) ? (unsigned)a : 0; }
API void GOMP_sections_end(void) { GOMP_barrier(); }
API void GOMP_sections_end_nowait(void) { yield_point(); }

static struct lk { void *key; int held, owner; } LK[MAXLOCK]; static int nlk;
static void lock(void *key) {
  if (!active || !me) return;
  yield_point();
  struct lk *l = NULL; for (int i = 0; i < nlk; i++) if (LK[i].key == key) l = &LK[i];
  if (!l) { if (nlk >= MAXLOCK) die("too-many-locks", 70); l = &LK[nlk++]; l->key = key; l->held = 0; }
  while (l->held) { locks_contended++; wait_on(l); }
  l->held = 1; l->owner = me->id;
}
static void unlock(void *key) {
  if (!active || !me) return;
  for (int i = 0; i < nlk; i++) if (LK[i].key == key) { LK[i].held = 0; wake_on(&LK[i]); }
  yield_point();
}
static int k_atomic, k_crit;
API void GOMP_atomic_start(void) { lock(&k_atomic); }
API void GOMP_atomic_end(void) { unlock(&k_atomic); }
API void GOMP_critical_start(void) { lock(&k_crit); }
API void GOMP_critical_end(void) { unlock(&k_crit); }
API void GOMP_critical_name_start(void **p) { lock(p); }
API void GOMP_critical_name_end(void **p) { unlock(p); }
API void GOMP_ordered_start(void) {}
API void GOMP_ordered_end(void) {}
API void omp_init_lock(void **l) { (void)l; }
API void omp_destroy_lock(void **l) { (void)l; }
API void omp_set_lock(void **l) { lock(l); }
API void omp_unset_lock(void **l) { unlock(l); }
API int omp_get_num_threads(void) { return me && me->reg ? me->reg->n : 1; }
API int omp_get_thread_num(void) { return me && me->reg ? me->tid : 0; }
API int omp_get_max_threads(void) { return max_team > 0 ? max_team : 1; }
API int omp_get_num_procs(void) { return max_team > 0 ? max_team : 1; }
API int omp_in_parallel(void) { return me && me->reg && me->reg->n > 1; }
API void omp_set_num_threads(int n) { (void)n; }
API int omp_get_dynamic(void) { return 0; }
API void omp_set_dynamic(int n) { (void)n; }
API int omp_get_nested(void) { return 0; }
API void omp_set_nested(int n) { (void)n; }
API int omp_get_level(void) { return me && me->reg ? 1 : 0; }
API int omp_get_thread_limit(void) { return MAXTH; }
API double omp_get_wtime(void) { return (double)now() * 1e-9; }

/* ---- control, called from the harness ---- */
API void det_begin(uint64_t seed, int strat, double quantum, double hotp, int team, int vary, int ordered, uint64_t limit, int poison, int pctd, uint64_t pctlen) {
  if (!SH) SH = calloc(SHN, sizeof *SH);
  if (!lg_step) { lg_step = malloc(8 * LOGMAX); lg_ch = malloc(4 * LOGMAX); }
  rng = seed * 0x2545F4914F6CDD1Dull + 0x1234567; rng2 = rng ^ 0x5DEECE66Dull; rng3 = rng ^ 0xB5026F5AAull; strategy = strat; mean_q = quantum; hot_p = hotp; max_team = team; teams_vary = vary; ordered_chunks = ordered;
  step_limit = limit; poison_on = poison; poison_state = seed ^ 0xABCDEF; pct_d = pctd;
  steps = counted = switches = regions = hot_yields = conflicts = poison_bytes = team_sum = team_max = max_ready = barriers = locks_contended = gil_events = pyyields = shadow_drop = 0; hash = 0xcbf29ce484222325ull;
  lg_n = 0; sc_i = 0; nlk = 0; pct_low = 100; pct_n = 0; pct_i = 0; victim = -1;
  if (strat == ST_PCT) { if (pctd > 31) pctd = 31; for (int i = 0; i < pctd; i++) pct_points[i] = 1 + rnd3() % (pctlen ? pctlen : 1); pct_n = pctd;
    for (int i = 0; i < pctd; i++) for (int j = i + 1; j < pctd; j++) if (pct_points[j] < pct_points[i]) { uint64_t t = pct_points[i]; pct_points[i] = pct_points[j]; pct_points[j] = t; } }
  /* fixed layout: 0 the harness, 1..CALLERS caller threads, then the pool: identities do not depend on earlier runs */
  if (nth == 0) { memset(T, 0, sizeof T); nth = 1 + CALLERS; for (int i = 0; i < nth; i++) T[i].id = i; }
  for (int i = 0; i < nth; i++) { T[i].state = FREE; T[i].used = 0; T[i].reg = NULL; T[i].waiting = NULL; }
  me = &T[0]; T[0].state = READY; T[0].gil = 1; T[0].reg = NULL; cur = 0; T[0].used = 1; T[0].go = 0;
  T[0].prio = 1500;
  countdown = cd_start = 1; active = 1; rearm();
}
API void det_script(int n, uint64_t *st, int32_t *ch) { sc_n = n; sc_step = realloc(sc_step, 8 * (n + 1)); sc_ch = realloc(sc_ch, 4 * (n + 1)); memcpy(sc_step, st, 8 * n); memcpy(sc_ch, ch, 4 * n); sc_i = 0; }
API void det_end(void) { settle(); active = 0; me = NULL; poison_on = 0; }
API int det_stats(uint64_t *o) {
  uint64_t v[] = { steps, switches, regions, hot_yields, conflicts, hash, poison_bytes, team_sum, team_max, max_ready, barriers, locks_contended, gil_events, pyyields, (uint64_t)lg_n, shadow_drop };
  memcpy(o, v, sizeof v); return (int)(sizeof v / 8);
}
API int det_log(uint64_t *st, int32_t *ch, int max) { int n = lg_n < max ? lg_n : max; memcpy(st, lg_step, 8 * n); memcpy(ch, lg_ch, 4 * n); return n; }
API uint64_t det_now(void) { return now(); }
API void det_mix(uint64_t v) { if (active) mix(v); }
/* caller threads: det_reserve() by the parent gives an id (READY, not yet running); the new thread
 * calls det_attach(id), which returns once it is first scheduled; det_exit() leaves for good */
API int det_reserve(void) {
  int k = -1; for (int i = 1; i <= CALLERS; i++) if (!T[i].used) { k = i; break; }
  if (k < 0) return -1;
  T[k].go = 0;
  T[k].used = 1; T[k].state = READY; T[k].gil = 1; T[k].reg = NULL; T[k].waiting = NULL; T[k].prio = 1000 + (int)(rnd2() % 1000);
  return k;
}
API void det_attach(int id) { me = &T[id]; fut_wait(&T[id].go); }
/* called without the interpreter lock (cffi drops it) */
API void det_yield(void) { if (!active || !me) return; pyyields++; struct th *m = me; int g = m->gil; m->gil = 0;
  countdown--; bool go = countdown <= 0;
  if (strategy == ST_RACE && rndf() < 0.3) go = true;
  if (go) { if (others_ready()) preempt(); else rearm(); }
  m->gil = g; }
API void det_exit(void) { struct th *m = me; countdown--; settle(); m->state = FREE; m->used = 0; me = NULL;
  int w = 0; for (int i = 0; i < nth; i++) if (T[i].state == BLOCKED && T[i].waiting == (void *)&T[0] ) w++;
  int left = 0; for (int i = 1; i < nth; i++) if (!T[i].pool && T[i].used) left++;
  if (left == 0) wake_on(&T[0]);
  int to = pick(false, true); switches++; if (lg_n < LOGMAX) { lg_step[lg_n] = counted; lg_ch[lg_n] = to; lg_n++; } mix(counted * 131 + to); cur = to; countdown = cd_start = 1; fut_wake(&T[to].go); }
/* the parent waits for all caller threads */
API void det_join(void) { int left = 0; for (int i = 1; i < nth; i++) if (!T[i].pool && T[i].used) left++; if (!left) return;
  int g = me->gil; me->gil = 0; me->state = BLOCKED; me->waiting = (void *)&T[0]; block(); me->gil = g; }
API int det_self(void) { return me ? me->id : -1; }
