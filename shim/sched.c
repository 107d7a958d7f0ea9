/* Our own OpenMP run time and memory-access monitor.
 *
 * The native library is compiled with -fopenmp -fsanitize=thread and linked
 * against this file instead of libgomp and libtsan.  Every parallel region is
 * run by coroutines, one per team member, on one OS thread, so that a schedule
 * is fully under our control; every memory access of the members is reported
 * here by the compiler and two conflicting accesses of different members that
 * are not ordered by a barrier and not both synchronised are a race. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <stdarg.h>
#include <stdbool.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <ucontext.h>

#define MAXT 8
#define STACK (4u << 20)
#define MAXWS 64

typedef unsigned long long ull;
typedef void *(*mallocf)(size_t);

enum { READY, WAITING, DONE };

static struct {
  ucontext_t ctx;
  char *stack;
  int state, ws;
  ull accesses, slice;
  int sync;
} th[MAXT];
static ucontext_t main_ctx;
static int n_team, cur = -1, depth;
static void (*team_fn)(void *);
static void *team_data;

/* schedule: order of the members, accesses per slice (0: until it ends), one
 * preemption of member pre_t after pre_i accesses */
static int order[MAXT] = {0, 1, 2, 3, 4, 5, 6, 7}, logging;
static ull quantum;
static int pre_t = -1, pre_region = -1, pre_used;
static ull pre_i;

/* statistics */
static ull n_regions, n_accesses, n_granules, n_switches, n_barriers, max_acc[MAXT];
static ull region_acc[256][MAXT];

/* work sharing */
static struct { int init; long next, end, incr, chunk; int arrived; } ws[MAXWS];
static int lock_holder = -1;

/* deferred frees */
static void *pend[4096];
static int n_pend;

/* access table */
typedef struct {
  uintptr_t key;
  uint8_t r[MAXT], w[MAXT], ar[MAXT], aw[MAXT];
  uint32_t pc[MAXT];
} ent;
static ent *tab;
static size_t cap, used;
static uint32_t *usedlist;

static struct { ull addr, pc1, pc2; int t1, t2, kind, region; } race[64];
static int n_races;
static uintptr_t base_addr;

static void die(char const *m) {
  fprintf(stderr, "sched: %s\n", m);
  abort();
}

static void table_clear(void) {
  for (size_t i = 0; i < used; ++i) memset(&tab[usedlist[i]], 0, sizeof(ent));
  n_granules += used;
  used = 0;
}

static void table_grow(void) {
  size_t nc = cap ? cap * 4 : 1u << 16;
  ent *nt = calloc(nc, sizeof(ent));
  uint32_t *nu = malloc(nc * sizeof(uint32_t));
  if (!nt || !nu) die("out of memory");
  size_t k = 0;
  for (size_t i = 0; i < used; ++i) {
    ent *e = &tab[usedlist[i]];
    size_t h = (e->key * 0x9E3779B97F4A7C15ull) >> 20 & (nc - 1);
    while (nt[h].key) h = (h + 1) & (nc - 1);
    nt[h] = *e;
    nu[k++] = h;
  }
  free(tab);
  free(usedlist);
  tab = nt;
  usedlist = nu;
  cap = nc;
}

static void report(uintptr_t a, int t, int u, uintptr_t pc, uint32_t pcu, int kind) {
  for (int i = 0; i < n_races; ++i)
    if (race[i].pc1 == pc - base_addr && race[i].pc2 == pcu) return;
  if (n_races == 64) return;
  race[n_races].addr = a;
  race[n_races].pc1 = pc - base_addr;
  race[n_races].pc2 = pcu;
  race[n_races].t1 = t;
  race[n_races].t2 = u;
  race[n_races].kind = kind;
  race[n_races].region = n_regions;
  ++n_races;
}

static void log_granule(uintptr_t g, uint8_t m, int w, int at, uintptr_t pc) {
  if (used * 2 >= cap) table_grow();
  uintptr_t key = g | 1; /* g is a multiple of 8 */
  size_t h = (key * 0x9E3779B97F4A7C15ull) >> 20 & (cap - 1);
  while (tab[h].key && tab[h].key != key) h = (h + 1) & (cap - 1);
  ent *e = &tab[h];
  if (!e->key) {
    e->key = key;
    usedlist[used++] = h;
  }
  for (int u = 0; u < n_team; ++u) {
    if (u == cur) continue;
    uint8_t o = e->w[u];
    if (w) o |= e->r[u];
    if (!at) o |= e->aw[u];
    if (!at && w) o |= e->ar[u];
    if (o & m) report(g, cur, u, pc, e->pc[u], w ? 1 : 0);
  }
  if (at) {
    if (w) e->aw[cur] |= m; else e->ar[cur] |= m;
  } else {
    if (w) e->w[cur] |= m; else e->r[cur] |= m;
  }
  if (w || !e->pc[cur]) e->pc[cur] = pc - base_addr;
}

static void to_main(void) {
  int me = cur;
  ++n_switches;
  swapcontext(&th[me].ctx, &main_ctx);
}

static inline void acc(void const *p, size_t n, int w, int at, void *pcv) {
  if (cur < 0 || depth > 1) return;
  uintptr_t a = (uintptr_t)p, pc = (uintptr_t)pcv;
  if (a >= (uintptr_t)th[cur].stack && a < (uintptr_t)th[cur].stack + STACK) return;
  if (!n) return;
  ++n_accesses;
  ++th[cur].accesses;
  if (logging) {
    uintptr_t lo = a & ~7ul, hi = (a + n - 1) & ~7ul;
    for (uintptr_t g = lo; g <= hi; g += 8) {
      uint8_t m = 0xff;
      if (g == lo) m &= 0xff << (a - lo);
      if (g == hi) m &= 0xff >> (7 - (a + n - 1 - hi));
      log_granule(g, m, w, at || th[cur].sync, pc);
    }
  }
  if (th[cur].sync) return; /* never switch while holding a lock */
  if (pre_t == cur && !pre_used && (pre_region < 0 || pre_region == (int)n_regions) &&
      th[cur].accesses == pre_i) {
    pre_used = 1;
    to_main();
  } else if (quantum && ++th[cur].slice >= quantum) {
    th[cur].slice = 0;
    to_main();
  }
}

/* ---- compiler hooks ---- */
#define PC __builtin_return_address(0)
void __tsan_init(void) {}
void __tsan_func_entry(void *x) {}
void __tsan_func_exit(void) {}
#define RW(n)                                                                          \
  void __tsan_read##n(void *a) { acc(a, n, 0, 0, PC); }                                \
  void __tsan_write##n(void *a) { acc(a, n, 1, 0, PC); }                               \
  void __tsan_unaligned_read##n(void *a) { acc(a, n, 0, 0, PC); }                      \
  void __tsan_unaligned_write##n(void *a) { acc(a, n, 1, 0, PC); }                     \
  void __tsan_volatile_read##n(void *a) { acc(a, n, 0, 0, PC); }                       \
  void __tsan_volatile_write##n(void *a) { acc(a, n, 1, 0, PC); }                      \
  void __tsan_read##n##_pc(void *a, void *p) { acc(a, n, 0, 0, p); }                   \
  void __tsan_write##n##_pc(void *a, void *p) { acc(a, n, 1, 0, p); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *a, long n) { acc(a, n, 0, 0, PC); }
void __tsan_write_range(void *a, long n) { acc(a, n, 1, 0, PC); }
void __tsan_vptr_update(void **a, void *b) { acc(a, 8, 1, 0, PC); }
void __tsan_vptr_read(void **a) { acc(a, 8, 0, 0, PC); }

#define ATOMIC(n, T)                                                                   \
  T __tsan_atomic##n##_load(const volatile T *a, int mo) {                             \
    acc((void *)a, n / 8, 0, 1, PC); return *a; }                                      \
  void __tsan_atomic##n##_store(volatile T *a, T v, int mo) {                          \
    acc((void *)a, n / 8, 1, 1, PC); *a = v; }                                         \
  T __tsan_atomic##n##_exchange(volatile T *a, T v, int mo) {                          \
    acc((void *)a, n / 8, 1, 1, PC); T o = *a; *a = v; return o; }                     \
  T __tsan_atomic##n##_fetch_add(volatile T *a, T v, int mo) {                         \
    acc((void *)a, n / 8, 1, 1, PC); T o = *a; *a = o + v; return o; }                 \
  T __tsan_atomic##n##_fetch_sub(volatile T *a, T v, int mo) {                         \
    acc((void *)a, n / 8, 1, 1, PC); T o = *a; *a = o - v; return o; }                 \
  T __tsan_atomic##n##_fetch_and(volatile T *a, T v, int mo) {                         \
    acc((void *)a, n / 8, 1, 1, PC); T o = *a; *a = o & v; return o; }                 \
  T __tsan_atomic##n##_fetch_or(volatile T *a, T v, int mo) {                          \
    acc((void *)a, n / 8, 1, 1, PC); T o = *a; *a = o | v; return o; }                 \
  T __tsan_atomic##n##_fetch_xor(volatile T *a, T v, int mo) {                         \
    acc((void *)a, n / 8, 1, 1, PC); T o = *a; *a = o ^ v; return o; }                 \
  int __tsan_atomic##n##_compare_exchange_strong(volatile T *a, T *c, T v, int m, int f) { \
    acc((void *)a, n / 8, 1, 1, PC);                                                   \
    if (*a == *c) { *a = v; return 1; }                                                \
    *c = *a; return 0; }                                                               \
  int __tsan_atomic##n##_compare_exchange_weak(volatile T *a, T *c, T v, int m, int f) { \
    acc((void *)a, n / 8, 1, 1, PC);                                                   \
    if (*a == *c) { *a = v; return 1; }                                                \
    *c = *a; return 0; }                                                               \
  T __tsan_atomic##n##_compare_exchange_val(volatile T *a, T c, T v, int m, int f) {   \
    acc((void *)a, n / 8, 1, 1, PC); T o = *a; if (o == c) *a = v; return o; }
ATOMIC(8, uint8_t) ATOMIC(16, uint16_t) ATOMIC(32, uint32_t) ATOMIC(64, uint64_t)
void __tsan_atomic_thread_fence(int mo) {}
void __tsan_atomic_signal_fence(int mo) {}

/* ---- library calls that touch memory (ld --wrap) ---- */
void *__real_memcpy(void *, void const *, size_t);
void *__real_memmove(void *, void const *, size_t);
void *__real_memset(void *, int, size_t);
size_t __real_fread(void *, size_t, size_t, FILE *);
size_t __real_fwrite(void const *, size_t, size_t, FILE *);
void __real_free(void *);
void *__real_realloc(void *, size_t);
void *__wrap_memcpy(void *d, void const *s, size_t n) {
  acc(s, n, 0, 0, PC); acc(d, n, 1, 0, PC);
  return __real_memcpy(d, s, n);
}
void *__wrap_memmove(void *d, void const *s, size_t n) {
  acc(s, n, 0, 0, PC); acc(d, n, 1, 0, PC);
  return __real_memmove(d, s, n);
}
void *__wrap_memset(void *d, int c, size_t n) {
  acc(d, n, 1, 0, PC);
  return __real_memset(d, c, n);
}
size_t __wrap_fread(void *d, size_t s, size_t n, FILE *f) {
  acc(d, s * n, 1, 0, PC);
  return __real_fread(d, s, n, f);
}
size_t __wrap_fwrite(void const *d, size_t s, size_t n, FILE *f) {
  acc(d, s * n, 0, 0, PC);
  return __real_fwrite(d, s, n, f);
}
/* memory freed in a region is recycled only after it, so that an address
 * never stands for two objects */
void __wrap_free(void *p) {
  if (cur >= 0 && p && n_pend < 4096) pend[n_pend++] = p;
  else __real_free(p);
}
void *__wrap_realloc(void *p, size_t n) {
  if (cur < 0 || !p) return __real_realloc(p, n);
  void *q = malloc(n);
  if (q) {
    size_t m = 0;
    extern size_t malloc_usable_size(void *);
    m = malloc_usable_size(p);
    __real_memcpy(q, p, m < n ? m : n);
    __wrap_free(p);
  }
  return q;
}

/* ---- OpenMP run time ---- */
static void tramp(void) {
  int me = cur;
  team_fn(team_data);
  th[me].state = DONE;
  swapcontext(&th[me].ctx, &main_ctx);
  die("resumed a finished member");
}

static int team_limit(unsigned n) {
  int t = n ? n : 1;
  return t > MAXT ? MAXT : t;
}

static void run_team(void (*fn)(void *), void *data, int n) {
  if (depth) { /* nested: a team of one, in place */
    ++depth;
    fn(data);
    --depth;
    return;
  }
  depth = 1;
  n_team = n;
  team_fn = fn;
  team_data = data;
  pre_used = 0;
  int pos = 0, ord[MAXT], k = 0;
  for (int i = 0; i < MAXT; ++i)
    if (order[i] < n) ord[k++] = order[i];
  for (int i = 0; i < n; ++i) {
    if (!th[i].stack) {
      th[i].stack = mmap(NULL, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
      if (th[i].stack == MAP_FAILED) die("no stack");
    }
    getcontext(&th[i].ctx);
    th[i].ctx.uc_stack.ss_sp = th[i].stack;
    th[i].ctx.uc_stack.ss_size = STACK;
    th[i].ctx.uc_link = NULL;
    makecontext(&th[i].ctx, tramp, 0);
    th[i].state = READY;
    th[i].ws = 0;
    th[i].accesses = th[i].slice = 0;
    th[i].sync = 0;
  }
  for (;;) {
    int alive = 0, ready = 0;
    for (int i = 0; i < n; ++i) {
      alive += th[i].state != DONE;
      ready += th[i].state == READY;
    }
    if (!alive) break;
    if (!ready) { /* everyone is at the barrier (finished members count) */
      ++n_barriers;
      table_clear();
      for (int i = 0; i < n; ++i)
        if (th[i].state == WAITING) th[i].state = READY;
      pos = 0;
      continue;
    }
    while (th[ord[pos % n]].state != READY) ++pos;
    cur = ord[pos % n];
    swapcontext(&main_ctx, &th[cur].ctx);
    cur = -1;
    ++pos; /* run on in order; a preempted member comes back last */
  }
  for (int i = 0; i < n; ++i) {
    if (th[i].accesses > max_acc[i]) max_acc[i] = th[i].accesses;
    if (n_regions < 256) region_acc[n_regions][i] = th[i].accesses;
  }
  table_clear();
  for (int i = 0; i < n_pend; ++i) __real_free(pend[i]);
  n_pend = 0;
  memset(ws, 0, sizeof(ws));
  ++n_regions;
  n_team = 0;
  depth = 0;
}

void GOMP_parallel(void (*fn)(void *), void *data, unsigned n, unsigned flags) {
  run_team(fn, data, team_limit(n));
}
static void par_loop(void (*fn)(void *), void *data, unsigned n, long s, long e, long i, long c) {
  if (!depth) {
    memset(ws, 0, sizeof(ws));
    ws[0].init = 1;
    ws[0].next = s; ws[0].end = e; ws[0].incr = i; ws[0].chunk = c ? c : 1;
  }
  run_team(fn, data, team_limit(n));
}
#define PL(name)                                                                      \
  void name(void (*fn)(void *), void *d, unsigned n, long s, long e, long i, long c,  \
            unsigned flags) { par_loop(fn, d, n, s, e, i, c); }
PL(GOMP_parallel_loop_dynamic) PL(GOMP_parallel_loop_guided) PL(GOMP_parallel_loop_static)
PL(GOMP_parallel_loop_nonmonotonic_dynamic) PL(GOMP_parallel_loop_nonmonotonic_guided)
void GOMP_parallel_loop_runtime(void (*fn)(void *), void *d, unsigned n, long s, long e, long i,
                                unsigned flags) { par_loop(fn, d, n, s, e, i, 1); }
void GOMP_parallel_loop_nonmonotonic_runtime(void (*fn)(void *), void *d, unsigned n, long s, long e,
                                             long i, unsigned flags) { par_loop(fn, d, n, s, e, i, 1); }
void GOMP_parallel_loop_maybe_nonmonotonic_runtime(void (*fn)(void *), void *d, unsigned n, long s,
                                                   long e, long i, unsigned flags) {
  par_loop(fn, d, n, s, e, i, 1);
}
static bool loop_next(int k, long *s, long *e) {
  long n = ws[k].next, end = ws[k].end, inc = ws[k].incr;
  if (inc > 0 ? n >= end : n <= end) return false;
  long to = n + inc * ws[k].chunk;
  if (inc > 0 ? to > end : to < end) to = end;
  *s = n;
  *e = to;
  ws[k].next = to;
  if (quantum) to_main(); /* another member may take the next chunk */
  return true;
}
static bool loop_start(long s, long e, long i, long c, long *is, long *ie) {
  int k = cur < 0 ? 0 : ++th[cur].ws % MAXWS;
  if (cur < 0 || !ws[k].init) {
    ws[k].init = 1;
    ws[k].next = s; ws[k].end = e; ws[k].incr = i; ws[k].chunk = c > 0 ? c : 1;
  }
  return loop_next(k, is, ie);
}
#define LS(x)                                                                         \
  bool GOMP_loop_##x##_start(long s, long e, long i, long c, long *is, long *ie) {    \
    return loop_start(s, e, i, c, is, ie); }                                          \
  bool GOMP_loop_##x##_next(long *is, long *ie) {                                     \
    return loop_next(cur < 0 ? 0 : th[cur].ws % MAXWS, is, ie); }
LS(dynamic) LS(guided) LS(static) LS(nonmonotonic_dynamic) LS(nonmonotonic_guided)
bool GOMP_loop_runtime_start(long s, long e, long i, long *is, long *ie) {
  return loop_start(s, e, i, 1, is, ie);
}
bool GOMP_loop_runtime_next(long *is, long *ie) {
  return loop_next(cur < 0 ? 0 : th[cur].ws % MAXWS, is, ie);
}
bool GOMP_loop_maybe_nonmonotonic_runtime_start(long s, long e, long i, long *is, long *ie) {
  return loop_start(s, e, i, 1, is, ie);
}
bool GOMP_loop_maybe_nonmonotonic_runtime_next(long *is, long *ie) {
  return GOMP_loop_runtime_next(is, ie);
}
bool GOMP_loop_ull_dynamic_start(bool up, ull s, ull e, ull i, ull c, ull *is, ull *ie) {
  return loop_start(s, e, i, c, (long *)is, (long *)ie);
}
bool GOMP_loop_ull_dynamic_next(ull *is, ull *ie) { return GOMP_loop_dynamic_next((long *)is, (long *)ie); }
bool GOMP_loop_ull_nonmonotonic_dynamic_start(bool up, ull s, ull e, ull i, ull c, ull *is, ull *ie) {
  return loop_start(s, e, i, c, (long *)is, (long *)ie);
}
bool GOMP_loop_ull_nonmonotonic_dynamic_next(ull *is, ull *ie) {
  return GOMP_loop_dynamic_next((long *)is, (long *)ie);
}
void GOMP_barrier(void) {
  if (cur < 0 || depth > 1) return;
  th[cur].state = WAITING;
  to_main();
}
void GOMP_loop_end(void) { GOMP_barrier(); }
void GOMP_loop_end_nowait(void) {}
bool GOMP_single_start(void) {
  if (cur < 0) return true;
  int k = ++th[cur].ws % MAXWS;
  if (ws[k].init) return false;
  ws[k].init = 1;
  return true;
}
static void lock(void) { if (cur >= 0) ++th[cur].sync; }
static void unlock(void) { if (cur >= 0) --th[cur].sync; }
void GOMP_critical_start(void) { lock(); }
void GOMP_critical_end(void) { unlock(); }
void GOMP_critical_name_start(void **p) { lock(); }
void GOMP_critical_name_end(void **p) { unlock(); }
void GOMP_atomic_start(void) { lock(); }
void GOMP_atomic_end(void) { unlock(); }
typedef void omp_lock;
void omp_init_lock(omp_lock *l) {}
void omp_destroy_lock(omp_lock *l) {}
void omp_set_lock(omp_lock *l) { lock(); }
void omp_unset_lock(omp_lock *l) { unlock(); }
static int max_threads = 1;
int omp_get_thread_num(void) { return cur < 0 || depth > 1 ? 0 : cur; }
int omp_get_num_threads(void) { return cur < 0 || depth > 1 ? 1 : n_team; }
int omp_get_max_threads(void) { return max_threads; }
int omp_get_num_procs(void) { return MAXT; }
int omp_in_parallel(void) { return cur >= 0; }
int omp_get_level(void) { return depth; }
int omp_get_thread_limit(void) { return MAXT; }
int omp_get_dynamic(void) { return 0; }
void omp_set_dynamic(int x) {}
void omp_set_num_threads(int n) { max_threads = team_limit(n); }
double omp_get_wtime(void) { return 0; }

/* ---- control, called from Python ---- */
void sched_reset(int const *ord, ull q, int pt, ull pi, int pregion, int log) {
  Dl_info i;
  dladdr((void *)sched_reset, &i);
  base_addr = (uintptr_t)i.dli_fbase;
  memcpy(order, ord, sizeof(order));
  quantum = q;
  pre_t = pt;
  pre_i = pi;
  pre_region = pregion;
  logging = log;
  n_regions = n_accesses = n_granules = n_switches = n_barriers = 0;
  memset(max_acc, 0, sizeof(max_acc));
  memset(region_acc, 0, sizeof(region_acc));
  n_races = 0;
}
void sched_stats(ull *o) {
  o[0] = n_regions; o[1] = n_accesses; o[2] = n_granules; o[3] = n_switches; o[4] = n_barriers;
  o[5] = n_races;
}
ull sched_region_accesses(int region, int t) { return region < 256 ? region_acc[region][t] : 0; }
int sched_race(int i, ull *o) {
  if (i >= n_races) return 0;
  o[0] = race[i].addr; o[1] = race[i].pc1; o[2] = race[i].pc2; o[3] = race[i].t1; o[4] = race[i].t2;
  o[5] = race[i].kind; o[6] = race[i].region;
  return 1;
}
