/* A simulated OpenMP runtime.  The kernel is compiled with -fsanitize=thread
 * -fopenmp; its calls into the OpenMP runtime and its instrumented memory
 * accesses land here instead of in libgomp / libtsan.  The team's threads are
 * coroutines of one OS thread; a seeded scheduler decides at every OpenMP call
 * and at chosen memory accesses which one continues. */
#define _GNU_SOURCE
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include <sys/mman.h>
#include <ucontext.h>

#define STACK (1u << 20)
#define MAXT 64
#define EXPORT __attribute__((visibility("default")))
typedef unsigned long long u64;

/* ---- configuration and statistics (ctypes) ---- */
static u64 rs[2];
static long cfg_gap, cfg_maxpre, cfg_conflict, cfg_team, cfg_stall = -1;
static long st_access, st_pre, st_confpre, st_switch, st_regions, st_chunks, st_conflicts, st_threads;
static u64 st_hash;
static long st_error;
#define LOGN 4096
static struct { long access; int from, to, why; } slog[LOGN];
static long nslog;

static u64 rnd(void)
{
    u64 a = rs[0], b = rs[1];
    rs[0] = b;
    a ^= a << 23;
    rs[1] = a ^ b ^ (a >> 18) ^ (b >> 5);
    return rs[1] + b;
}
static long rnd_below(long n) { return n <= 1 ? 0 : (long)(rnd() % (u64)n); }

static void mix(u64 x) { st_hash = (st_hash ^ x) * 0x9E3779B97F4A7C15ull; st_hash ^= st_hash >> 29; }

/* ---- threads of the region ---- */
struct co {
    ucontext_t ctx;
    char *stack;
    int state;                 /* 0 ready, 1 blocked at barrier, 2 done, 3 waiting for a lock */
    void *lock;
    struct loop *loop;         /* innermost worksharing construct */
    long wsno;                 /* worksharing constructs entered */
    long single;
};
static struct co co[MAXT + 1];        /* the last one stands for code outside a team */
static ucontext_t back;
static int nco, cur = -1, active;
static void (*hook)(void);
static long hook_at = -1, hook_runs;
static int hook_from = -1, in_hook;
static void (*region_fn)(void *);
static void *region_data;
static long countdown;
static int at_barrier;

/* ---- worksharing loops ---- */
struct loop { long no; int ull; int kind; long start, end, incr, chunk, next; long remaining_static; struct loop *link; };
static struct loop *loops;
static long static_pos[MAXT + 1];

static int lock_atomic, lock_critical;
static struct named { void **p; int held; } named[32];
static int nnamed;

static void pick_gap(void)
{
    if (cfg_gap <= 0 || st_pre >= cfg_maxpre) { countdown = -1; return; }
    countdown = 1 + rnd_below(2 * cfg_gap);
}

static int runnable(int i) { return co[i].state == 0; }

static int choose(int avoid)
{
    int c[MAXT], n = 0, i;
    for (i = 0; i < nco; i++)
        if (runnable(i) && i != avoid && i != cfg_stall)
            c[n++] = i;
    if (!n)
        for (i = 0; i < nco; i++)
            if (runnable(i) && i != avoid)
                c[n++] = i;
    if (!n)
        return avoid >= 0 && runnable(avoid) ? avoid : -1;
    return c[rnd_below(n)];
}

static void go(int to, int why)
{
    int from = cur;
    if (to == from)
        return;
    st_switch++;
    mix(st_access * 64 + to);
    if (nslog < LOGN) { slog[nslog].access = st_access; slog[nslog].from = from; slog[nslog].to = to; slog[nslog].why = why; nslog++; }
    cur = to;
    swapcontext(from < 0 ? &back : &co[from].ctx, to < 0 ? &back : &co[to].ctx);
}

static void deadlock(void) { fprintf(stderr, "simomp: deadlock\n"); st_error = 1; abort(); }

static void yield_at(int why)
{
    if (cur < 0 || !active || nco < 2)
        return;
    int to = choose(-1);
    if (to < 0) deadlock();
    go(to, why);
}

/* block until state changes */
static void block(int state)
{
    co[cur].state = state;
    int to = choose(cur);
    if (to < 0) deadlock();
    if (to != cur) go(to, 5);
}

/* ---- memory accesses ---- */
/* Exact, so that which accesses conflict does not depend on where things lie in memory. */
#define SH (1 << 19)
static struct { uintptr_t g; int tid; int wr; long epoch; } shadow[SH];
static long epoch, nshadow;

static long slot(uintptr_t g)
{
    unsigned h = (unsigned)((g * 0x9E3779B97F4A7C15ull) >> 40) & (SH - 1);
    while (shadow[h].epoch == epoch) {
        if (shadow[h].g == g) return h;
        h = (h + 1) & (SH - 1);
    }
    if (nshadow >= SH / 2) return -1;
    nshadow++;
    shadow[h].g = g; shadow[h].wr = 0; shadow[h].tid = -1; shadow[h].epoch = epoch;
    return h;
}

static inline void access_(void *p, int wr)
{
    if (!active || cur < 0 || nco < 2)
        return;
    char *a = p;
    if (a >= co[cur].stack && a < co[cur].stack + STACK)
        return;
    st_access++;
    if (hook && st_access == hook_at) {     /* something else of the process runs now */
        hook_from = cur;
        cur = -1;
        swapcontext(&co[hook_from].ctx, &back);
    }
    if (cfg_conflict) {
        long h = slot((uintptr_t)p >> 3);
        if (h >= 0) {
            if (shadow[h].tid >= 0 && shadow[h].tid != cur && (wr || shadow[h].wr)) {
                int me = cur;
                st_conflicts++;
                shadow[h].tid = me;
                shadow[h].wr |= wr;
                if (st_pre < cfg_maxpre && rnd_below(100) < cfg_conflict) {
                    st_pre++; st_confpre++;
                    int to = choose(cur);
                    if (to >= 0 && to != cur) go(to, 2);
                }
            } else {
                shadow[h].tid = cur;
                shadow[h].wr |= wr;
            }
        }
    }
    if (countdown > 0 && --countdown == 0) {
        st_pre++;
        pick_gap();
        int to = choose(cur);
        if (to >= 0 && to != cur) go(to, 1);
    }
}

#define RW(n) \
    EXPORT void __tsan_read##n(void *p) { access_(p, 0); } \
    EXPORT void __tsan_write##n(void *p) { access_(p, 1); } \
    EXPORT void __tsan_read_write##n(void *p) { access_(p, 0); access_(p, 1); } \
    EXPORT void __tsan_unaligned_read##n(void *p) { access_(p, 0); } \
    EXPORT void __tsan_unaligned_write##n(void *p) { access_(p, 1); } \
    EXPORT void __tsan_volatile_read##n(void *p) { access_(p, 0); } \
    EXPORT void __tsan_volatile_write##n(void *p) { access_(p, 1); }
RW(1) RW(2) RW(4) RW(8) RW(16)
EXPORT void __tsan_read_range(void *p, long n) { (void)n; access_(p, 0); }
EXPORT void __tsan_write_range(void *p, long n) { (void)n; access_(p, 1); }
EXPORT void __tsan_vptr_update(void *p, void *v) { (void)p; (void)v; }
EXPORT void __tsan_vptr_read(void *p) { (void)p; }
EXPORT void __tsan_func_entry(void *p) { (void)p; }
EXPORT void __tsan_func_exit(void) {}
EXPORT void __tsan_init(void) {}
EXPORT void __tsan_atomic_thread_fence(int m) { (void)m; yield_at(3); }
EXPORT void __tsan_atomic_signal_fence(int m) { (void)m; }

#define ATOMIC(bits, T) \
    EXPORT T __tsan_atomic##bits##_load(const volatile T *a, int m) { (void)m; yield_at(3); return *a; } \
    EXPORT void __tsan_atomic##bits##_store(volatile T *a, T v, int m) { (void)m; yield_at(3); *a = v; } \
    EXPORT T __tsan_atomic##bits##_exchange(volatile T *a, T v, int m) { (void)m; yield_at(3); T o = *a; *a = v; return o; } \
    EXPORT T __tsan_atomic##bits##_fetch_add(volatile T *a, T v, int m) { (void)m; yield_at(3); T o = *a; *a = o + v; return o; } \
    EXPORT T __tsan_atomic##bits##_fetch_sub(volatile T *a, T v, int m) { (void)m; yield_at(3); T o = *a; *a = o - v; return o; } \
    EXPORT T __tsan_atomic##bits##_fetch_and(volatile T *a, T v, int m) { (void)m; yield_at(3); T o = *a; *a = o & v; return o; } \
    EXPORT T __tsan_atomic##bits##_fetch_or(volatile T *a, T v, int m) { (void)m; yield_at(3); T o = *a; *a = o | v; return o; } \
    EXPORT T __tsan_atomic##bits##_fetch_xor(volatile T *a, T v, int m) { (void)m; yield_at(3); T o = *a; *a = o ^ v; return o; } \
    EXPORT T __tsan_atomic##bits##_fetch_nand(volatile T *a, T v, int m) { (void)m; yield_at(3); T o = *a; *a = ~(o & v); return o; } \
    EXPORT int __tsan_atomic##bits##_compare_exchange_strong(volatile T *a, T *c, T v, int m, int f) { (void)m; (void)f; yield_at(3); T o = *a; if (o == *c) { *a = v; return 1; } *c = o; return 0; } \
    EXPORT int __tsan_atomic##bits##_compare_exchange_weak(volatile T *a, T *c, T v, int m, int f) { return __tsan_atomic##bits##_compare_exchange_strong(a, c, v, m, f); } \
    EXPORT T __tsan_atomic##bits##_compare_exchange_val(volatile T *a, T c, T v, int m, int f) { (void)m; (void)f; yield_at(3); T o = *a; if (o == c) *a = v; return o; }
ATOMIC(8, uint8_t) ATOMIC(16, uint16_t) ATOMIC(32, uint32_t) ATOMIC(64, uint64_t)

/* ---- OpenMP runtime ---- */
EXPORT int omp_get_thread_num(void) { return active && cur >= 0 ? cur : 0; }
EXPORT int omp_get_num_threads(void) { return active ? nco : 1; }
static int want_threads = 4;
EXPORT int omp_get_max_threads(void) { return want_threads; }
EXPORT void omp_set_num_threads(int n) { want_threads = n > 0 ? n : 1; }
EXPORT int omp_get_num_procs(void) { return 8; }
EXPORT int omp_in_parallel(void) { return active && nco > 1; }
EXPORT int omp_get_dynamic(void) { return 0; }
EXPORT void omp_set_dynamic(int x) { (void)x; }
EXPORT int omp_get_level(void) { return active; }
EXPORT double omp_get_wtime(void) { return 0.0; }
EXPORT int omp_get_thread_limit(void) { return MAXT; }

static void entry(int id)
{
    region_fn(region_data);
    co[id].state = 2;
    int i, live = 0;
    for (i = 0; i < nco; i++)
        if (co[i].state != 2) live++;
    if (!live) { cur = -1; setcontext(&back); }
    /* a barrier may now be complete only if nobody else is expected: leave it */
    int to = choose(id);
    if (to < 0 || to == id) deadlock();
    go(to, 4);
    deadlock();
}

EXPORT void GOMP_parallel(void (*fn)(void *), void *data, unsigned n, unsigned flags)
{
    (void)flags;
    if (active) { /* nested: one thread */
        fn(data);
        return;
    }
    if (in_hook) {  /* a second run while the first is under way: one thread, own loops */
        struct loop *keep = loops;
        loops = 0;
        co[MAXT].wsno = co[MAXT].single = 0;
        fn(data);
        while (loops) { struct loop *l = loops; loops = l->link; free(l); }
        loops = keep;
        return;
    }
    if (!n) n = want_threads;
    if (cfg_team > 0 && (unsigned)cfg_team < n) n = cfg_team;
    if (n > MAXT) n = MAXT;
    st_regions++;
    epoch++; nshadow = 0;
    if ((long)n > st_threads) st_threads = n;
    nco = n;
    region_fn = fn;
    region_data = data;
    at_barrier = 0;
    lock_atomic = lock_critical = 0;
    nnamed = 0;
    while (loops) { struct loop *l = loops; loops = l->link; free(l); }
    for (unsigned i = 0; i < n; i++) {
        if (!co[i].stack)
            co[i].stack = mmap(0, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        co[i].state = 0;
        co[i].loop = 0;
        co[i].wsno = 0;
        co[i].single = 0;
        getcontext(&co[i].ctx);
        co[i].ctx.uc_stack.ss_sp = co[i].stack;
        co[i].ctx.uc_stack.ss_size = STACK;
        co[i].ctx.uc_link = 0;
        makecontext(&co[i].ctx, (void (*)(void))entry, 1, (int)i);
    }
    pick_gap();
    active = 1;
    cur = -1;
    int first = choose(-1);
    go(first, 0);
    while (hook_from >= 0) {
        int n_ = nco, f = hook_from;
        hook_from = -1;
        active = 0; nco = 0; cur = -1; in_hook = 1;
        hook();
        hook_runs++;
        in_hook = 0; active = 1; nco = n_;
        cur = f;
        swapcontext(&back, &co[f].ctx);
    }
    active = 0;
    cur = -1;
    nco = 0;
}

static struct loop *enter(int kind, long s, long e, long incr, long chunk)
{
    int me = cur < 0 ? MAXT : cur;
    long no = ++co[me].wsno;
    struct loop *l;
    for (l = loops; l; l = l->link)
        if (l->no == no) break;
    if (!l) {
        l = calloc(1, sizeof *l);
        l->no = no; l->kind = kind; l->start = s; l->end = e; l->incr = incr; l->chunk = chunk < 1 ? 1 : chunk; l->next = s;
        l->link = loops;
        loops = l;
    }
    co[me].loop = l;
    static_pos[me] = 0;
    return l;
}

static int take(long *is, long *ie)
{
    yield_at(4);
    int me = cur < 0 ? MAXT : cur;
    struct loop *l = co[me].loop;
    long up = l->incr > 0;
    if (l->kind == 0) { /* static, explicit chunk */
        long team = active ? nco : 1;
        long s = l->start + (static_pos[me] * team + (me == MAXT ? 0 : me)) * l->chunk * l->incr;
        static_pos[me]++;
        if (up ? s >= l->end : s <= l->end) return 0;
        *is = s; *ie = s + l->chunk * l->incr;
    } else {
        if (up ? l->next >= l->end : l->next <= l->end) return 0;
        long c = l->chunk;
        if (l->kind == 2) { /* guided */
            long left = (l->end - l->next) / l->incr;
            long q = left / ((active ? nco : 1));
            if (q > c) c = q;
        }
        *is = l->next;
        l->next += c * l->incr;
        *ie = l->next;
    }
    if (up ? *ie > l->end : *ie < l->end) *ie = l->end;
    st_chunks++;
    mix((u64)*is * 131 + me);
    return 1;
}

#define LOOPS(name, kind) \
    EXPORT int GOMP_loop_##name##_start(long s, long e, long i, long c, long *is, long *ie) { enter(kind, s, e, i, c); return take(is, ie); } \
    EXPORT int GOMP_loop_##name##_next(long *is, long *ie) { return take(is, ie); } \
    EXPORT int GOMP_loop_ull_##name##_start(int up, u64 s, u64 e, u64 i, u64 c, u64 *is, u64 *ie) { (void)up; enter(kind, (long)s, (long)e, (long)i, (long)c); return take((long *)is, (long *)ie); } \
    EXPORT int GOMP_loop_ull_##name##_next(u64 *is, u64 *ie) { return take((long *)is, (long *)ie); } \
    EXPORT void GOMP_parallel_loop_##name(void (*fn)(void *), void *d, unsigned n, long s, long e, long i, long c, unsigned f);
LOOPS(static, 0) LOOPS(dynamic, 1) LOOPS(nonmonotonic_dynamic, 1) LOOPS(guided, 2) LOOPS(nonmonotonic_guided, 2)
LOOPS(runtime, 1) LOOPS(nonmonotonic_runtime, 1) LOOPS(maybe_nonmonotonic_runtime, 1)

/* combined parallel loops: the outlined function calls only _next */
static struct { void (*fn)(void *); void *d; int kind; long s, e, i, c; } comb;
static void comb_entry(void *x)
{
    (void)x;
    enter(comb.kind, comb.s, comb.e, comb.i, comb.c);
    comb.fn(comb.d);
}
#define PLOOP(name, k) \
    EXPORT void GOMP_parallel_loop_##name(void (*fn)(void *), void *d, unsigned n, long s, long e, long i, long c, unsigned f) \
    { comb.fn = fn; comb.d = d; comb.kind = k; comb.s = s; comb.e = e; comb.i = i; comb.c = c; GOMP_parallel(comb_entry, 0, n, f); }
PLOOP(static, 0) PLOOP(dynamic, 1) PLOOP(nonmonotonic_dynamic, 1) PLOOP(guided, 2) PLOOP(nonmonotonic_guided, 2)
#define PLOOPR(name) \
    EXPORT void GOMP_parallel_loop_##name(void (*fn)(void *), void *d, unsigned n, long s, long e, long i, long c, unsigned f) \
    { (void)c; comb.fn = fn; comb.d = d; comb.kind = 1; comb.s = s; comb.e = e; comb.i = i; comb.c = 1; GOMP_parallel(comb_entry, 0, n, f); }
PLOOPR(runtime) PLOOPR(nonmonotonic_runtime) PLOOPR(maybe_nonmonotonic_runtime)

EXPORT void GOMP_barrier(void)
{
    if (!active || nco < 2 || cur < 0) return;
    at_barrier++;
    int live = 0;
    for (int i = 0; i < nco; i++) if (co[i].state != 2) live++;
    if (at_barrier >= live) {
        at_barrier = 0;
        for (int i = 0; i < nco; i++) if (co[i].state == 1) co[i].state = 0;
        yield_at(4);
    } else
        block(1);
}
EXPORT int GOMP_barrier_cancel(void) { GOMP_barrier(); return 0; }
EXPORT void GOMP_loop_end(void) { GOMP_barrier(); }
EXPORT void GOMP_loop_end_nowait(void) { yield_at(4); }
EXPORT int GOMP_loop_end_cancel(void) { GOMP_barrier(); return 0; }
EXPORT int GOMP_single_start(void)
{
    int me = cur < 0 ? MAXT : cur, i;
    long n = ++co[me].single;
    for (i = 0; i < nco; i++) if (i != me && co[i].single >= n) return 0;
    return 1;
}

static void lock_(int *l)
{
    yield_at(4);
    while (*l) {
        if (cur < 0) return;
        co[cur].lock = l;
        block(3);
    }
    *l = 1;
}
static void unlock_(int *l)
{
    *l = 0;
    for (int i = 0; i < nco; i++) if (co[i].state == 3 && co[i].lock == l) co[i].state = 0;
    yield_at(4);
}
EXPORT void GOMP_atomic_start(void) { lock_(&lock_atomic); }
EXPORT void GOMP_atomic_end(void) { unlock_(&lock_atomic); }
EXPORT void GOMP_critical_start(void) { lock_(&lock_critical); }
EXPORT void GOMP_critical_end(void) { unlock_(&lock_critical); }
static int *named_(void **p)
{
    for (int i = 0; i < nnamed; i++) if (named[i].p == p) return &named[i].held;
    if (nnamed == 32) deadlock();
    named[nnamed].p = p; named[nnamed].held = 0;
    return &named[nnamed++].held;
}
EXPORT void GOMP_critical_name_start(void **p) { lock_(named_(p)); }
EXPORT void GOMP_critical_name_end(void **p) { unlock_(named_(p)); }
typedef struct { int held; } omp_lock;
EXPORT void omp_init_lock(int *l) { *l = 0; }
EXPORT void omp_destroy_lock(int *l) { (void)l; }
EXPORT void omp_set_lock(int *l) { lock_(l); }
EXPORT void omp_unset_lock(int *l) { unlock_(l); }
EXPORT int omp_test_lock(int *l) { yield_at(4); if (*l) return 0; *l = 1; return 1; }

/* ---- control ---- */
EXPORT void simomp_config(u64 seed, long gap, long maxpre, long conflict, long team, long stall)
{
    rs[0] = seed * 0x9E3779B97F4A7C15ull + 1; rs[1] = seed ^ 0xD1B54A32D192ED03ull;
    for (int i = 0; i < 8; i++) rnd();
    cfg_gap = gap; cfg_maxpre = maxpre; cfg_conflict = conflict; cfg_team = team; cfg_stall = stall;
    st_access = st_pre = st_confpre = st_switch = st_regions = st_chunks = st_conflicts = st_threads = 0;
    st_hash = 1469598103934665603ull;
    nslog = 0;
    hook = 0; hook_at = -1; hook_runs = 0; hook_from = -1;
}
EXPORT void simomp_hook(void (*f)(void), long at) { hook = f; hook_at = at; }
EXPORT long simomp_hook_runs(void) { return hook_runs; }
EXPORT void simomp_stats(long *out)
{
    out[0] = st_access; out[1] = st_pre; out[2] = st_confpre; out[3] = st_switch; out[4] = st_regions; out[5] = st_chunks;
    out[6] = st_conflicts; out[7] = st_threads; out[8] = (long)(st_hash & 0x7fffffffffffffffull); out[9] = nslog;
}
EXPORT void simomp_log(long i, long *out) { out[0] = slog[i].access; out[1] = slog[i].from; out[2] = slog[i].to; out[3] = slog[i].why; }
