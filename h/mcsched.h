// Controlled scheduler for the C07 harness.  The code under test is compiled with clang's thread
// instrumentation (-fsanitize=thread) but linked against the runtime below: threads are fibers, every
// atomic operation and every pthread call is a scheduling point, all schedules are enumerated (depth
// first by re-execution, with sleep sets), and every plain memory access is checked for a data race
// against the happens-before order of that schedule (vector clocks).
#define _GNU_SOURCE
#include <ucontext.h>
#include <errno.h>
#include <time.h>
#define NF 9
#define STK (1 << 20)
#define MAXD 4000
enum { OP_START, OP_LOAD, OP_STORE, OP_RMW, OP_JOIN, OP_YIELD, OP_LOCK, OP_UNLOCK, OP_CREATE, OP_WAIT, OP_SIGNAL, OP_OTHER };
static const char *opname[] = { "start", "load", "store", "rmw", "join", "sleep", "lock", "unlock", "create", "wait", "signal", "other" };
typedef struct { int op; uintptr_t addr; } Op;
typedef struct { ucontext_t c; char *stk; int used, done, detached; void *(*f)(void *); void *arg, *ret; Op pend; unsigned long yclock; uint32_t vc[NF]; unsigned long rnd; } Fiber;
static Fiber fb[NF]; static int nfib, cur; static ucontext_t sched_ctx; static unsigned long nsteps;
static void (*body)(void);
static int mc_failed_create = -1, n_created;      // the create call with this number fails
static long mc_ncpu = 2;
// ---- exploration ----
typedef struct { Op op[NF]; unsigned enabled, sleep, done; int chosen, win, last, pre; } Node;
static Node node[MAXD]; static int depth, limit_depth; static int prefix_n; static int pruned, stuck, toolong;
static int win_phase = -1, n_joined;        // expand only the schedules of this round of threads (-1: all)
static int pbound = -1; static int npre;      // bound on preemptions (-1: none; sleep sets are used only without a bound)
static unsigned long ex_runs, ex_steps, ex_pruned;
static int dep(Op a, Op b)
{
    if (a.op == OP_YIELD || b.op == OP_YIELD || a.op == OP_OTHER || b.op == OP_OTHER) return 1;
    if (a.op == OP_LOCK || a.op == OP_UNLOCK || a.op == OP_WAIT || a.op == OP_SIGNAL || b.op == OP_LOCK || b.op == OP_UNLOCK || b.op == OP_WAIT || b.op == OP_SIGNAL) return a.op >= OP_LOCK && b.op >= OP_LOCK && a.op != OP_CREATE && b.op != OP_CREATE;
    if (!a.addr || a.addr != b.addr) return 0;
    return !(a.op == OP_LOAD && b.op == OP_LOAD);
}
// ---- mutexes ----
static struct { uintptr_t a; int owner; uint32_t vc[NF]; } mtx[16]; static int nmtx;
static int mfind(uintptr_t a) { for (int i = 0; i < nmtx; ++i) if (mtx[i].a == a) return i; if (nmtx == 16) abort(); mtx[nmtx].a = a; mtx[nmtx].owner = -1; memset(mtx[nmtx].vc, 0, sizeof mtx[0].vc); return nmtx++; }
static int enabled(int i)
{
    Fiber *f = &fb[i]; if (!f->used || f->done) return 0;
    if (f->pend.op == OP_JOIN) return fb[f->pend.addr].done;
    if (f->pend.op == OP_LOCK) return mtx[mfind(f->pend.addr)].owner < 0;
    if (f->pend.op == OP_WAIT) return 0;
    if (f->pend.op == OP_YIELD) return f->yclock < nsteps;
    return 1;
}
static void sp(int op, uintptr_t addr) { if (cur < 0) return; fb[cur].pend.op = op; fb[cur].pend.addr = addr; swapcontext(&fb[cur].c, &sched_ctx); }
static void fiber_main(int i) { fb[i].ret = fb[i].f(fb[i].arg); fb[i].done = 1; swapcontext(&fb[i].c, &sched_ctx); }
static void fiber0(void) { body(); fb[0].done = 1; swapcontext(&fb[0].c, &sched_ctx); }
static void vc_join(uint32_t *a, const uint32_t *b) { for (int i = 0; i < NF; ++i) if (b[i] > a[i]) a[i] = b[i]; }
static int spawn(void *(*f)(void *), void *arg)
{
    if (nfib == NF) { mc_violation("more threads than expected are started"); _exit(1); }
    int i = nfib++; Fiber *x = &fb[i]; char *s = x->stk; if (!s) s = malloc(STK); memset(x, 0, sizeof *x); x->stk = s; memset(s + STK/2, 0, STK/2);
    x->used = 1; x->f = f; x->arg = arg; x->pend.op = OP_START;
    getcontext(&x->c); x->c.uc_stack.ss_sp = s; x->c.uc_stack.ss_size = STK; x->c.uc_link = NULL;
    if (f) makecontext(&x->c, (void (*)(void)) fiber_main, 1, i); else makecontext(&x->c, fiber0, 0);
    x->vc[i] = 1;
    return i;
}
// ---- race detection ----
typedef struct { uintptr_t g; unsigned gen; uint32_t clk[NF][4]; uint8_t mask[NF][4]; } Cell;   // W R AW AR
#define NCELL (1 << 18)
static Cell *cells; static unsigned gen; static unsigned ncell; static int racing; static unsigned long n_acc;
static char race_msg[300];
static void access1(uintptr_t g, uint8_t m, int kind)
{
    size_t h = (g * 0x9E3779B97F4A7C15ull) >> 46;
    while (cells[h].gen == gen && cells[h].g != g) h = (h + 1) & (NCELL - 1);
    Cell *c = &cells[h];
    if (c->gen != gen) { if (++ncell > NCELL * 3 / 4) { fprintf(stderr, "shadow table full\n"); exit(3); } memset(c, 0, sizeof *c); c->gen = gen; c->g = g; }
    for (int i = 0; i < nfib; ++i) if (i != cur) for (int k = 0; k < 4; ++k) {
        if (!(c->mask[i][k] & m) || c->clk[i][k] <= fb[cur].vc[i]) continue;
        if ((kind & 1) && (k & 1)) continue;            // two reads
        if (kind >= 2 && k >= 2) continue;              // two atomics
        if (!racing) { racing = 1; snprintf(race_msg, sizeof race_msg, "unsynchronised accesses of two threads (%d: %s, %d: %s) to the same memory", i, k & 1 ? "read" : "write", cur, kind & 1 ? "read" : "write"); }
    }
    uint32_t now = fb[cur].vc[cur];
    if (c->clk[cur][kind] != now) { c->clk[cur][kind] = now; c->mask[cur][kind] = m; } else c->mask[cur][kind] |= m;
}
static int alive_others(void) { for (int i = 0; i < nfib; ++i) if (i != cur && !fb[i].done) return 1; return 0; }
static void access_(const void *p, size_t n, int kind)
{
    if (cur < 0 || !n) return;
    uintptr_t a = (uintptr_t) p;
    if (cur && a >= (uintptr_t) fb[cur].stk && a < (uintptr_t) fb[cur].stk + STK) return;   // a worker's own stack
    if (nfib == 1 || !alive_others()) return;
    ++n_acc;
    while (n) { unsigned o = a & 7, k = 8 - o < n ? 8 - o : n; access1(a >> 3, ((1u << k) - 1) << o, kind); a += k; n -= k; }
}
// synchronisation clocks of atomics
static struct { uintptr_t a; uint32_t vc[NF]; } sy[64]; static int nsy;
static uint32_t *syvc(uintptr_t a) { for (int i = 0; i < nsy; ++i) if (sy[i].a == a) return sy[i].vc; if (nsy == 64) abort(); sy[nsy].a = a; memset(sy[nsy].vc, 0, sizeof sy[0].vc); return sy[nsy++].vc; }
#define ACQ(mo) ((mo) != 0 && (mo) != 3)
#define REL(mo) ((mo) >= 3)
static void at_load(const volatile void *p, size_t n, int mo) { if (cur < 0) return; sp(OP_LOAD, (uintptr_t) p); access_((void *) p, n, 3); if (ACQ(mo)) vc_join(fb[cur].vc, syvc((uintptr_t) p)); }
static void at_store(volatile void *p, size_t n, int mo) { if (cur < 0) return; sp(OP_STORE, (uintptr_t) p); access_((void *) p, n, 2); uint32_t *s = syvc((uintptr_t) p); if (REL(mo)) memcpy(s, fb[cur].vc, sizeof fb[0].vc); else memset(s, 0, sizeof fb[0].vc); fb[cur].vc[cur]++; }
static void at_rmw(volatile void *p, size_t n, int mo) { if (cur < 0) return; sp(OP_RMW, (uintptr_t) p); access_((void *) p, n, 2); uint32_t *s = syvc((uintptr_t) p); if (ACQ(mo)) vc_join(fb[cur].vc, s); if (REL(mo)) vc_join(s, fb[cur].vc); fb[cur].vc[cur]++; }
#define ATOMICS(B, T) \
T __tsan_atomic##B##_load(const volatile T *a, int mo) { at_load(a, sizeof *a, mo); return *a; } \
void __tsan_atomic##B##_store(volatile T *a, T v, int mo) { at_store(a, sizeof *a, mo); *a = v; } \
T __tsan_atomic##B##_exchange(volatile T *a, T v, int mo) { at_rmw(a, sizeof *a, mo); T o = *a; *a = v; return o; } \
T __tsan_atomic##B##_fetch_add(volatile T *a, T v, int mo) { at_rmw(a, sizeof *a, mo); T o = *a; *a = o + v; return o; } \
T __tsan_atomic##B##_fetch_sub(volatile T *a, T v, int mo) { at_rmw(a, sizeof *a, mo); T o = *a; *a = o - v; return o; } \
T __tsan_atomic##B##_fetch_and(volatile T *a, T v, int mo) { at_rmw(a, sizeof *a, mo); T o = *a; *a = o & v; return o; } \
T __tsan_atomic##B##_fetch_or(volatile T *a, T v, int mo) { at_rmw(a, sizeof *a, mo); T o = *a; *a = o | v; return o; } \
T __tsan_atomic##B##_fetch_xor(volatile T *a, T v, int mo) { at_rmw(a, sizeof *a, mo); T o = *a; *a = o ^ v; return o; } \
T __tsan_atomic##B##_fetch_nand(volatile T *a, T v, int mo) { at_rmw(a, sizeof *a, mo); T o = *a; *a = ~(o & v); return o; } \
int __tsan_atomic##B##_compare_exchange_strong(volatile T *a, T *c, T v, int mo, int fmo) { at_rmw(a, sizeof *a, mo); T o = *a; if (o == *c) { *a = v; return 1; } *c = o; return 0; } \
int __tsan_atomic##B##_compare_exchange_weak(volatile T *a, T *c, T v, int mo, int fmo) { return __tsan_atomic##B##_compare_exchange_strong(a, c, v, mo, fmo); } \
T __tsan_atomic##B##_compare_exchange_val(volatile T *a, T c, T v, int mo, int fmo) { __tsan_atomic##B##_compare_exchange_strong(a, &c, v, mo, fmo); return c; }
ATOMICS(8, uint8_t) ATOMICS(16, uint16_t) ATOMICS(32, uint32_t) ATOMICS(64, uint64_t)
void __tsan_atomic_thread_fence(int mo) { (void) mo; sp(OP_OTHER, 0); }
void __tsan_atomic_signal_fence(int mo) { (void) mo; }
#define RW(n) void __tsan_read##n(void *p) { access_(p, n, 1); } void __tsan_write##n(void *p) { access_(p, n, 0); } \
 void __tsan_unaligned_read##n(void *p) { access_(p, n, 1); } void __tsan_unaligned_write##n(void *p) { access_(p, n, 0); } \
 void __tsan_volatile_read##n(void *p) { access_(p, n, 1); } void __tsan_volatile_write##n(void *p) { access_(p, n, 0); } \
 void __tsan_unaligned_volatile_read##n(void *p) { access_(p, n, 1); } void __tsan_unaligned_volatile_write##n(void *p) { access_(p, n, 0); } \
 void __tsan_read_write##n(void *p) { access_(p, n, 0); } void __tsan_unaligned_read_write##n(void *p) { access_(p, n, 0); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, size_t n) { access_(p, n, 1); }
void __tsan_write_range(void *p, size_t n) { access_(p, n, 0); }
void __tsan_func_entry(void *p) { (void) p; } void __tsan_func_exit(void) { } void __tsan_init(void) { }
void __tsan_vptr_update(void **a, void *b) { } void __tsan_vptr_read(void **a) { }
void *__tsan_memcpy(void *d, const void *s, size_t n) { access_(s, n, 1); access_(d, n, 0); return memcpy(d, s, n); }
void *__tsan_memmove(void *d, const void *s, size_t n) { access_(s, n, 1); access_(d, n, 0); return memmove(d, s, n); }
void *__tsan_memset(void *d, int c, size_t n) { access_(d, n, 0); return memset(d, c, n); }
// ---- pthreads ----
int mc_pthread_create(unsigned long *t, const void *a, void *(*f)(void *), void *p)
{
    (void) a; sp(OP_CREATE, 0);
    if (n_created++ == mc_failed_create) return EAGAIN;
    int i = spawn(f, p); vc_join(fb[i].vc, fb[cur].vc); fb[i].vc[i] = 1; fb[cur].vc[cur]++; access_(t, sizeof *t, 0); *t = i; return 0;
}
int mc_pthread_join(unsigned long t, void **r)
{
    if (!t || t >= (unsigned long) nfib || fb[t].detached) { mc_violation("waits for a thread that was never started or is already gone"); _exit(1); }
    sp(OP_JOIN, t); vc_join(fb[cur].vc, fb[t].vc); if (r) *r = fb[t].ret; fb[t].detached = 1; ++n_joined; return 0;
}
long mc_sysconf(int n) { (void) n; return mc_ncpu; }
int mc_usleep(unsigned u) { (void) u; if (cur >= 0) { fb[cur].yclock = nsteps; sp(OP_YIELD, 0); } return 0; }
int mc_nanosleep(const void *a, void *b) { (void) a; (void) b; return mc_usleep(0); }
int mc_sched_yield(void) { return mc_usleep(0); }
unsigned mc_sleep(unsigned s) { (void) s; mc_usleep(0); return 0; }
int mc_mutex_init(void *m, const void *a) { (void) a; (void) m; return 0; }
int mc_mutex_destroy(void *m) { (void) m; return 0; }
int mc_mutex_lock(void *m) { if (cur < 0) return 0; sp(OP_LOCK, (uintptr_t) m); int k = mfind((uintptr_t) m); mtx[k].owner = cur; vc_join(fb[cur].vc, mtx[k].vc); return 0; }
int mc_mutex_trylock(void *m) { if (cur < 0) return 0; sp(OP_OTHER, 0); int k = mfind((uintptr_t) m); if (mtx[k].owner >= 0) return EBUSY; mtx[k].owner = cur; vc_join(fb[cur].vc, mtx[k].vc); return 0; }
int mc_mutex_unlock(void *m) { if (cur < 0) return 0; sp(OP_UNLOCK, (uintptr_t) m); int k = mfind((uintptr_t) m); mtx[k].owner = -1; memcpy(mtx[k].vc, fb[cur].vc, sizeof fb[0].vc); fb[cur].vc[cur]++; return 0; }
int mc_cond_init(void *c, const void *a) { (void) c; (void) a; return 0; }
int mc_cond_destroy(void *c) { (void) c; return 0; }
int mc_cond_wait(void *c, void *m) { mc_mutex_unlock(m); sp(OP_WAIT, (uintptr_t) c); return mc_mutex_lock(m); }
int mc_cond_broadcast(void *c) { sp(OP_SIGNAL, (uintptr_t) c); for (int i = 0; i < nfib; ++i) if (fb[i].pend.op == OP_WAIT && fb[i].pend.addr == (uintptr_t) c) fb[i].pend.op = OP_OTHER; return 0; }
int mc_cond_signal(void *c) { return mc_cond_broadcast(c); }       // spurious wake-ups are allowed
// ---- heap of one execution ----
#define ARENA (8 << 20)
static char *arena; static size_t arena_n; static long heap_live;
void *mc_malloc(size_t n) { size_t *p = (size_t *)(arena + arena_n); arena_n += (n + 31) & ~15ul; if (arena_n > ARENA) { fprintf(stderr, "arena\n"); exit(3); } *p = n; memset(p + 2, 0xa5, n); ++heap_live; return p + 2; }
void *mc_calloc(size_t a, size_t b) { void *p = mc_malloc(a * b); memset(p, 0, a * b); return p; }
void mc_free(void *p) { if (!p) return; size_t *q = (size_t *) p - 2; access_(p, *q, 0); memset(p, 0xdf, *q); --heap_live; }
// ---- one execution ----
// static data of the code under test goes back to its initial state before each execution (the harness's own is in mcdata/mcbss)
extern char __data_start[], _edata[], __bss_start[], _end[], __start_mcdata[], __stop_mcdata[], __start_mcbss[], __stop_mcbss[];
static volatile int mc_data_dummy = 1; static volatile int mc_bss_dummy;
static char *snap; static size_t snap_n; static int early;

static void snapshot(int restore)
{
    char *lo = __data_start, *hi = _end; mc_data_dummy = 2; mc_bss_dummy = 1; if (!snap) { snap_n = hi - lo; snap = malloc(snap_n); memcpy(snap, lo, snap_n); return; }
    if (!restore) return;
    for (char *p = lo; p < hi; ) {
        if (p >= __start_mcdata && p < __stop_mcdata) { p = __stop_mcdata; continue; }
        if (p >= __start_mcbss && p < __stop_mcbss) { p = __stop_mcbss; continue; }
        char *q = hi; if (__start_mcdata > p && __start_mcdata < q) q = __start_mcdata; if (__start_mcbss > p && __start_mcbss < q) q = __start_mcbss;
        memcpy(p, snap + (p - lo), q - p); p = q;
    }
}
static char trace[2000];
static void describe(void)
{
    size_t n = 0; trace[0] = 0;
    for (int d = 0; d < depth && n < sizeof trace - 40; ++d) n += snprintf(trace + n, sizeof trace - n, "%d:%s ", node[d].chosen, opname[node[d].op[node[d].chosen].op]);
}
static int run_once(void)       // 1: complete, 0: cut off (redundant)
{
    snapshot(1); early = 0;
    ++gen; ncell = 0; nsy = 0; nmtx = 0; nfib = 0; depth = 0; nsteps = 0; racing = 0; pruned = stuck = toolong = 0; n_created = n_joined = 0; arena_n = 0; heap_live = 0;
    if (!cells) { cells = calloc(NCELL, sizeof *cells); arena = malloc(ARENA); }
    spawn(NULL, NULL); ++ex_runs;
    int last = -1;
    for (;;) {
        unsigned en = 0; int live = 0;
        for (int i = 0; i < nfib; ++i) { if (!fb[i].done) ++live; if (enabled(i)) en |= 1u << i; }
        if (!live) return 1;
        if (fb[0].done) { early = 1; return 1; }
        if (!en) {      // only sleepers left: time passes
            for (int i = 0; i < nfib; ++i) if (fb[i].used && !fb[i].done && fb[i].pend.op == OP_YIELD) en |= 1u << i;
            if (!en) { stuck = 1; return 1; }
        }
        if (depth >= MAXD - 1 || depth > limit_depth) { toolong = 1; return 1; }
        Node *n = &node[depth];
        if (depth >= prefix_n) {
            n->enabled = en; n->done = 0; n->sleep = 0; n->last = last; n->pre = depth ? n[-1].pre + (n[-1].last >= 0 && n[-1].chosen != n[-1].last && (n[-1].enabled >> n[-1].last & 1)) : 0; n->win = win_phase < 0 || n_joined / mc_ncpu == win_phase;
            for (int i = 0; i < nfib; ++i) n->op[i] = fb[i].pend;
            if (depth && pbound < 0) { Node *q = n - 1; unsigned s = q->sleep | q->done; for (int i = 0; i < NF; ++i) if ((s >> i & 1) && i != q->chosen && (en >> i & 1) && !dep(q->op[i], q->op[q->chosen])) n->sleep |= 1u << i; }
            unsigned c = en & ~n->sleep;
            if (!c) { pruned = 1; ++ex_pruned; return 0; }
            // first choice: go on with the thread that ran last
            n->chosen = last >= 0 && (c >> last & 1) ? last : __builtin_ctz(c);
        } else {
            if (n->enabled != en) { fprintf(stderr, "replay diverges at step %d\n", depth); exit(3); }
            for (int i = 0; i < nfib; ++i) n->op[i] = fb[i].pend;
        }
        ++depth; ++nsteps; ++ex_steps; cur = n->chosen; last = cur;
        swapcontext(&sched_ctx, &fb[cur].c);
        cur = -1;
    }
}
static int next_schedule(void)
{
    while (depth) {
        Node *n = &node[depth - 1]; n->done |= 1u << n->chosen;
        unsigned c = n->win ? n->enabled & ~n->sleep & ~n->done : 0;
        if (pbound >= 0 && n->pre >= pbound && n->last >= 0 && (n->enabled >> n->last & 1)) c = 0;
        if (c) { n->chosen = __builtin_ctz(c); prefix_n = depth; return 1; }
        --depth;
    }
    return 0;
}
