/*
 * Deterministic OpenMP runtime for simulation.
 *
 * Replaces libgomp inside the simulated build of tbplas.fortran.f2py.  A "team" is a set of
 * coroutines on private stacks that run one at a time inside the calling thread.  Which one runs
 * next is decided by a seeded PRNG (or by an explicit switch list, for replay) at the yield points:
 * every instrumented shared-memory access (the __tsan_* hooks emitted by -fsanitize=thread), every
 * atomic and every OpenMP synchronisation call.  No real thread is ever started.
 *
 * It also poisons freshly allocated memory (--wrap=malloc) and the stack with a seeded pattern.
 */
#define _GNU_SOURCE
#include <stdint.h>
#include <stdlib.h>
#include <stdio.h>
#include <string.h>
#include <sys/mman.h>
#include <stdbool.h>

#define EXPORT __attribute__((visibility("default")))
#define MAXT 16
#define STACK_BYTES (16UL << 20)
#define MAXSW 65536

typedef unsigned long long ull;

/* ------------------------------------------------------------------ PRNG */
static uint64_t rng_s;
static inline uint64_t rnd(void)
{
    uint64_t z = (rng_s += 0x9E3779B97F4A7C15ULL);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
    return z ^ (z >> 31);
}
static inline unsigned rndn(unsigned n) { return n ? (unsigned)(rnd() % n) : 0; }
/* independent streams, so that a replay with another switch list keeps the same team sizes */
static uint64_t team_s, order_s;
static unsigned rnd_from(uint64_t *st, unsigned n)
{
    uint64_t save = rng_s, r; rng_s = *st; r = rnd(); *st = rng_s; rng_s = save;
    return n ? (unsigned)(r % n) : 0;
}

/* --------------------------------------------------------------- control */
static int cfg_team = 1;        /* team size; < 0: random in [1, -cfg_team] per region */
static unsigned cfg_rate = 0;   /* mean number of yield points between preemptions; 0 = none */
static int cfg_order = 0;       /* 0: ascending order at blocking points, 1: random */
static int cfg_replay = 0;      /* use sw_list instead of the PRNG */
static int cfg_mem = 0;         /* poison mode of malloc */
static uint64_t mem_s = 1;

static uint64_t ev_count;       /* yield points passed inside regions with > 1 thread */
static uint64_t next_switch;
static uint64_t st_regions, st_switches, st_multi, st_mallocs;
static uint64_t st_hash;        /* hash of the interleaving */
static uint64_t sw_ev[MAXSW];
static int sw_to[MAXSW];
static unsigned sw_n, sw_pos, sw_overflow;
static int st_maxteam;
static int st_deadlock;

/* ------------------------------------------------------------ coroutines */
typedef struct {
    void *sp;
    char *stack;
    int state;                  /* 0 free/finished, 1 runnable, 2 blocked */
    /* work sharing bookkeeping */
    unsigned ws_seq;            /* number of work-sharing constructs entered */
    unsigned single_seq;
    unsigned bar_seq;
} co_t;

static co_t co[MAXT];
static int cur = -1;            /* running coroutine, -1 outside of parallel regions */
static int nthr = 1;
static void *main_sp;
static void (*reg_fn)(void *);
static void *reg_data;
static int nthreads_var = 0;    /* omp_set_num_threads */

static int bar_waiting;
static int crit_owner = -1;
static const void *crit_names[64];
static int crit_named_owner[64];
static unsigned crit_nn;

void sim_switch(void **save, void *load);
__asm__(
    ".text\n.globl sim_switch\n.hidden sim_switch\n.type sim_switch,@function\nsim_switch:\n"
    "  pushq %rbp\n  pushq %rbx\n  pushq %r12\n  pushq %r13\n  pushq %r14\n  pushq %r15\n"
    "  subq $8, %rsp\n  stmxcsr (%rsp)\n  fnstcw 4(%rsp)\n"
    "  movq %rsp, (%rdi)\n  movq %rsi, %rsp\n"
    "  ldmxcsr (%rsp)\n  fldcw 4(%rsp)\n  addq $8, %rsp\n"
    "  popq %r15\n  popq %r14\n  popq %r13\n  popq %r12\n  popq %rbx\n  popq %rbp\n  ret\n"
    ".size sim_switch,.-sim_switch\n.section .note.GNU-stack,\"\",@progbits\n.text\n");

static void note_switch(int to)
{
    st_switches++;
    st_hash = (st_hash ^ (ev_count * 31 + (uint64_t)to + 1)) * 0x100000001b3ULL;
    if (sw_n < MAXSW && !cfg_replay) { sw_ev[sw_n] = ev_count; sw_to[sw_n] = to; sw_n++; }
    else if (!cfg_replay) sw_overflow = 1;
}

static void go(int to)
{
    int from = cur;
    if (to == from) return;
    cur = to;
    sim_switch(from < 0 ? &main_sp : &co[from].sp, to < 0 ? main_sp : co[to].sp);
}

/* next coroutine when the current one cannot go on */
static int pick_runnable(void)
{
    int list[MAXT], n = 0;
    for (int i = 0; i < nthr; i++) if (co[i].state == 1) list[n++] = i;
    if (!n) return -1;
    if (cfg_order == 0 || n == 1) return list[0];
    return list[rnd_from(&order_s, (unsigned)n)];
}

static void schedule_gap(void)
{
    if (cfg_rate == 0) next_switch = UINT64_MAX;
    else next_switch = ev_count + 1 + rndn(2 * cfg_rate);
}

static void maybe_yield(void)
{
    if (cur < 0 || nthr <= 1) return;
    ev_count++;
    if (cfg_replay) {
        while (sw_pos < sw_n && sw_ev[sw_pos] < ev_count) sw_pos++;
        if (sw_pos < sw_n && sw_ev[sw_pos] == ev_count) {
            int to = sw_to[sw_pos++];
            if (to < nthr && to != cur && co[to].state == 1) { note_switch(to); go(to); }
        }
        return;
    }
    if (ev_count < next_switch) return;
    schedule_gap();
    int list[MAXT], n = 0;
    for (int i = 0; i < nthr; i++) if (i != cur && co[i].state == 1) list[n++] = i;
    if (!n) return;
    int to = list[rndn(n)];
    note_switch(to);
    go(to);
}

static void block_until_runnable(void)
{
    /* current coroutine set itself to state 2 */
    int to = pick_runnable();
    if (to < 0) {               /* everybody blocked: a deadlock of the simulated program */
        st_deadlock = 1;
        fprintf(stderr, "simomp: deadlock in a parallel region\n");
        abort();
    }
    go(to);
}

static void co_entry(void)
{
    reg_fn(reg_data);
    co[cur].state = 0;
    int to = pick_runnable();
    if (to < 0) {
        for (int i = 0; i < nthr; i++)
            if (co[i].state == 2) {
                st_deadlock = 1;
                fprintf(stderr, "simomp: thread waits at a barrier others never reach\n");
                abort();
            }
        go(-1);
    } else go(to);
    abort();
}

static uint64_t pat(void)
{
    mem_s = mem_s * 6364136223846793005ULL + 1442695040888963407ULL;
    uint64_t r = mem_s >> 11;
    switch (cfg_mem) {
    case 1: return 0x7ff8dead00000001ULL;                       /* NaN */
    case 2: { double d = (double)(r % 20001) / 100.0 - 100.0; uint64_t u; memcpy(&u, &d, 8); return u; }
    case 3: { double d = 1.0e30 * (double)(r % 7 + 1); uint64_t u; memcpy(&u, &d, 8); return u; }
    case 4: return (uint64_t)0x0000000100000001ULL * ((r % 5) + 1); /* small integers */
    default: return 0;
    }
}

static void poison(void *p, size_t n)
{
    if (!cfg_mem || !p) return;
    char *c = p;
    while (n >= 8) { uint64_t v = pat(); memcpy(c, &v, 8); c += 8; n -= 8; }
    if (n) { uint64_t v = pat(); memcpy(c, &v, n); }
}

static void *get_stack(int i)
{
    if (!co[i].stack) {
        co[i].stack = mmap(NULL, STACK_BYTES, PROT_READ | PROT_WRITE,
                           MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (co[i].stack == MAP_FAILED) abort();
    }
    return co[i].stack;
}

static int team_size(unsigned want)
{
    int n;
    if (cfg_team < 0) n = 1 + (int)rnd_from(&team_s, (unsigned)-cfg_team);
    else n = cfg_team;
    if (nthreads_var > 0) n = nthreads_var;
    if (want > 0) n = (int)want;
    if (n > MAXT) n = MAXT;
    if (n < 1) n = 1;
    return n;
}

static unsigned ws_done_seq[MAXT];
static void ws_reset(void);

EXPORT void GOMP_parallel(void (*fn)(void *), void *data, unsigned num_threads, unsigned flags)
{
    (void)flags;
    st_regions++;
    if (cur >= 0) {              /* nested region: one thread, as libgomp does by default */
        int save_n = nthr, save_cur = cur;
        /* run inline by the encountering thread; work-sharing sees a team of one */
        extern int sim_nested;
        sim_nested++;
        fn(data);
        sim_nested--;
        nthr = save_n; cur = save_cur;
        return;
    }
    int n = team_size(num_threads);
    if (n > st_maxteam) st_maxteam = n;
    nthr = n;
    reg_fn = fn; reg_data = data;
    bar_waiting = 0;
    ws_reset();
    if (n > 1) st_multi++;
    for (int i = 0; i < n; i++) {
        char *st = get_stack(i);
        if (cfg_mem) poison(st + STACK_BYTES - 16384, 16384);
        void **sp = (void **)(st + STACK_BYTES - 64);
        sp = (void **)((uintptr_t)sp & ~15UL);
        *--sp = 0;                          /* fake return address keeps alignment */
        *--sp = (void *)co_entry;
        for (int k = 0; k < 6; k++) *--sp = 0;
        --sp;
        uint32_t mx; uint16_t cw;
        __asm__ volatile("stmxcsr %0" : "=m"(mx));
        __asm__ volatile("fnstcw %0" : "=m"(cw));
        ((uint32_t *)sp)[0] = mx; ((uint32_t *)sp)[1] = cw;
        co[i].sp = sp;
        co[i].state = 1;
        co[i].ws_seq = co[i].single_seq = co[i].bar_seq = 0;
        ws_done_seq[i] = 0;
    }
    schedule_gap();
    cur = -1;
    int first = cfg_order == 0 ? 0 : (int)rnd_from(&order_s, (unsigned)n);
    cur = first;
    sim_switch(&main_sp, co[first].sp);
    cur = -1;
    nthr = 1;
}

int sim_nested = 0;

/* legacy entry points */
static void (*leg_fn)(void *); static void *leg_data;
EXPORT void GOMP_parallel_start(void (*fn)(void *), void *data, unsigned n)
{ (void)fn; (void)data; (void)n; leg_fn = fn; leg_data = data; abort(); }
EXPORT void GOMP_parallel_end(void) { abort(); }

/* ------------------------------------------------------- synchronisation */
static int solo(void) { return cur < 0 || nthr <= 1 || sim_nested; }

EXPORT void GOMP_barrier(void)
{
    if (solo()) return;
    maybe_yield();
    bar_waiting++;
    int alive = 0;
    for (int i = 0; i < nthr; i++) if (co[i].state != 0) alive++;
    if (bar_waiting == nthr) {
        bar_waiting = 0;
        for (int i = 0; i < nthr; i++) if (co[i].state == 2) co[i].state = 1;
        maybe_yield();
        return;
    }
    co[cur].state = 2;
    block_until_runnable();
}
EXPORT bool GOMP_barrier_cancel(void) { GOMP_barrier(); return false; }

EXPORT void GOMP_critical_start(void)
{
    if (solo()) return;
    maybe_yield();
    while (crit_owner >= 0) { int me = cur; co[me].state = 1; int to = -1;
        for (int i = 0; i < nthr; i++) if (i == crit_owner) to = i;
        go(to); }
    crit_owner = cur;
}
EXPORT void GOMP_critical_end(void) { if (solo()) return; crit_owner = -1; maybe_yield(); }

static int crit_slot(void *p)
{
    for (unsigned i = 0; i < crit_nn; i++) if (crit_names[i] == p) return (int)i;
    if (crit_nn >= 64) abort();
    crit_names[crit_nn] = p; crit_named_owner[crit_nn] = -1;
    return (int)crit_nn++;
}
EXPORT void GOMP_critical_name_start(void **p)
{
    if (solo()) return;
    maybe_yield();
    int s = crit_slot(p);
    while (crit_named_owner[s] >= 0) go(crit_named_owner[s]);
    crit_named_owner[s] = cur;
}
EXPORT void GOMP_critical_name_end(void **p)
{ if (solo()) return; crit_named_owner[crit_slot(p)] = -1; maybe_yield(); }

/* GOMP_atomic_*: an atomic section that is never preempted */
static int in_atomic = 0;
static uint64_t saved_next;
EXPORT void GOMP_atomic_start(void)
{ if (solo()) return; maybe_yield(); in_atomic = 1; }
EXPORT void GOMP_atomic_end(void) { if (solo()) return; in_atomic = 0; maybe_yield(); }

/* ---------------------------------------------------------- work sharing */
#define NWS 8
typedef struct { int used; unsigned seq; long next, end, incr, chunk; int guided; int left; int upward;
                 ull unext, uend, uincr; int isull; } ws_t;
static ws_t ws[NWS];
static ws_t *myws[MAXT];
static ws_t solo_ws;
static unsigned single_taken;
static void ws_reset(void)
{
    memset(ws, 0, sizeof ws); memset(myws, 0, sizeof myws); single_taken = 0; crit_owner = -1;
    for (unsigned i = 0; i < crit_nn; i++) crit_named_owner[i] = -1;
}

static ws_t *ws_enter(bool *first)
{
    if (solo()) { memset(&solo_ws, 0, sizeof solo_ws); solo_ws.left = 1; *first = true; return &solo_ws; }
    unsigned seq = ++co[cur].ws_seq;
    for (int i = 0; i < NWS; i++)
        if (ws[i].used && ws[i].seq == seq) { *first = false; myws[cur] = &ws[i]; return &ws[i]; }
    for (int i = 0; i < NWS; i++)
        if (!ws[i].used) { memset(&ws[i], 0, sizeof ws[i]); ws[i].used = 1; ws[i].seq = seq; ws[i].left = nthr;
                           *first = true; myws[cur] = &ws[i]; return &ws[i]; }
    abort();
}
static ws_t *ws_mine(void) { return solo() ? &solo_ws : myws[cur]; }
static void ws_leave(void)
{
    if (solo()) return;
    ws_t *w = myws[cur];
    if (w && --w->left == 0) w->used = 0;
    myws[cur] = NULL;
}

static bool ws_next(long *istart, long *iend)
{
    maybe_yield();
    ws_t *w = ws_mine();
    if (w->incr > 0 ? w->next >= w->end : w->next <= w->end) return false;
    long n = (w->end - w->next + w->incr + (w->incr > 0 ? -1 : 1)) / w->incr;
    long c = w->chunk > 0 ? w->chunk : 1;
    if (w->guided) { long g = n / (2 * (solo() ? 1 : nthr)); if (g > c) c = g; }
    if (c > n) c = n;
    *istart = w->next;
    *iend = w->next + c * w->incr;
    w->next = *iend;
    return true;
}
static bool ws_next_ull(ull *istart, ull *iend)
{
    maybe_yield();
    ws_t *w = ws_mine();
    if (w->upward ? w->unext >= w->uend : w->unext <= w->uend) return false;
    ull n = w->upward ? (w->uend - w->unext + w->uincr - 1) / w->uincr
                      : (w->unext - w->uend + (-w->uincr) - 1) / (-w->uincr);
    ull c = w->chunk > 0 ? (ull)w->chunk : 1;
    if (w->guided) { ull g = n / (2 * (ull)(solo() ? 1 : nthr)); if (g > c) c = g; }
    if (c > n) c = n;
    *istart = w->unext;
    *iend = w->unext + c * w->uincr;
    w->unext = *iend;
    return true;
}
static void ws_init(long start, long end, long incr, long chunk, int guided)
{
    bool first; ws_t *w = ws_enter(&first);
    if (first) { w->next = start; w->end = end; w->incr = incr; w->chunk = chunk; w->guided = guided; }
}
static void ws_init_ull(bool up, ull start, ull end, ull incr, ull chunk, int guided)
{
    bool first; ws_t *w = ws_enter(&first);
    if (first) { w->unext = start; w->uend = end; w->uincr = incr; w->upward = up; w->chunk = (long)chunk; w->guided = guided; }
}

#define LOOPS(NAME, GUIDED) \
EXPORT bool GOMP_loop_##NAME##_start(long s, long e, long i, long c, long *a, long *b) \
{ ws_init(s, e, i, c, GUIDED); return ws_next(a, b); } \
EXPORT bool GOMP_loop_##NAME##_next(long *a, long *b) { return ws_next(a, b); } \
EXPORT bool GOMP_loop_ull_##NAME##_start(bool up, ull s, ull e, ull i, ull c, ull *a, ull *b) \
{ ws_init_ull(up, s, e, i, c, GUIDED); return ws_next_ull(a, b); } \
EXPORT bool GOMP_loop_ull_##NAME##_next(ull *a, ull *b) { return ws_next_ull(a, b); } \
EXPORT void GOMP_parallel_loop_##NAME(void (*fn)(void *), void *d, unsigned nt, long s, long e, long i, long c, unsigned fl);
LOOPS(static, 0)
LOOPS(dynamic, 0)
LOOPS(guided, 1)
LOOPS(nonmonotonic_dynamic, 0)
LOOPS(nonmonotonic_guided, 1)
LOOPS(ordered_static, 0)
LOOPS(ordered_dynamic, 0)
LOOPS(ordered_guided, 1)

#define LOOPR(NAME) \
EXPORT bool GOMP_loop_##NAME##_start(long s, long e, long i, long *a, long *b) \
{ ws_init(s, e, i, 1, 0); return ws_next(a, b); } \
EXPORT bool GOMP_loop_##NAME##_next(long *a, long *b) { return ws_next(a, b); }
LOOPR(runtime)
LOOPR(nonmonotonic_runtime)
LOOPR(maybe_nonmonotonic_runtime)

EXPORT void GOMP_loop_end(void) { ws_leave(); GOMP_barrier(); }
EXPORT bool GOMP_loop_end_cancel(void) { ws_leave(); GOMP_barrier(); return false; }
EXPORT void GOMP_loop_end_nowait(void) { ws_leave(); }

/* combined parallel loop: every thread enters the same work share before running fn */
typedef struct { void (*fn)(void *); void *d; long s, e, i, c; int g; } ploop_t;
static void ploop_run(void *p)
{
    ploop_t *q = p;
    ws_init(q->s, q->e, q->i, q->c, q->g);
    q->fn(q->d);
}
#define PLOOP(NAME, GUIDED) \
EXPORT void GOMP_parallel_loop_##NAME(void (*fn)(void *), void *d, unsigned nt, long s, long e, long i, long c, unsigned fl) \
{ ploop_t q = { fn, d, s, e, i, c, GUIDED }; GOMP_parallel(ploop_run, &q, nt, fl); }
PLOOP(static, 0)
PLOOP(dynamic, 0)
PLOOP(guided, 1)
PLOOP(nonmonotonic_dynamic, 0)
PLOOP(nonmonotonic_guided, 1)
#define PLOOPR(NAME) \
EXPORT void GOMP_parallel_loop_##NAME(void (*fn)(void *), void *d, unsigned nt, long s, long e, long i, unsigned fl) \
{ ploop_t q = { fn, d, s, e, i, 1, 0 }; GOMP_parallel(ploop_run, &q, nt, fl); }
PLOOPR(runtime)
PLOOPR(nonmonotonic_runtime)
PLOOPR(maybe_nonmonotonic_runtime)

EXPORT bool GOMP_single_start(void)
{
    if (solo()) return true;
    maybe_yield();
    unsigned s = ++co[cur].single_seq;
    if (s > single_taken) { single_taken = s; return true; }
    return false;
}
static void *copy_ptr;
EXPORT void *GOMP_single_copy_start(void)
{
    if (solo()) return NULL;
    if (GOMP_single_start()) return NULL;
    GOMP_barrier();
    void *p = copy_ptr;
    GOMP_barrier();
    return p;
}
EXPORT void GOMP_single_copy_end(void *data)
{
    if (solo()) return;
    copy_ptr = data; GOMP_barrier(); GOMP_barrier();
}

EXPORT unsigned GOMP_sections_start(unsigned count)
{
    bool first; ws_t *w = ws_enter(&first);
    if (first) { w->next = 1; w->end = (long)count + 1; w->incr = 1; w->chunk = 1; }
    long a, b; return ws_next(&a, &b) ? (unsigned)a : 0;
}
EXPORT unsigned GOMP_sections_next(void) { long a, b; return ws_next(&a, &b) ? (unsigned)a : 0; }
EXPORT void GOMP_sections_end(void) { ws_leave(); GOMP_barrier(); }
EXPORT void GOMP_sections_end_nowait(void) { ws_leave(); }
typedef struct { void (*fn)(void *); void *d; unsigned count; } psec_t;
static void psec_run(void *p)
{
    psec_t *q = p; bool first; ws_t *w = ws_enter(&first);
    if (first) { w->next = 1; w->end = (long)q->count + 1; w->incr = 1; w->chunk = 1; }
    q->fn(q->d);
}
EXPORT void GOMP_parallel_sections(void (*fn)(void *), void *d, unsigned nt, unsigned count, unsigned fl)
{ psec_t q = { fn, d, count }; GOMP_parallel(psec_run, &q, nt, fl); }

EXPORT void GOMP_ordered_start(void) { maybe_yield(); }
EXPORT void GOMP_ordered_end(void) { maybe_yield(); }
EXPORT void GOMP_taskwait(void) { }
EXPORT void GOMP_taskyield(void) { maybe_yield(); }
EXPORT void GOMP_taskgroup_start(void) { }
EXPORT void GOMP_taskgroup_end(void) { }
EXPORT void GOMP_task(void (*fn)(void *), void *data, void (*cpyfn)(void *, void *), long asize, long aalign,
                      bool if_clause, unsigned flags, void **depend, int prio, void *detach)
{
    (void)if_clause; (void)flags; (void)depend; (void)prio; (void)detach;
    if (cpyfn) {
        char *buf = __builtin_alloca((size_t)(asize + aalign));
        char *arg = (char *)(((uintptr_t)buf + (uintptr_t)aalign - 1) & ~((uintptr_t)aalign - 1));
        cpyfn(arg, data);
        fn(arg);
    } else fn(data);
}
EXPORT bool GOMP_cancel(int w, bool d) { (void)w; (void)d; return false; }
EXPORT bool GOMP_cancellation_point(int w) { (void)w; return false; }

/* ----------------------------------------------------------------- omp_* */
EXPORT int omp_get_thread_num(void) { return solo() ? 0 : cur; }
EXPORT int omp_get_num_threads(void) { return solo() ? 1 : nthr; }
EXPORT int omp_get_max_threads(void)
{ return nthreads_var > 0 ? nthreads_var : (cfg_team < 0 ? -cfg_team : cfg_team); }
EXPORT int omp_get_num_procs(void) { return 8; }
EXPORT int omp_in_parallel(void) { return cur >= 0 && nthr > 1; }
EXPORT int omp_get_level(void) { return cur >= 0; }
EXPORT int omp_get_dynamic(void) { return 0; }
EXPORT int omp_get_nested(void) { return 0; }
EXPORT int omp_get_thread_limit(void) { return MAXT; }
EXPORT void omp_set_num_threads(int n) { nthreads_var = n; }
EXPORT void omp_set_num_threads_(const int *n) { nthreads_var = *n; }
EXPORT void omp_set_dynamic(int n) { (void)n; }
EXPORT void omp_set_nested(int n) { (void)n; }
EXPORT int omp_get_thread_num_(void) { return omp_get_thread_num(); }
EXPORT int omp_get_num_threads_(void) { return omp_get_num_threads(); }
EXPORT int omp_get_max_threads_(void) { return omp_get_max_threads(); }
EXPORT int omp_get_num_procs_(void) { return 8; }
EXPORT int omp_in_parallel_(void) { return omp_in_parallel(); }
EXPORT double omp_get_wtime(void) { return (double)ev_count * 1e-9; }
EXPORT double omp_get_wtime_(void) { return omp_get_wtime(); }
EXPORT void omp_init_lock(int *l) { *l = 0; }
EXPORT void omp_destroy_lock(int *l) { (void)l; }
EXPORT void omp_set_lock(int *l) { maybe_yield(); while (*l) go(*l - 1); *l = solo() ? 1 : cur + 1; }
EXPORT void omp_unset_lock(int *l) { *l = 0; maybe_yield(); }
EXPORT void omp_init_lock_(int *l) { *l = 0; }
EXPORT void omp_destroy_lock_(int *l) { (void)l; }
EXPORT void omp_set_lock_(int *l) { omp_set_lock(l); }
EXPORT void omp_unset_lock_(int *l) { omp_unset_lock(l); }

/* -------------------------------------------------------- tsan interface */
#define Y() do { if (!in_atomic) maybe_yield(); } while (0)
EXPORT void __tsan_init(void) { }
EXPORT void __tsan_func_entry(void *pc) { (void)pc; }
EXPORT void __tsan_func_exit(void) { }
#define RW(N) \
EXPORT void __tsan_read##N(void *p) { (void)p; Y(); } \
EXPORT void __tsan_write##N(void *p) { (void)p; Y(); } \
EXPORT void __tsan_unaligned_read##N(void *p) { (void)p; Y(); } \
EXPORT void __tsan_unaligned_write##N(void *p) { (void)p; Y(); } \
EXPORT void __tsan_volatile_read##N(void *p) { (void)p; Y(); } \
EXPORT void __tsan_volatile_write##N(void *p) { (void)p; Y(); }
RW(1) RW(2) RW(4) RW(8) RW(16)
EXPORT void __tsan_read_range(void *p, unsigned long n) { (void)p; (void)n; Y(); }
EXPORT void __tsan_write_range(void *p, unsigned long n) { (void)p; (void)n; Y(); }
EXPORT void __tsan_vptr_update(void *p, void *q) { (void)p; (void)q; }
EXPORT void __tsan_atomic_thread_fence(int mo) { (void)mo; Y(); }
EXPORT void __tsan_atomic_signal_fence(int mo) { (void)mo; }
#define AT(B, T) \
EXPORT T __tsan_atomic##B##_load(const volatile T *a, int mo) { (void)mo; Y(); return *a; } \
EXPORT void __tsan_atomic##B##_store(volatile T *a, T v, int mo) { (void)mo; Y(); *a = v; } \
EXPORT T __tsan_atomic##B##_exchange(volatile T *a, T v, int mo) { (void)mo; Y(); T o = *a; *a = v; return o; } \
EXPORT T __tsan_atomic##B##_fetch_add(volatile T *a, T v, int mo) { (void)mo; Y(); T o = *a; *a = o + v; return o; } \
EXPORT T __tsan_atomic##B##_fetch_sub(volatile T *a, T v, int mo) { (void)mo; Y(); T o = *a; *a = o - v; return o; } \
EXPORT T __tsan_atomic##B##_fetch_and(volatile T *a, T v, int mo) { (void)mo; Y(); T o = *a; *a = o & v; return o; } \
EXPORT T __tsan_atomic##B##_fetch_or(volatile T *a, T v, int mo) { (void)mo; Y(); T o = *a; *a = o | v; return o; } \
EXPORT T __tsan_atomic##B##_fetch_xor(volatile T *a, T v, int mo) { (void)mo; Y(); T o = *a; *a = o ^ v; return o; } \
EXPORT T __tsan_atomic##B##_fetch_nand(volatile T *a, T v, int mo) { (void)mo; Y(); T o = *a; *a = ~(o & v); return o; } \
EXPORT int __tsan_atomic##B##_compare_exchange_strong(volatile T *a, T *c, T v, int mo, int fmo) \
{ (void)mo; (void)fmo; Y(); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
EXPORT int __tsan_atomic##B##_compare_exchange_weak(volatile T *a, T *c, T v, int mo, int fmo) \
{ (void)mo; (void)fmo; Y(); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
EXPORT T __tsan_atomic##B##_compare_exchange_val(volatile T *a, T c, T v, int mo, int fmo) \
{ (void)mo; (void)fmo; Y(); T o = *a; if (o == c) *a = v; return o; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t) AT(128, unsigned __int128)

/* ------------------------------------------------------------ allocation */
void *__real_malloc(size_t n);
void *__wrap_malloc(size_t n)
{
    void *p = __real_malloc(n);
    st_mallocs++;
    if (cfg_mem && n < (64UL << 20)) poison(p, n);
    return p;
}

/* --------------------------------------------------------------- control */
EXPORT void sim_config(uint64_t seed, int team, unsigned rate, int order, int mem, uint64_t mem_seed)
{
    rng_s = seed; team_s = seed ^ 0x5bd1e995; order_s = seed ^ 0xc2b2ae35; cfg_team = team; cfg_rate = rate; cfg_order = order; cfg_mem = mem; mem_s = mem_seed | 1;
    cfg_replay = 0; nthreads_var = 0;
    ev_count = 0; st_regions = st_switches = st_multi = st_mallocs = 0; st_hash = 1469598103934665603ULL;
    sw_n = sw_pos = sw_overflow = 0; st_maxteam = 0; cur = -1; nthr = 1; sim_nested = 0; in_atomic = 0;
    (void)saved_next;
}
EXPORT void sim_replay(const uint64_t *ev, const int *to, unsigned n)
{
    cfg_replay = 1;
    if (n > MAXSW) n = MAXSW;
    memcpy(sw_ev, ev, n * sizeof *ev); memcpy(sw_to, to, n * sizeof *to);
    sw_n = n; sw_pos = 0;
}
EXPORT unsigned sim_switches(uint64_t *ev, int *to, unsigned max)
{
    unsigned n = sw_n < max ? sw_n : max;
    memcpy(ev, sw_ev, n * sizeof *ev); memcpy(to, sw_to, n * sizeof *to);
    return sw_overflow ? 0xffffffffu : sw_n;
}
EXPORT void sim_stats(uint64_t *out)
{
    out[0] = st_regions; out[1] = st_multi; out[2] = ev_count; out[3] = st_switches; out[4] = st_hash;
    out[5] = st_mallocs; out[6] = (uint64_t)st_maxteam;
}
/* fill the unused part of the current stack */
EXPORT __attribute__((noinline)) void sim_poison_stack(unsigned kib)
{
    if (!cfg_mem) return;
    volatile char *buf = __builtin_alloca((size_t)kib * 1024);
    poison((void *)buf, (size_t)kib * 1024);
    __asm__ volatile("" : : "r"(buf) : "memory");
}
void _gfortran_flush_i4(int *unit);
EXPORT void sim_flush(void) { _gfortran_flush_i4(NULL); fflush(stdout); }
