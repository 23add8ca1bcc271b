/*
 * SimOMP: a deterministic OpenMP runtime.
 *
 * It replaces both libgomp and the ThreadSanitizer runtime for the Fortran
 * kernels of the code under test, which are compiled from the working tree with
 * -fopenmp -fsanitize=thread. The members of an OpenMP team are coroutines on one OS thread,
 * and every instrumented memory access, atomic operation, critical section,
 * barrier and work-sharing construct is a scheduling point at which a seeded
 * generator decides who runs next. One seed is one exactly repeatable
 * interleaving; the switches actually taken are recorded as
 * (region, thread, local step) -> thread and can be replayed and minimised.
 */
#define _GNU_SOURCE
#include <stdarg.h>
#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <dlfcn.h>
#include <link.h>
#include <sys/mman.h>
#include <pthread.h>

#define EXPORT __attribute__((visibility("default")))
#define MAXT 64
#define STACKSZ (1u << 20)
#define POISON_TOP (32u << 10)

/* ------------------------------------------------------------------ PRNG */
static uint64_t rng_s;
static inline uint64_t rng_next(void)
{
    uint64_t z = (rng_s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}
static inline uint32_t rng_below(uint32_t n) { return (uint32_t)(rng_next() % n); }

/* ------------------------------------------------------- configuration */
enum { STRAT_SERIAL = 0, STRAT_RANDOM = 1, STRAT_REPLAY = 2, STRAT_PCT = 3 };
static int cfg_nthreads = 1;
static int cfg_strategy = STRAT_SERIAL;
static uint32_t cfg_p;     /* preemption probability, in 1/65536 */
static uint32_t cfg_phot;  /* ... at program points seen in conflicting accesses */
static int cfg_profile;    /* collect conflicting program points */
static int cfg_poison;     /* poison stacks and heap memory */
static uint64_t cfg_poison_seed;
static uint64_t cfg_maxsteps = 20000000ull;

/* ------------------------------------------------------------ statistics */
struct sim_stats {
    uint64_t regions, steps, switches, preemptions, blocked, hotpcs, conflicts,
        loghash, inconflict, overflow, deadlock, maxteam, atomics, criticals;
};
static struct sim_stats st;
static inline void mix(uint64_t v)
{
    st.loghash = (st.loghash ^ v) * 0x100000001B3ull;
    st.loghash ^= st.loghash >> 29;
}

/* ---------------------------------------------------------- switch trace */
struct sw { uint32_t region; uint16_t tid, next; uint32_t step; };
static struct sw *trace;
static uint32_t ntrace, captrace;
static struct sw *plan;
static uint32_t nplan;
static uint32_t *planhash;
static uint32_t planmask;

static uint64_t swkey(uint32_t region, uint32_t tid, uint32_t step)
{
    uint64_t k = ((uint64_t)region << 40) ^ ((uint64_t)tid << 33) ^ step;
    k *= 0x9E3779B97F4A7C15ull;
    return k ^ (k >> 31);
}

/* ----------------------------------------------------------- coroutines */
struct co {
    void *sp;
    char *stack;
    int state; /* 0 runnable, 1 waits for a lock, 2 waits at a barrier, 3 done */
    void *waitlock;
    uint32_t step;
    uint32_t prio;
    uint64_t singles, loops; /* work-sharing constructs met so far */
    void *curloop;
    long lo_chunk;
};
static struct co cos[MAXT];
static void *main_sp;
static int cur = -1;   /* running team member, -1 outside of parallel regions */
static int nteam = 1;
static uint32_t region_no;
static uint32_t region_uid; /* never reset: tags the entries of the table of accesses */
static int nested;     /* depth of nested (serialised) regions */
static void (*team_fn)(void *);
static void *team_data;
static int nrunnable;
static int pct_points;

/* locks: identified by address */
struct lk { void *addr; int owner; };
static struct lk locks[256];
static int nlocks;

/* work-sharing */
struct ws {
    bool init;
    long start, end, incr, chunk, next;
    int kind; /* 0 static, 1 dynamic, 2 guided */
    void *copy;
    int ordered_next_thread;
    long ordered_iter;
};
#define MAXWS 4096
static struct ws wss[MAXWS];
static uint64_t nws;
static int barrier_count;

/* thread-local storage of the module: every team member needs its own */
static char *tls_base;
static size_t tls_size;
static char *tls_save[MAXT];

extern void simomp_switch(void **save_sp, void *new_sp);
__asm__(".text\n"
        ".local simomp_switch\n"
        ".type simomp_switch,@function\n"
        "simomp_switch:\n"
        "  pushq %rbp\n  pushq %rbx\n  pushq %r12\n  pushq %r13\n  pushq %r14\n  pushq %r15\n"
        "  subq $8,%rsp\n  stmxcsr (%rsp)\n  fnstcw 4(%rsp)\n"
        "  movq %rsp,(%rdi)\n"
        "  movq %rsi,%rsp\n"
        "  ldmxcsr (%rsp)\n  fldcw 4(%rsp)\n  addq $8,%rsp\n"
        "  popq %r15\n  popq %r14\n  popq %r13\n  popq %r12\n  popq %rbx\n  popq %rbp\n"
        "  ret\n"
        ".size simomp_switch,.-simomp_switch\n");

/* ------------------------------------------------ conflicting accesses */
struct acc { uintptr_t g; uint64_t rd, wr; uintptr_t pc[2]; uint32_t region; };
#define ACCBITS 16
static struct acc *acctab;
#define HOTBITS 12
static uintptr_t hot[1 << HOTBITS];
static uintptr_t pcbase;

static void hot_add(uintptr_t pc)
{
    uint32_t h = (uint32_t)((pc * 0x9E3779B97F4A7C15ull) >> (64 - HOTBITS));
    for (uint32_t i = 0; i < (1u << HOTBITS); i++) {
        uint32_t k = (h + i) & ((1u << HOTBITS) - 1);
        if (hot[k] == pc)
            return;
        if (!hot[k]) {
            hot[k] = pc;
            st.hotpcs++;
            return;
        }
    }
}
static inline bool hot_has(uintptr_t pc)
{
    uint32_t h = (uint32_t)((pc * 0x9E3779B97F4A7C15ull) >> (64 - HOTBITS));
    for (uint32_t i = 0; i < (1u << HOTBITS); i++) {
        uintptr_t v = hot[(h + i) & ((1u << HOTBITS) - 1)];
        if (v == pc)
            return true;
        if (!v)
            return false;
    }
    return false;
}

static void profile(uintptr_t a, bool write, uintptr_t pc)
{
    uintptr_t g = a >> 3;
    uint32_t h = (uint32_t)((g * 0x9E3779B97F4A7C15ull) >> (64 - ACCBITS));
    for (uint32_t i = 0; i < 64; i++) {
        struct acc *e = &acctab[(h + i) & ((1u << ACCBITS) - 1)];
        if (e->region != region_uid) {
            e->region = region_uid;
            e->g = g;
            e->rd = e->wr = 0;
            e->pc[0] = e->pc[1] = 0;
        } else if (e->g != g)
            continue;
        uint64_t me = 1ull << cur;
        if ((write && ((e->rd | e->wr) & ~me)) || (!write && (e->wr & ~me))) {
            st.conflicts++;
            hot_add(pc);
            if (e->pc[0])
                hot_add(e->pc[0]);
            if (e->pc[1])
                hot_add(e->pc[1]);
        }
        if (write)
            e->wr |= me;
        else
            e->rd |= me;
        e->pc[write] = pc;
        return;
    }
}

/* ------------------------------------------------------------ scheduler */
static void record(int next)
{
    if (ntrace == captrace) {
        captrace = captrace ? 2 * captrace : 4096;
        trace = realloc(trace, captrace * sizeof *trace);
    }
    trace[ntrace++] = (struct sw){region_no, (uint16_t)cur, (uint16_t)next, cos[cur].step};
    mix(((uint64_t)region_no << 32) ^ ((uint64_t)cur << 24) ^ ((uint64_t)next << 16) ^ cos[cur].step);
}

static int planned(void)
{
    if (!nplan)
        return -1;
    uint64_t k = swkey(region_no, (uint32_t)cur, cos[cur].step);
    for (uint32_t i = 0;; i++) {
        uint32_t j = planhash[(k + i) & planmask];
        if (!j)
            return -1;
        struct sw *s = &plan[j - 1];
        if (s->region == region_no && s->tid == cur && s->step == cos[cur].step)
            return s->next;
    }
}

static void fatal(const char *msg)
{
    fprintf(stderr, "SimOMP: %s\n", msg);
    fflush(stderr);
    _Exit(77);
}

static void go(int next)
{
    int me = cur;
    if (next == me)
        return;
    st.switches++;
    if (tls_size) {
        memcpy(tls_save[me], tls_base, tls_size);
        memcpy(tls_base, tls_save[next], tls_size);
    }
    cur = next;
    simomp_switch(&cos[me].sp, cos[next].sp);
}

static int pick_other(void)
{
    int n = 0, c[MAXT];
    for (int i = 0; i < nteam; i++)
        if (i != cur && cos[i].state == 0)
            c[n++] = i;
    if (!n)
        return -1;
    if (cfg_strategy == STRAT_PCT) {
        int b = c[0];
        for (int i = 1; i < n; i++)
            if (cos[c[i]].prio > cos[b].prio)
                b = c[i];
        return b;
    }
    return c[rng_below((uint32_t)n)];
}

static int lowest_runnable(void)
{
    for (int i = 0; i < nteam; i++)
        if (cos[i].state == 0)
            return i;
    return -1;
}

/* the running member cannot continue: somebody else must run */
static void block(void)
{
    int next = -1;
    cos[cur].step++;
    if (cfg_strategy == STRAT_REPLAY) {
        next = planned();
        if (next >= nteam || (next >= 0 && cos[next].state != 0))
            next = -1;
        if (next < 0)
            next = lowest_runnable();
    } else if (cfg_strategy == STRAT_SERIAL)
        next = lowest_runnable();
    else
        next = pick_other();
    if (next < 0) {
        if (cos[cur].state == 0)
            return;
        st.deadlock++;
        fatal("deadlock in an OpenMP region");
    }
    st.blocked++;
    record(next);
    go(next);
}

static inline void point(bool ishot)
{
    struct co *c = &cos[cur];
    c->step++;
    if (++st.steps > cfg_maxsteps) {
        /* give up preempting: the region runs to completion */
        st.overflow = 1;
        return;
    }
    int next;
    switch (cfg_strategy) {
    case STRAT_SERIAL:
        return;
    case STRAT_REPLAY:
        next = planned();
        if (next < 0 || next >= nteam || next == cur || cos[next].state != 0)
            return;
        break;
    case STRAT_PCT:
        if (pct_points <= 0 || (rng_next() & 0xffff) >= (ishot ? cfg_phot : cfg_p))
            return;
        pct_points--;
        cos[cur].prio = (uint32_t)pct_points; /* drops below everyone else */
        next = pick_other();
        if (next < 0)
            return;
        break;
    default:
        if ((rng_next() & 0xffff) >= (ishot ? cfg_phot : cfg_p))
            return;
        next = pick_other();
        if (next < 0)
            return;
    }
    st.preemptions++;
    record(next);
    go(next);
}

static inline void access_(void *a, bool write, uintptr_t pc)
{
    if (cur < 0 || nteam < 2)
        return;
    if (cfg_profile)
        profile((uintptr_t)a, write, pc);
    if (cfg_strategy != STRAT_SERIAL || cfg_profile)
        point(cfg_phot && hot_has(pc));
}

#define PC ((uintptr_t)__builtin_return_address(0) - pcbase)

/* ------------------------------------------------------ tsan entry points */
#define RW(n)                                                                  \
    void __tsan_read##n(void *a) { access_(a, false, PC); }                    \
    void __tsan_write##n(void *a) { access_(a, true, PC); }                    \
    void __tsan_unaligned_read##n(void *a) { access_(a, false, PC); }          \
    void __tsan_unaligned_write##n(void *a) { access_(a, true, PC); }          \
    void __tsan_volatile_read##n(void *a) { access_(a, false, PC); }           \
    void __tsan_volatile_write##n(void *a) { access_(a, true, PC); }           \
    void __tsan_unaligned_volatile_read##n(void *a) { access_(a, false, PC); } \
    void __tsan_unaligned_volatile_write##n(void *a) { access_(a, true, PC); } \
    void __tsan_read_write##n(void *a) { access_(a, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *a, size_t n) { if (n) access_(a, false, PC); }
void __tsan_write_range(void *a, size_t n) { if (n) access_(a, true, PC); }
void __tsan_func_entry(void *pc) { (void)pc; }
void __tsan_func_exit(void) {}
void __tsan_init(void) {}
void __tsan_vptr_update(void **a, void *b) { (void)a; (void)b; }
void __tsan_vptr_read(void **a) { (void)a; }

#define ATOMICS(bits, T)                                                         \
    T __tsan_atomic##bits##_load(const volatile T *a, int mo)                    \
    { (void)mo; st.atomics += cur >= 0; access_((void *)a, false, PC); return *a; } \
    void __tsan_atomic##bits##_store(volatile T *a, T v, int mo)                 \
    { (void)mo; st.atomics += cur >= 0; access_((void *)a, true, PC); *a = v; }  \
    T __tsan_atomic##bits##_exchange(volatile T *a, T v, int mo)                 \
    { (void)mo; st.atomics += cur >= 0; access_((void *)a, true, PC); T o = *a; *a = v; return o; } \
    T __tsan_atomic##bits##_fetch_add(volatile T *a, T v, int mo)                \
    { (void)mo; st.atomics += cur >= 0; access_((void *)a, true, PC); T o = *a; *a = o + v; return o; } \
    T __tsan_atomic##bits##_fetch_sub(volatile T *a, T v, int mo)                \
    { (void)mo; st.atomics += cur >= 0; access_((void *)a, true, PC); T o = *a; *a = o - v; return o; } \
    T __tsan_atomic##bits##_fetch_and(volatile T *a, T v, int mo)                \
    { (void)mo; st.atomics += cur >= 0; access_((void *)a, true, PC); T o = *a; *a = o & v; return o; } \
    T __tsan_atomic##bits##_fetch_or(volatile T *a, T v, int mo)                 \
    { (void)mo; st.atomics += cur >= 0; access_((void *)a, true, PC); T o = *a; *a = o | v; return o; } \
    T __tsan_atomic##bits##_fetch_xor(volatile T *a, T v, int mo)                \
    { (void)mo; st.atomics += cur >= 0; access_((void *)a, true, PC); T o = *a; *a = o ^ v; return o; } \
    T __tsan_atomic##bits##_fetch_nand(volatile T *a, T v, int mo)               \
    { (void)mo; st.atomics += cur >= 0; access_((void *)a, true, PC); T o = *a; *a = ~(o & v); return o; } \
    int __tsan_atomic##bits##_compare_exchange_strong(volatile T *a, T *c, T v, int mo, int fmo) \
    { (void)mo; (void)fmo; st.atomics += cur >= 0; access_((void *)a, true, PC); T o = *a;      \
      if (o == *c) { *a = v; return 1; } *c = o; return 0; }                     \
    int __tsan_atomic##bits##_compare_exchange_weak(volatile T *a, T *c, T v, int mo, int fmo) \
    { (void)mo; (void)fmo; st.atomics += cur >= 0; access_((void *)a, true, PC); T o = *a;      \
      if (o == *c) { *a = v; return 1; } *c = o; return 0; }                     \
    T __tsan_atomic##bits##_compare_exchange_val(volatile T *a, T c, T v, int mo, int fmo) \
    { (void)mo; (void)fmo; st.atomics += cur >= 0; access_((void *)a, true, PC); T o = *a; if (o == c) *a = v; return o; }
ATOMICS(8, uint8_t) ATOMICS(16, uint16_t) ATOMICS(32, uint32_t) ATOMICS(64, uint64_t)
ATOMICS(128, unsigned __int128)
void __tsan_atomic_thread_fence(int mo) { (void)mo; }
void __tsan_atomic_signal_fence(int mo) { (void)mo; }

/* ------------------------------------------------------------------ team */
static uint64_t pz_s;
static inline uint64_t pz_next(void)
{
    pz_s = pz_s * 6364136223846793005ull + 1442695040888963407ull;
    return pz_s ^ (pz_s >> 29);
}
static void poison_fill(void *p, size_t n)
{
    uint64_t *q = p;
    size_t k = n / 8;
    uint64_t pat;
    switch (cfg_poison) {
    case 1: pat = 0x7ff8dead7ff8deadull; break;         /* NaN */
    case 2: pat = 0x4142434441424344ull; break;         /* large finite */
    case 3: pat = 0x0000000300000003ull; break;         /* plausible small integers */
    default: pat = pz_next(); break;
    }
    for (size_t i = 0; i < k; i++)
        q[i] = pat;
    memset((char *)p + 8 * k, (int)(pat & 0xff), n & 7);
}

static void member_main(void)
{
    team_fn(team_data);
    cos[cur].state = 3;
    nrunnable--;
    if (nrunnable == 0) {
        /* everybody is done: back to the caller */
        int me = cur;
        simomp_switch(&cos[me].sp, main_sp);
    }
    block();
    fatal("a finished team member was resumed");
}

static int tls_cb(struct dl_phdr_info *i, size_t size, void *arg)
{
    (void)size; (void)arg;
    uintptr_t me = (uintptr_t)&member_main;
    bool mine = false;
    for (int k = 0; k < i->dlpi_phnum; k++)
        if (i->dlpi_phdr[k].p_type == PT_LOAD && me >= i->dlpi_addr + i->dlpi_phdr[k].p_vaddr &&
            me < i->dlpi_addr + i->dlpi_phdr[k].p_vaddr + i->dlpi_phdr[k].p_memsz)
            mine = true;
    if (!mine)
        return 0;
    pcbase = i->dlpi_addr;
    for (int k = 0; k < i->dlpi_phnum; k++)
        if (i->dlpi_phdr[k].p_type == PT_TLS && i->dlpi_tls_data) {
            tls_base = i->dlpi_tls_data;
            tls_size = i->dlpi_phdr[k].p_memsz;
        }
    return 1;
}

static void run_team(void (*fn)(void *), void *data, int n)
{
    if (n < 1)
        n = 1;
    if (n > MAXT)
        n = MAXT;
    dl_iterate_phdr(tls_cb, NULL);
    team_fn = fn;
    team_data = data;
    nteam = n;
    nrunnable = n;
    nlocks = 0;
    nws = 0;
    barrier_count = 0;
    region_no++;
    region_uid++;
    st.regions++;
    if ((uint64_t)n > st.maxteam)
        st.maxteam = n;
    pct_points = 3;
    if (cfg_profile && !acctab)
        acctab = mmap(NULL, sizeof(struct acc) << ACCBITS, PROT_READ | PROT_WRITE,
                      MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    for (int i = 0; i < n; i++) {
        struct co *c = &cos[i];
        if (!c->stack) {
            c->stack = mmap(NULL, STACKSZ, PROT_READ | PROT_WRITE,
                            MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
            if (c->stack == MAP_FAILED)
                fatal("no memory for a stack");
        }
        if (cfg_poison)
            poison_fill(c->stack + STACKSZ - POISON_TOP, POISON_TOP);
        c->state = 0;
        c->step = 0;
        c->singles = c->loops = 0;
        c->curloop = NULL;
        c->prio = cfg_strategy == STRAT_PCT ? 16 + (uint32_t)(rng_next() >> 33) : 0;
        uintptr_t *sp = (uintptr_t *)(c->stack + STACKSZ);
        *--sp = 0;
        *--sp = 0;                      /* alignment at entry: rsp % 16 == 8 */
        *--sp = (uintptr_t)member_main; /* return address of simomp_switch */
        for (int k = 0; k < 6; k++)
            *--sp = 0;
        --sp;
        uint32_t mxcsr;
        uint16_t fcw;
        __asm__ volatile("stmxcsr %0" : "=m"(mxcsr));
        __asm__ volatile("fnstcw %0" : "=m"(fcw));
        ((uint32_t *)sp)[0] = mxcsr;
        ((uint16_t *)sp)[2] = fcw;
        c->sp = sp;
        if (tls_size) {
            tls_save[i] = realloc(tls_save[i], tls_size);
            memcpy(tls_save[i], tls_base, tls_size);
        }
    }
    int first = 0;
    if (n > 1 && (cfg_strategy == STRAT_RANDOM || cfg_strategy == STRAT_PCT))
        first = (int)rng_below((uint32_t)n);
    if (n > 1) {
        cur = 0;
        if (cfg_strategy == STRAT_REPLAY) {
            int pl = planned();
            if (pl >= 0 && pl < n)
                first = pl;
        }
        if (first)
            record(first);
    }
    cur = first;
    simomp_switch(&main_sp, cos[first].sp);
    cur = -1;
    nteam = 1;
}

EXPORT void GOMP_parallel(void (*fn)(void *), void *data, unsigned nthreads, unsigned flags)
{
    (void)flags;
    if (cur >= 0) { /* nested: a team of one */
        nested++;
        fn(data);
        nested--;
        return;
    }
    run_team(fn, data, nthreads ? (int)nthreads : cfg_nthreads);
}
unsigned GOMP_parallel_reductions(void (*fn)(void *), void *data, unsigned nthreads, unsigned flags)
{
    (void)fn; (void)data; (void)nthreads; (void)flags;
    fatal("GOMP_parallel_reductions is not simulated");
    return 0;
}

static inline int me_(void) { return nested || cur < 0 ? 0 : cur; }
static inline int team_(void) { return nested || cur < 0 ? 1 : nteam; }
int omp_get_thread_num(void) { return me_(); }
int omp_get_num_threads(void) { return team_(); }
int omp_get_max_threads(void) { return cfg_nthreads; }
int omp_get_num_procs(void) { return cfg_nthreads; }
int omp_in_parallel(void) { return cur >= 0 && nteam > 1; }
int omp_get_level(void) { return cur >= 0; }
int omp_get_dynamic(void) { return 0; }
int omp_get_nested(void) { return 0; }
int omp_get_thread_limit(void) { return MAXT; }
void omp_set_num_threads(int n) { cfg_nthreads = n < 1 ? 1 : n > MAXT ? MAXT : n; }
void omp_set_dynamic(int n) { (void)n; }
void omp_set_nested(int n) { (void)n; }
double omp_get_wtime(void) { return (double)st.steps * 1e-9; }
double omp_get_wtick(void) { return 1e-9; }
int omp_get_thread_num_(void) { return me_(); }
int omp_get_num_threads_(void) { return team_(); }
int omp_get_max_threads_(void) { return cfg_nthreads; }
int omp_get_num_procs_(void) { return cfg_nthreads; }
int omp_in_parallel_(void) { return omp_in_parallel(); }
int omp_get_level_(void) { return cur >= 0; }
void omp_set_num_threads_(const int *n) { omp_set_num_threads(*n); }
void omp_set_dynamic_(const int *n) { (void)n; }
void omp_set_nested_(const int *n) { (void)n; }
double omp_get_wtime_(void) { return omp_get_wtime(); }

/* ----------------------------------------------------------------- locks */
static struct lk *lock_of(void *a)
{
    for (int i = 0; i < nlocks; i++)
        if (locks[i].addr == a)
            return &locks[i];
    if (nlocks == 256)
        fatal("too many locks");
    locks[nlocks] = (struct lk){a, -1};
    return &locks[nlocks++];
}
static void acquire(void *a)
{
    if (cur < 0 || nteam < 2)
        return;
    st.criticals++;
    point(true);
    struct lk *l = lock_of(a);
    while (l->owner >= 0) {
        cos[cur].state = 1;
        cos[cur].waitlock = a;
        block();
    }
    l->owner = cur;
}
static void release(void *a)
{
    if (cur < 0 || nteam < 2)
        return;
    struct lk *l = lock_of(a);
    l->owner = -1;
    for (int i = 0; i < nteam; i++)
        if (cos[i].state == 1 && cos[i].waitlock == a)
            cos[i].state = 0;
    point(true);
}
static char critical_default, atomic_default;
void GOMP_critical_start(void) { acquire(&critical_default); }
void GOMP_critical_end(void) { release(&critical_default); }
void GOMP_critical_name_start(void **p) { acquire(p); }
void GOMP_critical_name_end(void **p) { release(p); }
void GOMP_atomic_start(void) { acquire(&atomic_default); }
void GOMP_atomic_end(void) { release(&atomic_default); }
void omp_init_lock_(void **l) { *l = NULL; }
void omp_destroy_lock_(void **l) { (void)l; }
void omp_set_lock_(void **l) { acquire(l); }
void omp_unset_lock_(void **l) { release(l); }

/* -------------------------------------------------------------- barriers */
void GOMP_barrier(void)
{
    if (cur < 0 || nteam < 2 || nested)
        return;
    point(false);
    if (++barrier_count == nteam) {
        barrier_count = 0;
        for (int i = 0; i < nteam; i++)
            if (cos[i].state == 2)
                cos[i].state = 0;
        point(true);
        return;
    }
    cos[cur].state = 2;
    block();
}
bool GOMP_barrier_cancel(void) { GOMP_barrier(); return false; }
bool GOMP_cancel(int w, bool d) { (void)w; (void)d; return false; }
bool GOMP_cancellation_point(int w) { (void)w; return false; }

/* ---------------------------------------------------------- work sharing */
static struct ws solo;
static struct ws *ws_enter(bool *created)
{
    if (cur < 0 || nested) {
        memset(&solo, 0, sizeof solo);
        solo.init = true;
        *created = true;
        return &solo;
    }
    uint64_t k = cos[cur].loops++;
    if (k >= MAXWS)
        fatal("too many work-sharing constructs");
    struct ws *w = &wss[k];
    *created = k >= nws;
    if (*created) {
        memset(w, 0, sizeof *w);
        nws = k + 1;
    }
    cos[cur].curloop = w;
    return w;
}
static struct ws *ws_cur(void) { return cur < 0 || nested ? &solo : cos[cur].curloop; }

static long trip(struct ws *w)
{
    if (w->incr > 0)
        return w->next < w->end ? (w->end - w->next + w->incr - 1) / w->incr : 0;
    return w->next > w->end ? (w->next - w->end - w->incr - 1) / -w->incr : 0;
}
static bool loop_next(struct ws *w, long *is, long *ie)
{
    if (cur >= 0 && nteam > 1)
        point(true);
    if (w->kind == 0) {
        /* static: thread t takes chunks t, t+n, ... */
        int n = team_(), t = me_();
        long total = trip(w), c = w->chunk;
        long done = cur >= 0 && !nested ? cos[cur].lo_chunk++ : w->ordered_iter++;
        if (c <= 0) {
            if (done)
                return false;
            long q = total / n, r = total % n;
            long s = t * q + (t < r ? t : r), e = s + q + (t < r);
            if (s >= e)
                return false;
            *is = w->next + s * w->incr;
            *ie = w->next + e * w->incr;
            return true;
        }
        long s = (done * n + t) * c;
        if (s >= total)
            return false;
        long e = s + c > total ? total : s + c;
        *is = w->next + s * w->incr;
        *ie = w->next + e * w->incr;
        return true;
    }
    long left = trip(w);
    if (!left)
        return false;
    long c = w->chunk > 0 ? w->chunk : 1;
    if (w->kind == 2) {
        long g = (left + team_() - 1) / team_();
        c = g > c ? g : c;
    }
    if (c > left)
        c = left;
    *is = w->next;
    w->next += c * w->incr;
    *ie = w->next;
    return true;
}
static bool loop_start(int kind, long s, long e, long i, long c, long *is, long *ie)
{
    bool created;
    struct ws *w = ws_enter(&created);
    if (created) {
        w->start = w->next = s;
        w->end = e;
        w->incr = i;
        w->chunk = c;
        w->kind = kind;
    }
    if (cur >= 0)
        cos[cur].lo_chunk = 0;
    return loop_next(w, is, ie);
}
#define LOOPS(name, kind)                                                                \
    bool GOMP_loop_##name##_start(long s, long e, long i, long c, long *is, long *ie)    \
    { return loop_start(kind, s, e, i, c, is, ie); }                                     \
    bool GOMP_loop_##name##_next(long *is, long *ie) { return loop_next(ws_cur(), is, ie); }
LOOPS(static, 0) LOOPS(dynamic, 1) LOOPS(guided, 2)
LOOPS(nonmonotonic_dynamic, 1) LOOPS(nonmonotonic_guided, 2)
#define RLOOPS(name)                                                                     \
    bool GOMP_loop_##name##_start(long s, long e, long i, long *is, long *ie)            \
    { return loop_start(1, s, e, i, 1, is, ie); }                                        \
    bool GOMP_loop_##name##_next(long *is, long *ie) { return loop_next(ws_cur(), is, ie); }
RLOOPS(runtime) RLOOPS(maybe_nonmonotonic_runtime) RLOOPS(nonmonotonic_runtime)
void GOMP_loop_end(void) { GOMP_barrier(); }
void GOMP_loop_end_nowait(void) {}
bool GOMP_loop_end_cancel(void) { GOMP_barrier(); return false; }

struct ploop { void (*fn)(void *); void *data; };
#define PLOOPS(name, kind)                                                               \
    void GOMP_parallel_loop_##name(void (*fn)(void *), void *data, unsigned nt, long s,  \
                                   long e, long i, long c, unsigned flags)               \
    { parallel_loop(kind, fn, data, nt, s, e, i, c, flags); }
static void parallel_loop(int kind, void (*fn)(void *), void *data, unsigned nt, long s, long e,
                          long i, long c, unsigned flags)
{
    /* combined constructs only call ..._next: install the work share up front */
    (void)flags;
    if (cur >= 0)
        fatal("nested parallel loop");
    static struct ws w;
    memset(&w, 0, sizeof w);
    w.start = w.next = s;
    w.end = e;
    w.incr = i;
    w.chunk = c;
    w.kind = kind;
    int n = nt ? (int)nt : cfg_nthreads;
    for (int k = 0; k < MAXT; k++) {
        cos[k].curloop = &w;
        cos[k].lo_chunk = 0;
    }
    extern void simomp_run_ploop(void (*)(void *), void *, int, struct ws *);
    simomp_run_ploop(fn, data, n, &w);
}
static struct ws *ploop_ws;
static void (*ploop_fn)(void *);
static void ploop_member(void *data)
{
    cos[cur].curloop = ploop_ws;
    cos[cur].lo_chunk = 0;
    ploop_fn(data);
}
void simomp_run_ploop(void (*fn)(void *), void *data, int n, struct ws *w)
{
    ploop_ws = w;
    ploop_fn = fn;
    run_team(ploop_member, data, n);
}
PLOOPS(static, 0) PLOOPS(dynamic, 1) PLOOPS(guided, 2)
PLOOPS(nonmonotonic_dynamic, 1) PLOOPS(nonmonotonic_guided, 2)
#define PRLOOPS(name)                                                                    \
    void GOMP_parallel_loop_##name(void (*fn)(void *), void *data, unsigned nt, long s,  \
                                   long e, long i, unsigned flags)                       \
    { parallel_loop(1, fn, data, nt, s, e, i, 1, flags); }
PRLOOPS(runtime) PRLOOPS(maybe_nonmonotonic_runtime) PRLOOPS(nonmonotonic_runtime)

/* single, sections, ordered, tasks */
bool GOMP_single_start(void)
{
    if (cur >= 0 && nteam > 1)
        point(true);
    bool created;
    ws_enter(&created);
    return created;
}
void *GOMP_single_copy_start(void)
{
    bool created;
    if (cur >= 0 && nteam > 1)
        point(true);
    struct ws *w = ws_enter(&created);
    if (created)
        return NULL;
    GOMP_barrier();
    return w->copy;
}
void GOMP_single_copy_end(void *data)
{
    ws_cur()->copy = data;
    GOMP_barrier();
}
unsigned GOMP_sections_start(unsigned n)
{
    bool created;
    struct ws *w = ws_enter(&created);
    if (created) {
        w->next = 1;
        w->end = (long)n + 1;
        w->incr = 1;
        w->kind = 1;
        w->chunk = 1;
    }
    long a, b;
    return loop_next(w, &a, &b) ? (unsigned)a : 0;
}
unsigned GOMP_sections_next(void)
{
    long a, b;
    return loop_next(ws_cur(), &a, &b) ? (unsigned)a : 0;
}
void GOMP_sections_end(void) { GOMP_barrier(); }
void GOMP_sections_end_nowait(void) {}
static struct ws psec;
void GOMP_parallel_sections(void (*fn)(void *), void *data, unsigned nt, unsigned count, unsigned flags)
{
    (void)flags;
    memset(&psec, 0, sizeof psec);
    psec.next = 1;
    psec.end = (long)count + 1;
    psec.incr = 1;
    psec.kind = 1;
    psec.chunk = 1;
    simomp_run_ploop(fn, data, nt ? (int)nt : cfg_nthreads, &psec);
}
void GOMP_ordered_start(void) { fatal("ordered constructs are not simulated"); }
void GOMP_ordered_end(void) {}
void GOMP_task(void (*fn)(void *), void *data, void (*cpyfn)(void *, void *), long size, long align,
               bool ifc, unsigned flags, void **dep, int prio, void *detach)
{
    (void)ifc; (void)flags; (void)dep; (void)prio; (void)detach;
    if (cpyfn) {
        char *buf = malloc((size_t)(size + align));
        char *arg = (char *)(((uintptr_t)buf + (uintptr_t)align - 1) & ~(uintptr_t)(align - 1));
        cpyfn(arg, data);
        fn(arg);
        free(buf);
    } else
        fn(data);
}
void GOMP_taskwait(void) {}
void GOMP_taskyield(void) {}
void GOMP_taskgroup_start(void) {}
void GOMP_taskgroup_end(void) {}

/* ------------------------------------------------- heap of the kernels */
extern void *__real_malloc(size_t);
extern void *__real_realloc(void *, size_t);
static uint64_t n_malloc;
void *__wrap_malloc(size_t n)
{
    void *p = __real_malloc(n);
    n_malloc++;
    if (p && cfg_poison)
        poison_fill(p, n);
    return p;
}
void *__wrap_realloc(void *p, size_t n) { return __real_realloc(p, n); }

/* --------------------------------------------------------------- control */
EXPORT void simomp_config(int nthreads, int strategy, uint64_t seed, uint32_t p, uint32_t phot,
                          int profile_, int poison, uint64_t maxsteps)
{
    cfg_nthreads = nthreads < 1 ? 1 : nthreads > MAXT ? MAXT : nthreads;
    cfg_strategy = strategy;
    rng_s = seed;
    cfg_p = p;
    cfg_phot = phot;
    cfg_profile = profile_;
    cfg_poison = poison;
    pz_s = seed ^ 0x5DEECE66Dull;
    cfg_maxsteps = maxsteps;
    memset(&st, 0, sizeof st);
    st.loghash = 0xcbf29ce484222325ull;
    ntrace = 0;
    region_no = 0;
    n_malloc = 0;
}
EXPORT void simomp_clear_hot(void) { memset(hot, 0, sizeof hot); }
EXPORT uint32_t simomp_get_hot(uint64_t *out, uint32_t n)
{
    uint32_t k = 0;
    for (uint32_t i = 0; i < (1u << HOTBITS); i++)
        if (hot[i]) {
            if (k < n)
                out[k] = hot[i];
            k++;
        }
    return k;
}
EXPORT void simomp_add_hot(uint64_t pc) { hot_add((uintptr_t)pc); }
EXPORT void simomp_stats(struct sim_stats *s) { *s = st; }
EXPORT uint32_t simomp_trace(struct sw *out, uint32_t n)
{
    if (out)
        memcpy(out, trace, (n < ntrace ? n : ntrace) * sizeof *trace);
    return ntrace;
}
EXPORT void simomp_plan(const struct sw *in, uint32_t n)
{
    free(plan);
    free(planhash);
    plan = NULL;
    planhash = NULL;
    nplan = n;
    if (!n)
        return;
    plan = __real_malloc(n * sizeof *plan);
    memcpy(plan, in, n * sizeof *plan);
    uint32_t m = 16;
    while (m < 4 * n)
        m *= 2;
    planmask = m - 1;
    planhash = calloc(m, sizeof *planhash);
    for (uint32_t j = 0; j < n; j++) {
        uint64_t k = swkey(plan[j].region, plan[j].tid, plan[j].step);
        uint32_t i = 0;
        while (planhash[(k + i) & planmask])
            i++;
        planhash[(k + i) & planmask] = j + 1;
    }
}
