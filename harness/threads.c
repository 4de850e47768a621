/* T01 the thread pool, on the real code with a controlled scheduler: every
 * thread is a fiber, the pthread calls of the code are decision points of the
 * explorer, and the memory accesses of the code (instrumented by the compiler)
 * feed a happens-before race detector and a check for released memory. */
#define _GNU_SOURCE
#include <errno.h>
#include <pthread.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include <ucontext.h>
#include "../mc/mc.h"
#include "viriatum_commons/stdafx.h"
#include "viriatum_commons/thread/thread.h"

#define QUIET __attribute__((no_sanitize_thread))
#define NT 8
#define STACK (192 * 1024)
enum { NONE, START, LOCK, COND, RELOCK, JOIN, YIELD, MEET, DONE };
static int met;
typedef struct fiber { ucontext_t ctx; char *stack; void *(*fn)(void *); void *arg; int op; void *obj, *mutex; int woken, detached, timed; unsigned vc[NT]; } fiber;
static fiber fb[NT]; static int nf, cur = -1; static ucontext_t sched; static char failure[400]; static int spurious_left, create_fail, creates;
typedef struct syn { void *p; int kind, owner; unsigned vc[NT]; } syn;   /* kind 1 mutex, 2 condition */
static syn sy[16]; static int nsy;

/* --- memory ----------------------------------------------------------- */
typedef struct block { uintptr_t p; size_t n; int freed; } block;
static block bl[400]; static int nbl; static size_t live;
void *__real_malloc(size_t n); void *__real_calloc(size_t a, size_t b); void *__real_realloc(void *p, size_t n); void __real_free(void *p);
QUIET static void fail_here(const char *f, ...) { va_list a; if(failure[0]) return; va_start(a, f); vsnprintf(failure, sizeof failure, f, a); va_end(a); if(cur >= 0) { int me = cur; fb[me].op = DONE; cur = -1; swapcontext(&fb[me].ctx, &sched); } }
typedef struct cell { uintptr_t a; unsigned w, r[NT]; int wt, used; } cell;
#define CELLS 16384
static cell cells[CELLS]; static int used[CELLS], nused;
QUIET static cell *at(uintptr_t a) {
    unsigned i = (unsigned) ((a * 0x9E3779B97F4A7C15ull) >> 40) % CELLS;
    while(cells[i].used && cells[i].a != a) i = (i + 1) % CELLS;
    if(!cells[i].used) { memset(&cells[i], 0, sizeof cells[i]); cells[i].used = 1; cells[i].a = a; cells[i].wt = -1; used[nused++] = i; if(nused > CELLS / 2) { fail_here("internal: too many addresses"); nused--; } }
    return &cells[i];
}
/* an arena, so that the same history gives the same addresses */
static char stacks[NT][STACK] __attribute__((aligned(64)));
static int pruned;
static union { char b[64 * 1024]; long double align; } arena; static size_t arena_n;
QUIET void *__wrap_malloc(size_t n) {
    block *b; if(cur < 0) return __real_malloc(n);
    if(nbl == 400 || arena_n + n + 32 > sizeof arena) { fail_here("internal: too much memory"); return __real_malloc(n); }
    b = &bl[nbl++]; b->p = (uintptr_t) arena.b + arena_n; b->n = n; b->freed = 0; arena_n += (n + 31) & ~15ul; memset((void *) b->p, 0xbe, n); live++; return (void *) b->p;
}
QUIET void *__wrap_calloc(size_t a, size_t b) { void *p; if(cur < 0) return __real_calloc(a, b); p = __wrap_malloc(a * b); memset(p, 0, a * b); return p; }
QUIET void __wrap_free(void *p) {
    int i;
    if(cur < 0 || !p) { __real_free(p); return; }
    for(i = 0; i < nbl; i++) if(bl[i].p == (uintptr_t) p) { if(bl[i].freed) fail_here("memory is released twice"); bl[i].freed = 1; live--; return; }  /* kept until the end */
    fail_here("memory that was not allocated is released");
}
QUIET void *__wrap_realloc(void *p, size_t n) { void *q; int i; if(cur < 0) return __real_realloc(p, n); q = __wrap_malloc(n); if(p) { for(i = 0; i < nbl; i++) if(bl[i].p == (uintptr_t) p) memcpy(q, p, bl[i].n < n ? bl[i].n : n); __wrap_free(p); } return q; }

/* --- the accesses of the code under test ------------------------------ */
QUIET static void touch(void *p, int n, int write) {
    uintptr_t a = (uintptr_t) p; int i, k, t = cur; fiber *f;
    if(t < 0 || failure[0]) return;
    f = &fb[t];
    for(i = 0; i < nf; i++) if(fb[i].stack && a >= (uintptr_t) fb[i].stack && a < (uintptr_t) fb[i].stack + STACK && i == t) return;
    for(i = 0; i < nbl; i++) if(a >= bl[i].p && a < bl[i].p + bl[i].n) { if(bl[i].freed) fail_here("thread %d %s memory that was released", t, write ? "writes" : "reads"); break; }
    for(k = 0; k < n; k++) {
        cell *c = at(a + k);
        if(c->wt >= 0 && c->wt != t && c->w > f->vc[c->wt]) { fail_here("thread %d %s what thread %d writes, without order between them", t, write ? "writes" : "reads", c->wt); return; }
        if(write) {
            for(i = 0; i < nf; i++) if(i != t && c->r[i] > f->vc[i]) { fail_here("thread %d writes what thread %d reads, without order between them", t, i); return; }
            c->wt = t; c->w = f->vc[t];
        } else c->r[t] = f->vc[t];
    }
}
#define TS(n) QUIET void __tsan_read##n(void *p) { touch(p, n, 0); } QUIET void __tsan_write##n(void *p) { touch(p, n, 1); } \
    QUIET void __tsan_unaligned_read##n(void *p) { touch(p, n, 0); } QUIET void __tsan_unaligned_write##n(void *p) { touch(p, n, 1); } \
    QUIET void __tsan_volatile_read##n(void *p) { touch(p, n, 0); } QUIET void __tsan_volatile_write##n(void *p) { touch(p, n, 1); } \
    QUIET void __tsan_read_write##n(void *p) { touch(p, n, 1); }
TS(1) TS(2) TS(4) TS(8) TS(16)
QUIET void __tsan_read_range(void *p, unsigned long n) { touch(p, (int) n, 0); }
QUIET void __tsan_write_range(void *p, unsigned long n) { touch(p, (int) n, 1); }
QUIET void __tsan_vptr_update(void **p, void *v) { (void) v; touch(p, 8, 1); }
void __tsan_init(void) {} void __tsan_func_entry(void *p) { (void) p; } void __tsan_func_exit(void) {}

/* --- threads ---------------------------------------------------------- */
QUIET static void vc_join(unsigned *a, const unsigned *b) { int i; for(i = 0; i < NT; i++) if(b[i] > a[i]) a[i] = b[i]; }
QUIET static syn *find(void *p, int kind, const char *what) {
    int i;
    for(i = 0; i < nsy; i++) if(sy[i].p == p && sy[i].kind == kind) return &sy[i];
    fail_here("%s that %s is used", kind == 1 ? "a mutex" : "a condition", what); return NULL;
}
QUIET static void park(int op, void *obj) { int me = cur; fb[me].op = op; fb[me].obj = obj; cur = -1; swapcontext(&fb[me].ctx, &sched); }
QUIET static void *stop_here(void) { for(;;) park(DONE, NULL); return NULL; }
QUIET static void body(void) { int me = cur; fb[me].fn(fb[me].arg); stop_here(); }
QUIET static int spawn(void *(*fn)(void *), void *arg) {
    int t = nf; fiber *f;
    if(t >= NT) { fail_here("internal: too many threads"); return -1; }
    f = &fb[t]; { char *st = f->stack; memset(f, 0, sizeof *f); (void) st; f->stack = stacks[t]; memset(f->stack + STACK - 8192, 0, 8192); }
    f->fn = fn; f->arg = arg; f->op = START; if(cur >= 0) { vc_join(f->vc, fb[cur].vc); fb[cur].vc[cur]++; } f->vc[t] = 1;
    getcontext(&f->ctx); f->ctx.uc_stack.ss_sp = f->stack; f->ctx.uc_stack.ss_size = STACK; f->ctx.uc_link = NULL; makecontext(&f->ctx, body, 0);
    nf++; return t;
}
static QUIET int lose(void) { fail_here("internal: a call outside of a thread"); return EINVAL; }
QUIET int pthread_create(pthread_t *id, const pthread_attr_t *at_, void *(*fn)(void *), void *arg) {
    int t; (void) at_;
    if(cur < 0) return lose();
    if(create_fail & (1 << creates++)) return EAGAIN;
    t = spawn(fn, arg); if(t < 0) return EAGAIN;
    *id = (pthread_t) (t + 1); touch(id, sizeof *id, 1);
    return 0;
}
QUIET pthread_t pthread_self(void) { return (pthread_t) (cur + 1); }
QUIET int pthread_detach(pthread_t id) { int t = (int) id - 1; if(t < 0 || t >= nf) { fail_here("a thread that does not exist is detached"); return ESRCH; } fb[t].detached = 1; return 0; }
QUIET int pthread_join(pthread_t id, void **r) {
    long t = (long) id - 1;
    if(t < 0 || t >= nf || t == cur || fb[t].detached) { fail_here("a thread that does not exist is joined"); return ESRCH; }
    park(JOIN, &fb[t]); fb[t].detached = 1; vc_join(fb[cur].vc, fb[t].vc); if(r) *r = NULL; return 0;
}
QUIET static int make(void *p, int kind) {
    int i;
    for(i = 0; i < nsy; i++) if(sy[i].p == p) { fail_here("%s is created twice", kind == 1 ? "a mutex" : "a condition"); return EBUSY; }
    for(i = 0; i < nsy; i++) if(!sy[i].kind) break;
    if(i == nsy) { if(nsy == 16) { fail_here("internal: too many locks"); return ENOMEM; } nsy++; }
    memset(&sy[i], 0, sizeof sy[i]); sy[i].p = p; sy[i].kind = kind; sy[i].owner = -1; return 0;
}
QUIET static int unmake(void *p, int kind) {
    syn *s = find(p, kind, "does not exist"); int i; if(!s) return EINVAL;
    if(kind == 1 && s->owner >= 0) { fail_here("a mutex that is held is destroyed"); return EBUSY; }
    for(i = 0; i < nf; i++) if((fb[i].op == LOCK && fb[i].obj == p) || ((fb[i].op == COND || fb[i].op == RELOCK) && (fb[i].obj == p || fb[i].mutex == p))) { fail_here("a %s that thread %d waits for is destroyed", kind == 1 ? "mutex" : "condition", i); return EBUSY; }
    memset(s, 0, sizeof *s); return 0;
}
QUIET int pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a) { (void) a; return make(m, 1); }
QUIET int pthread_mutex_destroy(pthread_mutex_t *m) { return unmake(m, 1); }
QUIET int pthread_mutex_lock(pthread_mutex_t *m) {
    syn *s = find(m, 1, "does not exist"); if(!s || cur < 0) return EINVAL;
    park(LOCK, m); s = find(m, 1, "does not exist"); if(!s) return EINVAL;
    s->owner = cur; vc_join(fb[cur].vc, s->vc); return 0;
}
QUIET int pthread_mutex_trylock(pthread_mutex_t *m) {
    syn *s; park(YIELD, NULL); s = find(m, 1, "does not exist"); if(!s) return EINVAL;
    if(s->owner >= 0) return EBUSY;
    s->owner = cur; vc_join(fb[cur].vc, s->vc); return 0;
}
QUIET static int release(void *m) {
    syn *s = find(m, 1, "does not exist"); if(!s) return EINVAL;
    if(s->owner != cur) { fail_here("thread %d releases a mutex it does not hold", cur); return EPERM; }
    memcpy(s->vc, fb[cur].vc, sizeof s->vc); fb[cur].vc[cur]++; s->owner = -1; return 0;
}
QUIET int pthread_mutex_unlock(pthread_mutex_t *m) { return release(m); }
QUIET int pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t *a) { (void) a; return make(c, 2); }
QUIET int pthread_cond_destroy(pthread_cond_t *c) { return unmake(c, 2); }
QUIET static int cond_wait(pthread_cond_t *c, pthread_mutex_t *m, int timed) {
    syn *s; int r; if(!find(c, 2, "does not exist")) return EINVAL;
    if((r = release(m))) return r;
    fb[cur].mutex = m; fb[cur].woken = 0; fb[cur].timed = timed; park(COND, c); r = fb[cur].timed == 2 ? ETIMEDOUT : 0;
    fb[cur].mutex = NULL; fb[cur].timed = 0; s = find(m, 1, "does not exist"); if(!s) return EINVAL;
    s->owner = cur; vc_join(fb[cur].vc, s->vc); return r;
}
QUIET int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { return cond_wait(c, m, 0); }
QUIET int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *t) { (void) t; return cond_wait(c, m, 1); }
/* which waiter is woken is decided by the scheduler, in its own context */
static int wake_all;
QUIET static int notify(pthread_cond_t *c, int all) { if(!find(c, 2, "does not exist")) return EINVAL; wake_all = all; fb[cur].mutex = (void *) c; park(YIELD, c); fb[cur].mutex = NULL; return 0; }
QUIET int pthread_cond_signal(pthread_cond_t *c) { return notify(c, 0); }
QUIET int pthread_cond_broadcast(pthread_cond_t *c) { return notify(c, 1); }

/* --- the scheduler: the only place where decisions are taken ----------- */
static QUIET int owner_of(void *m) { int i; for(i = 0; i < nsy; i++) if(sy[i].p == m && sy[i].kind == 1) return sy[i].owner; return -1; }
static QUIET int enabled(int t) {
    fiber *f = &fb[t];
    switch(f->op) {
        case START: case YIELD: return 1;
        case MEET: return met;
        case LOCK: return owner_of(f->obj) < 0;
        case RELOCK: return owner_of(f->mutex) < 0;
        case JOIN: return ((fiber *) f->obj)->op == DONE;
        default: return 0;
    }
}
/* everything that decides the future: the memory, the stacks, the registers,
 * the locks, and the order between accesses (clocks replaced by their ranks) */
static uint64_t (*more_state)(void);
static QUIET unsigned rank(unsigned *v, int n, unsigned x) { int i; for(i = 0; i < n; i++) if(v[i] == x) return i; return 9999; }
static QUIET uint64_t state(int last) {
    uint64_t h = mc_hash(arena.b, arena_n, last + 1000 * mc_budget() + (spurious_left << 20)); int i, u, t; static unsigned v[NT][400]; static int nv[NT];
    for(u = 0; u < nf; u++) { int k; nv[u] = 0;
        #define ADD(x) do { unsigned x_ = (x); for(k = 0; k < nv[u] && v[u][k] < x_; k++); if((k == nv[u] || v[u][k] != x_) && nv[u] < 400) { memmove(&v[u][k + 1], &v[u][k], (nv[u] - k) * sizeof v[u][0]); v[u][k] = x_; nv[u]++; } } while(0)
        ADD(0); for(t = 0; t < nf; t++) ADD(fb[t].vc[u]);
        for(i = 0; i < nsy; i++) if(sy[i].kind) ADD(sy[i].vc[u]);
        for(i = 0; i < nused; i++) { cell *c = &cells[used[i]]; if(c->wt == u) ADD(c->w); ADD(c->r[u]); }
    }
    { uint64_t x = 0; for(i = 0; i < nused; i++) { cell *c = &cells[used[i]]; unsigned q[NT + 2]; memset(q, 0, sizeof q); q[0] = c->wt + 1; if(c->wt >= 0) q[1] = rank(v[c->wt], nv[c->wt], c->w); for(u = 0; u < nf; u++) q[2 + u] = rank(v[u], nv[u], c->r[u]); x += mc_hash(q, sizeof q, c->a); } h = mc_hash(&x, sizeof x, h); }
    for(i = 0; i < nsy; i++) if(sy[i].kind) { unsigned q[NT]; memset(q, 0, sizeof q); for(u = 0; u < nf; u++) q[u] = rank(v[u], nv[u], sy[i].vc[u]); h = mc_hash(q, sizeof q, h + (uintptr_t) sy[i].p + sy[i].kind * 31 + sy[i].owner * 7); }
    for(i = 0; i < nbl; i++) h = h * 31 + bl[i].freed;
    for(t = 0; t < nf; t++) {
        fiber *f = &fb[t]; unsigned q[NT]; uintptr_t sp = f->ctx.uc_mcontext.gregs[REG_RSP]; int w[4];
        memset(q, 0, sizeof q); for(u = 0; u < nf; u++) q[u] = rank(v[u], nv[u], f->vc[u]);
        w[0] = f->op; w[1] = f->detached; w[2] = f->timed; w[3] = f->woken;
        h = mc_hash(q, sizeof q, mc_hash(w, sizeof w, h + (uintptr_t) f->obj * 3 + (uintptr_t) f->mutex * 5));
        if(f->op != DONE) { h = mc_hash((void *) sp, (uintptr_t) f->stack + STACK - sp, h); for(i = REG_R8; i <= REG_RIP; i++) if(i == REG_RBX || i == REG_RBP || i == REG_RIP || (i >= REG_R12 && i <= REG_R15)) h = mc_hash(&f->ctx.uc_mcontext.gregs[i], 8, h); }
    }
    return mc_hash(&h, sizeof h, more_state());
}
static QUIET void schedule(void) {
    int last = 0, i, steps = 0;
    for(;;) {
        int list[NT], n = 0, k;
        mc_check(!failure[0], "%s", failure);
        mc_check(++steps < 4000, "the threads do not come to rest");
        if(steps > 1 && mc_visited(state(last))) { pruned = 1; return; };
        if(enabled(last)) list[n++] = last;
        for(i = 0; i < nf; i++) if(i != last && enabled(i)) list[n++] = i;
        /* a wakeup that nobody asked for, an expired wait */
        if(spurious_left) for(i = 0; i < nf; i++) if(fb[i].op == COND && n < NT) list[n++] = i + 100;
        if(n == 0 || list[0] >= 100) {   /* at rest: an expired wait, or a wakeup without reason */
            int timed = 0; for(i = 0; i < nf; i++) if(fb[i].op == COND && fb[i].timed) { fb[i].timed = 2; fb[i].op = RELOCK; timed = 1; }
            if(timed) continue;
            if(n == 0) return;
            k = mc_choose(n + 1); if(k == n) return;
        } else k = mc_choose(n);
        k = list[k];
        if(k >= 100) { spurious_left--; fb[k - 100].op = RELOCK; continue; }
        last = k; mc_step();
        if(fb[k].op == YIELD && fb[k].obj) {          /* a signal: choose the waiters */
            void *c = fb[k].obj; int w[NT], nw = 0; fb[k].obj = NULL;
            for(i = 0; i < nf; i++) if(fb[i].op == COND && fb[i].obj == c) w[nw++] = i;
            if(wake_all) { for(i = 0; i < nw; i++) fb[w[i]].op = RELOCK; }
            else if(nw) fb[w[mc_choose(nw)]].op = RELOCK;
        }
        fb[k].op = NONE; cur = k; swapcontext(&sched, &fb[k].ctx);
        cur = -1;
    }
}
static uint64_t pool_state(void);
static QUIET void begin(void) {
    int i;
    for(i = 0; i < nused; i++) cells[used[i]].used = 0;
    nused = 0; arena_n = 0; pruned = 0; more_state = pool_state;
    nbl = 0; live = 0; met = 0; nsy = 0; nf = 0; cur = -1; failure[0] = 0; spurious_left = 0; create_fail = 0; creates = 0; wake_all = 0;
}

/* --- the pool ---------------------------------------------------------- */
static struct thread_pool_t *pool; static struct thread_pool_task_t task[8];
static int workers, tasks, ran[8], inside, peak, meet, order[8], norder, inserted, deleted, want_delete, nested, producers;
static QUIET uint64_t pool_state(void) {
    uint64_t h = mc_hash(ran, sizeof ran, met); int w[] = { workers, tasks, inside, peak, meet, norder, inserted, deleted, want_delete, nested, producers, create_fail, creates, (int) live };
    h = mc_hash(w, sizeof w, h); return mc_hash(order, sizeof order, h);
}
static QUIET int go(int k) {
    ran[k]++; if(norder < 8) order[norder++] = k; inside++; if(inside > peak) peak = inside;
    if(nested && k == 0) insert_task_thread_pool(pool, &task[tasks - 1]);
    if(meet) { if(inside >= meet) met = 1; park(MEET, NULL); }
    else park(YIELD, NULL);
    inside--; return 0;
}
#define T(n) static QUIET int run##n(void *a) { (void) a; return go(n); }
T(0) T(1) T(2) T(3) T(4) T(5)
static int (*runs[])(void *) = { run0, run1, run2, run3, run4, run5 };
static QUIET void *producer(void *arg) { insert_task_thread_pool(pool, &task[(long) arg]); return NULL; }
static QUIET void *program(void *arg) {
    int i; pthread_t p[4]; (void) arg;
    create_thread_pool(&pool, workers, 1, workers);
    for(i = 0; i < producers; i++) pthread_create(&p[i], NULL, producer, (void *) (long) i);
    for(i = producers; i < tasks - nested; i++) insert_task_thread_pool(pool, &task[i]);
    for(i = 0; i < producers; i++) pthread_join(p[i], NULL);
    inserted = 1;
    if(want_delete) { delete_thread_pool(pool); deleted = 1; }
    return NULL;
}
static QUIET void play(void) {
    int i;
    memset(ran, 0, sizeof ran); inside = peak = norder = inserted = deleted = 0;
    for(i = 0; i < 6; i++) { memset(&task[i], 0, sizeof task[i]); task[i].start_function = runs[i]; }
    spawn(program, NULL); schedule(); if(pruned) return;
    mc_check(inserted, "a thread that inserts tasks is blocked for ever");
    mc_check(!inside, "%d of %d tasks that wait for each other are never run at the same time", inside, tasks);
    for(i = 0; i < tasks; i++) mc_check(ran[i] == 1, "task %d of %d ran %d times when everything is at rest", i, tasks, ran[i]);
    if(want_delete) {
        mc_check(deleted, "the pool is blocked for ever in its end");
        for(i = 1; i < nf; i++) mc_check(fb[i].op == DONE, "thread %d outlives the pool", i);
        mc_check(live == 0, "the end of the pool leaves %d blocks of memory", (int) live);
        for(i = 0; i < nsy; i++) mc_check(!sy[i].kind, "the end of the pool leaves a %s", sy[i].kind == 1 ? "mutex" : "condition");
    } else for(i = 0; i < nsy; i++) mc_check(sy[i].kind != 1 || sy[i].owner < 0, "a mutex is held while everything is at rest");
    mc_outcome(mc_hash(order, sizeof order, peak));
    if(mc_verbose) for(i = 0; i < norder; i++) mc_log("task %d", order[i]);
}
static QUIET void size(int minw, int maxw, int mint, int maxt) { begin(); workers = minw + mc_choose(maxw - minw + 1); tasks = mint + mc_choose(maxt - mint + 1); want_delete = mc_choose(2); nested = meet = producers = 0; }
/* every schedule */
static QUIET void t01_every(void) { size(1, mc_bound, 0, mc_bound); play(); }
/* with other threads that insert */
static QUIET void t01_insert(void) { size(1, 2, 1, 2); producers = 1 + mc_choose(mc_bound); if(producers > tasks) mc_skip(); play(); }
static QUIET void t01_spurious(void) { size(1, 2, 1, mc_bound); spurious_left = mc_bound - 1; play(); }
static QUIET void t01_nested(void) { size(1, 2, 2, mc_bound); nested = 1; play(); }
static QUIET void t01_create(void) { size(2, mc_bound, 1, 2); create_fail = 1 + mc_choose((1 << workers) - 2); play(); }
/* as many tasks as workers run at the same time: one that waits for the others ends */
static QUIET void t01_together(void) { size(2, mc_bound, 2, mc_bound); if(tasks != workers) mc_skip(); meet = workers; play(); }

static const mc_scenario list[] = {
    { "T01.every", t01_every, 2, 3, 0, 0, 6, 0, "1 to 2 (3) workers, every number of tasks up to 2 (3), every schedule" },
    { "T01.insert", t01_insert, 1, 2, 0, 0, 6, 0, "1 and 2 workers, up to 2 tasks, other threads inserting, every schedule" },
    { "T01.spurious", t01_spurious, 2, 3, 0, 0, 6, 0, "workers that wake up without reason" },
    { "T01.nested", t01_nested, 2, 3, 0, 0, 6, 0, "tasks that insert tasks" },
    { "T01.create", t01_create, 3, 3, 0, 0, 6, 0, "threads that can not be created" },
    { "T01.together", t01_together, 2, 3, 0, 0, 6, 0, "as many tasks as workers run at the same time" },
};
MC_MAIN(list)
