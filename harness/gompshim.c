/* A small OpenMP runtime for gcc-compiled code, made of pthreads that the race
 * detector understands: every parallel region creates and joins its threads.
 * VF_SEED != 0 injects random delays, thread orders and loop partitions. */
#define _GNU_SOURCE
#include <pthread.h>
#include <sched.h>
#include <stdbool.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include <unistd.h>

#define MAXT 64
typedef struct {
    pthread_mutex_t m;
    pthread_cond_t c;
    int lock;
    int n, waiting, gen;
    /* work sharing constructs in order of appearance */
    struct loop { long next, end, incr, chunk; int guided; int init; int done; } loops[512];
    long single;
    void *copy;
} team_t;
typedef struct { team_t *t; int id; void (*fn)(void *); void *data; int ws; int cur; long singles; } thr_t;

static __thread thr_t *self;
static __thread int nested;
static int max_threads = 0;
static unsigned long rstate = 0;
static int rlock;
/* Work sharing is done with atomics the race detector cannot see: a mutex here would order
 * the chunks of different threads and hide races between them. */
static void spin(int *l) { int z = 0; while (!__atomic_compare_exchange_n(l, &z, 1, 0, __ATOMIC_ACQUIRE, __ATOMIC_RELAXED)) { z = 0; sched_yield(); } }
static void unspin(int *l) { __atomic_store_n(l, 0, __ATOMIC_RELEASE); }
static pthread_mutex_t crit = PTHREAD_MUTEX_INITIALIZER, atom = PTHREAD_MUTEX_INITIALIZER;
static unsigned long regions, loops_served, chunks;

__attribute__((visibility("default"))) unsigned long vf_regions(void) { return regions; }
__attribute__((visibility("default"))) unsigned long vf_chunks(void) { return chunks; }
__attribute__((visibility("default"))) void vf_seed(unsigned long s) { rstate = s; }

static unsigned long rnd(void) {
    unsigned long r;
    if (!rstate) return 0;
    spin(&rlock);
    rstate ^= rstate << 13; rstate ^= rstate >> 7; rstate ^= rstate << 17;
    r = rstate >> 11;
    unspin(&rlock);
    return r;
}
static void jitter(void) {
    unsigned long r;
    if (!rstate) return;
    r = rnd() % 8;
    if (r == 0) { struct timespec t = {0, (long)(rnd() % 60000)}; nanosleep(&t, NULL); }
    else if (r < 4) sched_yield();
}
static int maxt(void) {
    if (!max_threads) {
        const char *s = getenv("OMP_NUM_THREADS");
        max_threads = s ? atoi(s) : 4;
        if (max_threads < 1) max_threads = 1;
        if (max_threads > MAXT) max_threads = MAXT;
        s = getenv("VF_SEED");
        if (s) rstate = strtoul(s, 0, 10);
    }
    return max_threads;
}
int omp_get_max_threads(void) { return nested ? 1 : maxt(); }
int omp_get_num_procs(void) { return maxt(); }
void omp_set_num_threads(int n) { maxt(); max_threads = n < 1 ? 1 : n > MAXT ? MAXT : n; }
int omp_get_num_threads(void) { return self ? self->t->n : 1; }
int omp_get_thread_num(void) { return self ? self->id : 0; }
int omp_in_parallel(void) { return self && self->t->n > 1; }
double omp_get_wtime(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }

static void *body(void *p) {
    thr_t *me = p;
    self = me;
    nested = 1;
    jitter();
    me->fn(me->data);
    nested = 0;
    self = NULL;
    return NULL;
}
static void barrier(team_t *t) {
    int g;
    if (t->n == 1) return;
    pthread_mutex_lock(&t->m);
    g = t->gen;
    if (++t->waiting == t->n) { t->waiting = 0; t->gen++; pthread_cond_broadcast(&t->c); }
    else while (g == t->gen) pthread_cond_wait(&t->c, &t->m);
    pthread_mutex_unlock(&t->m);
}
static void region(void (*fn)(void *), void *data, unsigned nt, struct loop *first) {
    thr_t th[MAXT];
    pthread_t id[MAXT];
    int ord[MAXT];
    team_t *t = calloc(1, sizeof(team_t));
    thr_t *old = self;
    int onest = nested, i, j, x;
    int n = nested ? 1 : (nt ? (int)nt : maxt());
    if (n > MAXT) n = MAXT;
    pthread_mutex_init(&t->m, NULL);
    pthread_cond_init(&t->c, NULL);
    t->n = n;
    if (first) { t->loops[0] = *first; t->loops[0].init = 1; }
    for (i = 0; i < n; i++) {
        memset(&th[i], 0, sizeof(thr_t));
        th[i].t = t; th[i].id = i; th[i].fn = fn; th[i].data = data; th[i].cur = -1;
        if (first) { th[i].cur = 0; th[i].ws = 1; }
        ord[i] = i;
    }
    if (rstate) for (i = n - 1; i > 1; i--) { j = 1 + rnd() % i; x = ord[i]; ord[i] = ord[j]; ord[j] = x; }
    __atomic_add_fetch(&regions, n > 1, __ATOMIC_RELAXED);
    for (i = 1; i < n; i++) pthread_create(&id[ord[i]], NULL, body, &th[ord[i]]);
    self = &th[0]; nested = 1;
    jitter();
    fn(data);
    self = old; nested = onest;
    for (i = 1; i < n; i++) pthread_join(id[i], NULL);
    pthread_mutex_destroy(&t->m);
    pthread_cond_destroy(&t->c);
    free(t);
}
void GOMP_parallel(void (*fn)(void *), void *data, unsigned nt, unsigned flags) { (void)flags; region(fn, data, nt, NULL); }
void GOMP_barrier(void) { if (self) barrier(self->t); }
static bool next(long *s, long *e) {
    struct loop *l; long left, take, step; bool ok = false;
    if (!self) return false;
    jitter();
    spin(&self->t->lock);
    l = &self->t->loops[self->cur];
    left = l->incr > 0 ? (l->end - l->next + l->incr - 1) / l->incr : (l->next - l->end - l->incr - 1) / -l->incr;
    if (left > 0) {
        take = l->chunk < 1 ? 1 : l->chunk;
        if (l->guided == 2) take = (left + self->t->n - 1) / self->t->n;
        else if (l->guided) { long q = left / self->t->n; if (q > take) take = q; }
        if (rstate && l->guided == 1 && take > 1) take = 1 + (long)(rnd() % (unsigned long)take);
        if (take > left) take = left;
        step = take * l->incr;
        *s = l->next; *e = l->next + step; l->next += step;
        if (l->incr > 0 ? *e > l->end : *e < l->end) *e = l->end;
        ok = true; chunks++;
    }
    unspin(&self->t->lock);
    return ok;
}
static bool start(long a, long b, long incr, long chunk, long *s, long *e, int guided) {
    struct loop *l;
    static __thread team_t single_team;
    static __thread thr_t single_thr;
    if (!self) { /* orphaned construct outside of a region */
        memset(&single_team, 0, sizeof single_team); memset(&single_thr, 0, sizeof single_thr);
        pthread_mutex_init(&single_team.m, NULL);
        single_team.n = 1; single_thr.t = &single_team; self = &single_thr;
    }
    self->cur = self->ws++ % 512;
    spin(&self->t->lock);
    l = &self->t->loops[self->cur];
    if (self->t == &single_team) l->init = 0;
    if (!l->init) { l->next = a; l->end = b; l->incr = incr; l->chunk = chunk; l->guided = guided; l->init = 1; loops_served++; }
    unspin(&self->t->lock);
    return next(s, e);
}
#define LOOP(name, g) \
    bool GOMP_loop_##name##_start(long a, long b, long i, long c, long *s, long *e) { return start(a, b, i, c, s, e, g); } \
    bool GOMP_loop_##name##_next(long *s, long *e) { return next(s, e); } \
    void GOMP_parallel_loop_##name(void (*fn)(void *), void *d, unsigned nt, long a, long b, long i, long c, unsigned f) { \
        struct loop l = {a, b, i, c, g, 1, 0}; (void)f; region(fn, d, nt, &l); }
LOOP(guided, 1)
LOOP(dynamic, 0)
LOOP(static, 2)
LOOP(nonmonotonic_guided, 1)
LOOP(nonmonotonic_dynamic, 0)
#define RLOOP(name) \
    bool GOMP_loop_##name##_start(long a, long b, long i, long *s, long *e) { return start(a, b, i, 1, s, e, 0); } \
    bool GOMP_loop_##name##_next(long *s, long *e) { return next(s, e); } \
    void GOMP_parallel_loop_##name(void (*fn)(void *), void *d, unsigned nt, long a, long b, long i, unsigned f) { \
        struct loop l = {a, b, i, 1, 0, 1, 0}; (void)f; region(fn, d, nt, &l); }
RLOOP(runtime)
RLOOP(nonmonotonic_runtime)
RLOOP(maybe_nonmonotonic_runtime)
static void finish(void) {
    struct loop *l;
    if (!self || self->cur < 0) return;
    l = &self->t->loops[self->cur];
    if (__atomic_add_fetch(&l->done, 1, __ATOMIC_ACQ_REL) == self->t->n) { l->done = 0; l->init = 0; }
}
void GOMP_loop_end(void) { finish(); if (self) barrier(self->t); }
void GOMP_loop_end_nowait(void) { finish(); }
#define ULOOP(name, g) \
    bool GOMP_loop_ull_##name##_start(bool up, unsigned long long a, unsigned long long b, unsigned long long i, unsigned long long c, unsigned long long *s, unsigned long long *e) { \
        (void)up; return start((long)a, (long)b, (long)i, (long)c, (long *)s, (long *)e, g); } \
    bool GOMP_loop_ull_##name##_next(unsigned long long *s, unsigned long long *e) { return next((long *)s, (long *)e); }
ULOOP(guided, 1)
ULOOP(dynamic, 0)
ULOOP(static, 2)
ULOOP(nonmonotonic_guided, 1)
ULOOP(nonmonotonic_dynamic, 0)
/* sections: numbered from 1, handed out like the iterations of a loop */
unsigned GOMP_sections_next(void) { long s, e; return next(&s, &e) ? (unsigned)s : 0; }
unsigned GOMP_sections_start(unsigned n) { long s, e; return start(1, (long)n + 1, 1, 1, &s, &e, 0) ? (unsigned)s : 0; }
void GOMP_sections_end(void) { GOMP_loop_end(); }
void GOMP_sections_end_nowait(void) { finish(); }
void GOMP_parallel_sections(void (*fn)(void *), void *d, unsigned nt, unsigned n, unsigned f) {
    struct loop l = {1, (long)n + 1, 1, 1, 0, 1, 0};
    (void)f;
    region(fn, d, nt, &l);
}
bool GOMP_single_start(void) {
    bool r; long k;
    if (!self) return true;
    k = ++self->singles;
    pthread_mutex_lock(&self->t->m);
    r = self->t->single < k;
    if (r) self->t->single = k;
    pthread_mutex_unlock(&self->t->m);
    return r;
}
void GOMP_critical_start(void) { jitter(); pthread_mutex_lock(&crit); }
void GOMP_critical_end(void) { pthread_mutex_unlock(&crit); }
void GOMP_critical_name_start(void **p) { (void)p; jitter(); pthread_mutex_lock(&crit); }
void GOMP_critical_name_end(void **p) { (void)p; pthread_mutex_unlock(&crit); }
void GOMP_atomic_start(void) { pthread_mutex_lock(&atom); }
void GOMP_atomic_end(void) { pthread_mutex_unlock(&atom); }
