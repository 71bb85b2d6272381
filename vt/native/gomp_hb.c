/* Teaches ThreadSanitizer the happens-before edges of the (uninstrumented)
 * GNU OpenMP runtime: fork and join of a parallel region, barriers, and the
 * critical/atomic locks.  The real runtime still does all the work; this
 * library only brackets its entry points with acquire/release annotations, so
 * what is left unordered is unordered in the program itself.  Preloaded in
 * front of libgomp. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <stdlib.h>
#include <stdbool.h>
#include <time.h>

extern void __tsan_acquire(void *) __attribute__((weak));
extern void __tsan_release(void *) __attribute__((weak));
static inline void acq(void *p) { if (__tsan_acquire) __tsan_acquire(p); }
static inline void rel(void *p) { if (__tsan_release) __tsan_release(p); }

static char tok_fork, tok_join, tok_barrier, tok_lock, tok_atomic;
static unsigned long n_regions;

unsigned long gomp_hb_regions(void) { return n_regions; }

struct job { void (*fn)(void *); void *data; };

static void run_job(void *p) {
    struct job *j = (struct job *) p;
    acq(&tok_fork);
    j->fn(j->data);
    rel(&tok_join);
}

#define REAL(name, type) \
    static __typeof__(type) real; if (!real) real = (type) dlsym(RTLD_NEXT, name)

void GOMP_parallel(void (*fn)(void *), void *data, unsigned nt, unsigned fl) {
    REAL("GOMP_parallel", void (*)(void (*)(void *), void *, unsigned, unsigned));
    struct job j = {fn, data};
    __atomic_add_fetch(&n_regions, 1, __ATOMIC_RELAXED);
    rel(&tok_fork);
    real(run_job, &j, nt, fl);
    acq(&tok_join);
}

#define PARLOOP(NAME) \
void NAME(void (*fn)(void *), void *data, unsigned nt, long a, long b, long c, long d, unsigned fl) { \
    REAL(#NAME, void (*)(void (*)(void *), void *, unsigned, long, long, long, long, unsigned)); \
    struct job j = {fn, data}; \
    __atomic_add_fetch(&n_regions, 1, __ATOMIC_RELAXED); \
    rel(&tok_fork); real(run_job, &j, nt, a, b, c, d, fl); acq(&tok_join); }
PARLOOP(GOMP_parallel_loop_static)
PARLOOP(GOMP_parallel_loop_dynamic)
PARLOOP(GOMP_parallel_loop_guided)
PARLOOP(GOMP_parallel_loop_nonmonotonic_dynamic)
PARLOOP(GOMP_parallel_loop_nonmonotonic_guided)

#define PARLOOPR(NAME) \
void NAME(void (*fn)(void *), void *data, unsigned nt, long a, long b, long c, unsigned fl) { \
    REAL(#NAME, void (*)(void (*)(void *), void *, unsigned, long, long, long, unsigned)); \
    struct job j = {fn, data}; \
    __atomic_add_fetch(&n_regions, 1, __ATOMIC_RELAXED); \
    rel(&tok_fork); real(run_job, &j, nt, a, b, c, fl); acq(&tok_join); }
PARLOOPR(GOMP_parallel_loop_runtime)
PARLOOPR(GOMP_parallel_loop_nonmonotonic_runtime)
PARLOOPR(GOMP_parallel_loop_maybe_nonmonotonic_runtime)

void GOMP_parallel_sections(void (*fn)(void *), void *data, unsigned nt, unsigned cnt, unsigned fl) {
    REAL("GOMP_parallel_sections", void (*)(void (*)(void *), void *, unsigned, unsigned, unsigned));
    struct job j = {fn, data};
    rel(&tok_fork); real(run_job, &j, nt, cnt, fl); acq(&tok_join);
}

#define BARRIER(NAME) \
void NAME(void) { REAL(#NAME, void (*)(void)); rel(&tok_barrier); real(); acq(&tok_barrier); }
BARRIER(GOMP_barrier)
BARRIER(GOMP_loop_end)
BARRIER(GOMP_sections_end)
BARRIER(GOMP_taskwait)

#define LOCK(NAME, TOK) \
void NAME##_start(void) { REAL(#NAME "_start", void (*)(void)); real(); acq(&TOK); } \
void NAME##_end(void) { REAL(#NAME "_end", void (*)(void)); rel(&TOK); real(); }
LOCK(GOMP_critical, tok_lock)
LOCK(GOMP_atomic, tok_atomic)

void GOMP_critical_name_start(void **p) {
    REAL("GOMP_critical_name_start", void (*)(void **)); real(p); acq(p); }
void GOMP_critical_name_end(void **p) {
    REAL("GOMP_critical_name_end", void (*)(void **)); rel(p); real(p); }

void omp_set_lock(void *p) { REAL("omp_set_lock", void (*)(void *)); real(p); acq(p); }
void omp_unset_lock(void *p) { REAL("omp_unset_lock", void (*)(void *)); rel(p); real(p); }
