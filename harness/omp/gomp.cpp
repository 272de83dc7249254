// A stand-in for libgomp built on plain threads, so that ThreadSanitizer sees every synchronisation.
#include <pthread.h>
#include <vector>
int qk_omp_threads = 4;
struct Team { int n; pthread_barrier_t bar; pthread_mutex_t mx; long next, end, inc, chunk; bool loop; int left; };
static thread_local int t_id = 0; static thread_local Team* t_team = 0;
static pthread_mutex_t crit = PTHREAD_MUTEX_INITIALIZER;
struct A { void (*fn)(void*); void* d; int id; Team* t; };
static void* run(void* p) { A* a = (A*)p; int oi = t_id; Team* ot = t_team; t_id = a->id; t_team = a->t; a->fn(a->d); t_id = oi; t_team = ot; return 0; }
static void team(void (*fn)(void*), void* d, unsigned n, bool loop, long s, long e, long i, long c) {
    n = qk_omp_threads; if (t_team) n = 1;
    Team t; t.n = n; t.loop = loop; t.next = s; t.end = e; t.inc = i; t.chunk = c ? c : 1; t.left = 0; pthread_barrier_init(&t.bar, 0, n); pthread_mutex_init(&t.mx, 0);
    std::vector<A> a(n); std::vector<pthread_t> th(n);
    for (unsigned k = 0; k < n; k++) a[k] = A{fn, d, int(k), &t};
    for (unsigned k = 1; k < n; k++) pthread_create(&th[k], 0, run, &a[k]);
    run(&a[0]);
    for (unsigned k = 1; k < n; k++) pthread_join(th[k], 0);
    pthread_barrier_destroy(&t.bar); pthread_mutex_destroy(&t.mx);
}
static bool take(long* s, long* e) {
    Team* t = t_team; pthread_mutex_lock(&t->mx); bool up = t->inc > 0, ok = up ? t->next < t->end : t->next > t->end;
    if (ok) { *s = t->next; long x = t->next + t->inc * t->chunk; if (up ? x > t->end : x < t->end) x = t->end; *e = x; t->next = x; }
    pthread_mutex_unlock(&t->mx); return ok;
}
extern "C" {
int omp_get_num_threads() { return t_team ? t_team->n : 1; }
int omp_get_thread_num() { return t_id; }
int omp_get_max_threads() { return qk_omp_threads; }
int omp_get_num_procs() { return qk_omp_threads; }
int omp_in_parallel() { return t_team && t_team->n > 1; }
void omp_set_num_threads(int) {}
double omp_get_wtime() { return 0; }
void GOMP_parallel(void (*fn)(void*), void* d, unsigned n, unsigned) { team(fn, d, n, false, 0, 0, 1, 1); }
#define LOOP(K) void GOMP_parallel_loop_##K(void (*fn)(void*), void* d, unsigned n, long s, long e, long i, long c, unsigned) { team(fn, d, n, true, s, e, i, c); } \
 bool GOMP_loop_##K##_next(long* s, long* e) { return take(s, e); }
LOOP(dynamic) LOOP(guided) LOOP(nonmonotonic_dynamic) LOOP(nonmonotonic_guided)
void GOMP_parallel_loop_static(void (*fn)(void*), void* d, unsigned n, long s, long e, long i, long c, unsigned) { team(fn, d, n, true, s, e, i, c); }
bool GOMP_loop_static_next(long* s, long* e) { return take(s, e); }
void GOMP_parallel_loop_runtime(void (*fn)(void*), void* d, unsigned n, long s, long e, long i, unsigned) { team(fn, d, n, true, s, e, i, 1); }
void GOMP_parallel_loop_maybe_nonmonotonic_runtime(void (*fn)(void*), void* d, unsigned n, long s, long e, long i, unsigned) { team(fn, d, n, true, s, e, i, 1); }
bool GOMP_loop_runtime_next(long* s, long* e) { return take(s, e); }
bool GOMP_loop_maybe_nonmonotonic_runtime_next(long* s, long* e) { return take(s, e); }
void GOMP_loop_end_nowait() {}
void GOMP_loop_end() { if (t_team) pthread_barrier_wait(&t_team->bar); }
void GOMP_barrier() { if (t_team) pthread_barrier_wait(&t_team->bar); }
bool GOMP_single_start() { return t_id == 0; }
void GOMP_critical_start() { pthread_mutex_lock(&crit); }
void GOMP_critical_end() { pthread_mutex_unlock(&crit); }
void GOMP_critical_name_start(void**) { pthread_mutex_lock(&crit); }
void GOMP_critical_name_end(void**) { pthread_mutex_unlock(&crit); }
void GOMP_atomic_start() { pthread_mutex_lock(&crit); }
void GOMP_atomic_end() { pthread_mutex_unlock(&crit); }
}
