// A stand-in for libgomp: the parallel regions of the code under test run on plain threads that the thread
// sanitizer understands, or one after another in a chosen order (schedules are then part of the generated case).
#include <cstdint>
#include <pthread.h>
#include <vector>
#include <algorithm>
namespace gompshim
{
  int threads = 4;          // team size
  uint64_t order_seed = 0;  // 0: concurrent; otherwise: sequential, order drawn from this seed per region
  uint64_t regions = 0;
  static thread_local int tid = 0, team = 1, depth = 0;
  static pthread_barrier_t bar;
  static pthread_mutex_t crit = PTHREAD_MUTEX_INITIALIZER;
  static void reset(); static void clear();
  struct Arg { void (*fn)(void *); void *data; int id, n; };
  static void *run(void *a_) { Arg *a = (Arg *)a_; tid = a->id; team = a->n; depth = 1; reset(); a->fn(a->data); depth = 0; tid = 0; team = 1; return nullptr; }
  static uint64_t mix(uint64_t z) { z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL; z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL; return z ^ (z >> 31); }
}
namespace gompshim
{
  // one thread runs at a time; the next one is chosen where a thread ends or waits at a barrier
  struct Baton
  {
    pthread_mutex_t m = PTHREAD_MUTEX_INITIALIZER; pthread_cond_t c = PTHREAD_COND_INITIALIZER;
    std::vector<int> order, st; int turn = 0; uint64_t s = 1; bool on = false; // st: 0 ready, 1 at a barrier, 2 done
    void wait(int id) { pthread_mutex_lock(&m); while (turn != id) pthread_cond_wait(&c, &m); pthread_mutex_unlock(&m); }
    int pick() { for (int i : order) if (st[i] == 0) return i; return -1; }
    void leave(int id, int state, bool come_back)
    {
      pthread_mutex_lock(&m); st[id] = state; int nx = pick();
      if (nx < 0)
      {
        for (int &x : st) if (x == 1) x = 0;
        for (int i = (int)order.size() - 1; i > 0; --i) { s = mix(s + 0x9E3779B97F4A7C15ULL); std::swap(order[i], order[s % (i + 1)]); }
        nx = pick();
      }
      turn = nx; pthread_cond_broadcast(&c);
      if (come_back) while (turn != id) pthread_cond_wait(&c, &m);
      pthread_mutex_unlock(&m);
    }
  };
  static Baton B;
  static void *turn_run(void *a_) { Arg *a = (Arg *)a_; B.wait(a->id); run(a); B.leave(a->id, 2, false); return nullptr; }
}
using namespace gompshim;
extern "C"
{
  void GOMP_parallel(void (*fn)(void *), void *data, unsigned num, unsigned)
  {
    int n = num ? (int)num : threads; if (n > 16) n = 16;
    if (depth) { int t = tid, m = team; tid = 0; team = 1; fn(data); tid = t; team = m; return; } // nested: serial
    ++regions; clear();
    std::vector<Arg> a(n); for (int i = 0; i < n; ++i) a[i] = {fn, data, i, n};
    if (order_seed)
    {
      std::vector<int> o(n); for (int i = 0; i < n; ++i) o[i] = i;
      uint64_t s = mix(order_seed + regions * 0x9E3779B97F4A7C15ULL);
      for (int i = n - 1; i > 0; --i) { s = mix(s + 0x9E3779B97F4A7C15ULL); std::swap(o[i], o[s % (i + 1)]); }
      B.order = o; B.st.assign(n, 0); B.turn = o[0]; B.s = s; B.on = true;
      std::vector<pthread_t> t(n);
      for (int i = 1; i < n; ++i) pthread_create(&t[i], nullptr, turn_run, &a[i]);
      turn_run(&a[0]);
      for (int i = 1; i < n; ++i) pthread_join(t[i], nullptr);
      B.on = false;
      return;
    }
    std::vector<pthread_t> t(n); pthread_barrier_init(&bar, nullptr, (unsigned)n);
    for (int i = 1; i < n; ++i) pthread_create(&t[i], nullptr, run, &a[i]);
    run(&a[0]);
    for (int i = 1; i < n; ++i) pthread_join(t[i], nullptr);
  }
  void GOMP_critical_start() { pthread_mutex_lock(&crit); }
  void GOMP_critical_end() { pthread_mutex_unlock(&crit); }
  void GOMP_critical_name_start(void **) { pthread_mutex_lock(&crit); }
  void GOMP_critical_name_end(void **) { pthread_mutex_unlock(&crit); }
  void GOMP_atomic_start() { pthread_mutex_lock(&crit); }
  void GOMP_atomic_end() { pthread_mutex_unlock(&crit); }
  int omp_get_thread_num() { return tid; }
  int omp_get_num_threads() { return team; }
  int omp_get_max_threads() { return threads; }
  int omp_get_num_procs() { return threads; }
  int omp_in_parallel() { return depth; }
  void omp_set_num_threads(int) {}
  void omp_set_dynamic(int) {}

  // worksharing loops with dynamic/guided/runtime schedules and singles: one shared counter per construct instance
  static pthread_mutex_t wm = PTHREAD_MUTEX_INITIALIZER;
  struct Work { long next, end, incr, chunk; int left; bool single; };
  static std::vector<Work> works; static thread_local size_t my = 0; static thread_local size_t cur = 0;
  static void lock() { pthread_mutex_lock(&wm); }
  static void unlock() { pthread_mutex_unlock(&wm); }
  static bool take(size_t w, long *a, long *b)
  {
    lock(); Work &k = works[w]; bool ok = k.incr > 0 ? k.next < k.end : k.next > k.end;
    if (ok) { *a = k.next; long n = k.next + k.incr * k.chunk; if (k.incr > 0 ? n > k.end : n < k.end) n = k.end; *b = n; k.next = n; }
    unlock(); return ok;
  }
  static void enter(long s, long e, long i, long c, bool single)
  {
    lock(); cur = my++; while (works.size() <= cur) works.push_back({s, e, i, c > 0 ? c : 1, 0, single}); unlock();
  }
#define LOOPS(N) \
  bool GOMP_loop_##N##_start(long s, long e, long i, long c, long *a, long *b) { if (team <= 1) { *a = s; *b = e; return i > 0 ? s < e : s > e; } enter(s, e, i, c, false); return take(cur, a, b); } \
  bool GOMP_loop_##N##_next(long *a, long *b) { return team > 1 && take(cur, a, b); } \
  void GOMP_parallel_loop_##N(void (*fn)(void *), void *d, unsigned num, long s, long e, long i, long c, unsigned fl) \
  { \
    works.clear(); works.push_back({s, e, i, c > 0 ? c : 1, 0, false}); pre = true; GOMP_parallel(fn, d, num, fl); pre = false; \
  }
  static bool pre = false;
  LOOPS(dynamic) LOOPS(guided) LOOPS(nonmonotonic_dynamic) LOOPS(nonmonotonic_guided)
#define RLOOPS(N) \
  bool GOMP_loop_##N##_start(long s, long e, long i, long *a, long *b) { return GOMP_loop_dynamic_start(s, e, i, 1, a, b); } \
  bool GOMP_loop_##N##_next(long *a, long *b) { return GOMP_loop_dynamic_next(a, b); } \
  void GOMP_parallel_loop_##N(void (*fn)(void *), void *d, unsigned num, long s, long e, long i, unsigned fl) { GOMP_parallel_loop_dynamic(fn, d, num, s, e, i, 1, fl); }
  RLOOPS(runtime) RLOOPS(maybe_nonmonotonic_runtime) RLOOPS(nonmonotonic_runtime)
  bool GOMP_single_start() { if (team <= 1) return true; enter(0, 1, 1, 1, true); long a, b; return take(cur, &a, &b); }
  void GOMP_barrier();
  void GOMP_loop_end() { GOMP_barrier(); }
  void GOMP_loop_end_nowait() {}
  double omp_get_wtime() { return 0; }

  void GOMP_barrier()
  {
    if (team <= 1) return;
    if (B.on) B.leave(tid, 1, true); else pthread_barrier_wait(&gompshim::bar);
  }
}
namespace gompshim { static void reset() { my = 0; cur = 0; } static void clear() { if (!pre) works.clear(); } }
