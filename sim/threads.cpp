// Thread simulator (C01). The library is compiled with -fsanitize=thread but linked against the callbacks below instead
// of the TSan runtime: every memory access, atomic operation, lock and guarded static initialisation of the library is
// a point where this scheduler may switch threads. Exactly one thread runs at a time; the plan says where it switches.
//
//   space / filter / state / ctl ...     as in hist.cpp; spaces are shared by all threads
//   t T ID OP A B X                      thread T queries shared space ID
//   tc T ID OP A C X                     ... with controls C of the pool
//   o T ID OP A B X                      thread T builds its own state space configured like ID, queries and destroys it
//   sw T N U                             before its N-th access to memory that may be shared, thread T is suspended, U runs
#include <dlfcn.h>
#include <errno.h>
#include <pthread.h>
#include <semaphore.h>
#include <sys/mman.h>
#include <time.h>
#include <algorithm>
#include <set>
#include "query.hpp"

extern "C" char __data_start, _end;
namespace sim
{
extern char *(*g_arena)(size_t);
namespace
{
const int MAXT = 6;
const uintptr_t ARENA0 = 0x600000000000ull, ARENA_SIZE = 0x40000000ull;  // 1 GiB of address space each
char *arena_pos[MAXT + 2];
thread_local int t_id = -1;  // >= 0: managed thread
struct Thread
{
  pthread_t th;
  sem_t go;
  char *stack = nullptr;
  bool done = false;
  uint64_t acc = 0;  // accesses to memory that may be shared
};
const size_t STACK = 8 << 20;
Thread T[MAXT];
int nthreads, running = -1;
sem_t main_go;
bool active = false;         // scheduler on
bool deadlock = false, livelock = false;
uint64_t steps, idle_switches, atomics_in_row, switches, preempted;
struct Sw { uint64_t n; int u; };
std::vector<Sw> sw[MAXT];
size_t sw_pos[MAXT];
Hash inter;                  // the interleaving
// dry run recording
bool recording = false;
struct Rec { uintptr_t a; uint32_t n; uint8_t t, w; };
Rec *recs;
size_t nrecs;
const size_t MAXREC = 1 << 20;

char *arena(size_t n)
{
  int i = t_id + 1;
  n = (n + 63) / 64 * 64;
  char *lo = (char *)(ARENA0 + (uintptr_t)i * ARENA_SIZE);
  if (!arena_pos[i])
  {
    void *m = mmap(lo, ARENA_SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (m != lo) return nullptr;
    arena_pos[i] = lo;
  }
  if (arena_pos[i] + n > lo + ARENA_SIZE) return nullptr;
  char *p = arena_pos[i];
  arena_pos[i] += n;
  return p;
}
int next_runnable(int me)
{
  for (int k = 1; k <= nthreads; k++)
  {
    int j = (me + k) % nthreads;
    if (!T[j].done) return j;
  }
  return -1;
}
void pass_to(int u)
{
  int me = t_id;
  if (u == me) return;
  ++switches;
  atomics_in_row = 0;
  inter.raw((uint64_t)(me + 1) * 131 + (uint64_t)u);
  inter.raw(T[me].acc);
  running = u;
  sem_post(&T[u].go);
  while (sem_wait(&T[me].go) != 0) {}
}
void give_up()
{
  // the run cannot end: report, leave the threads where they are
  active = false;
  sem_post(&main_go);
  for (;;) pause();
}
// the thread cannot go on now
void force_switch()
{
  if (t_id < 0 || !active) return;
  if (++idle_switches > 20000) { deadlock = true; give_up(); }
  int u = next_runnable(t_id);
  if (u < 0 || u == t_id) return;
  pass_to(u);
}
inline bool maybe_shared(uintptr_t a)
{
  if (a >= (uintptr_t)&__data_start && a < (uintptr_t)&_end) return true;
  if (a >= ARENA0 && a < ARENA0 + ARENA_SIZE * (MAXT + 2)) return (int)((a - ARENA0) / ARENA_SIZE) != t_id + 1;
  // stack of another thread
  for (int i = 0; i < nthreads; i++)
    if (i != t_id && a >= (uintptr_t)T[i].stack && a < (uintptr_t)T[i].stack + STACK) return true;
  return false;
}
void point(uintptr_t a, bool write, bool always)
{
  int me = t_id;
  if (me < 0 || !active) return;
  if (++steps > 200000000ull) { livelock = true; give_up(); }
  if (!always)
  {
    if (a >= (uintptr_t)T[me].stack && a < (uintptr_t)T[me].stack + STACK) return;
    if (!maybe_shared(a)) return;
  }
  uint64_t n = ++T[me].acc;
  if (recording)
  {
    if (nrecs < MAXREC)
    {
      Rec &r = recs[nrecs++];
      r.a = a >> 3; r.n = (uint32_t)n; r.t = (uint8_t)me; r.w = write;
    }
    return;
  }
  std::vector<Sw> &v = sw[me];
  size_t &p = sw_pos[me];
  while (p < v.size() && v[p].n < n) ++p;
  if (p < v.size() && v[p].n == n)
  {
    int u = v[p].u % nthreads;
    ++p;
    if (T[u].done) u = next_runnable(me);
    if (u >= 0 && u != me) { ++preempted; pass_to(u); }
  }
}
void atomic_point(const volatile void *a, bool write)
{
  if (t_id < 0 || !active) return;
  point((uintptr_t)a, write, maybe_shared((uintptr_t)a));
  if (++atomics_in_row > 3000) { atomics_in_row = 0; force_switch(); }
}
// ---------------------------------------------------------------- locks
struct Lock { void *a; int owner, depth, readers; };
Lock locks[256];
int nlocks;
Lock &lock_of(void *a)
{
  for (int i = 0; i < nlocks; i++)
    if (locks[i].a == a) return locks[i];
  if (nlocks == 256) { locks[255].a = a; return locks[255]; }
  locks[nlocks] = Lock{ a, -2, 0, 0 };
  return locks[nlocks++];
}
inline int me() { return t_id; }
int lock_excl(void *a, bool rec, bool try_only)
{
  point((uintptr_t)a, true, true);
  Lock &l = lock_of(a);
  for (;;)
  {
    if (l.owner == me() && rec && l.depth) { ++l.depth; return 0; }
    if (l.depth == 0 && l.readers == 0) { l.owner = me(); l.depth = 1; idle_switches = 0; return 0; }
    if (try_only) { idle_switches++; if (idle_switches > 20000) force_switch(); return EBUSY; }
    force_switch();
    if (me() < 0) return 0;
    if (next_runnable(me()) == me()) { deadlock = true; give_up(); }
  }
}
int lock_shared(void *a, bool try_only)
{
  point((uintptr_t)a, true, true);
  Lock &l = lock_of(a);
  for (;;)
  {
    if (l.depth == 0) { ++l.readers; idle_switches = 0; return 0; }
    if (try_only) return EBUSY;
    force_switch();
    if (me() < 0) return 0;
    if (next_runnable(me()) == me()) { deadlock = true; give_up(); }
  }
}
int unlock(void *a)
{
  Lock &l = lock_of(a);
  if (l.depth) { if (--l.depth == 0) l.owner = -2; }
  else if (l.readers) --l.readers;
  idle_switches = 0;
  point((uintptr_t)a, true, true);
  return 0;
}
}  // namespace
}  // namespace sim

// ---------------------------------------------------------------- seams
using namespace sim;
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
#define RW(N)                                                                  \
  void __tsan_read##N(void *a) { point((uintptr_t)a, false, false); }          \
  void __tsan_write##N(void *a) { point((uintptr_t)a, true, false); }          \
  void __tsan_unaligned_read##N(void *a) { point((uintptr_t)a, false, false); } \
  void __tsan_unaligned_write##N(void *a) { point((uintptr_t)a, true, false); } \
  void __tsan_volatile_read##N(void *a) { point((uintptr_t)a, false, false); }  \
  void __tsan_volatile_write##N(void *a) { point((uintptr_t)a, true, false); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *a, size_t) { point((uintptr_t)a, false, false); }
void __tsan_write_range(void *a, size_t) { point((uintptr_t)a, true, false); }
void __tsan_vptr_update(void **a, void *) { point((uintptr_t)a, true, false); }
void __tsan_vptr_read(void **a) { point((uintptr_t)a, false, false); }
#define AT(N, T)                                                                                                       \
  T __tsan_atomic##N##_load(const volatile T *a, int) { atomic_point(a, false); return __atomic_load_n(a, 5); }        \
  void __tsan_atomic##N##_store(volatile T *a, T v, int) { atomic_point(a, true); __atomic_store_n(a, v, 5); }         \
  T __tsan_atomic##N##_exchange(volatile T *a, T v, int) { atomic_point(a, true); return __atomic_exchange_n(a, v, 5); } \
  T __tsan_atomic##N##_fetch_add(volatile T *a, T v, int) { atomic_point(a, true); return __atomic_fetch_add(a, v, 5); } \
  T __tsan_atomic##N##_fetch_sub(volatile T *a, T v, int) { atomic_point(a, true); return __atomic_fetch_sub(a, v, 5); } \
  T __tsan_atomic##N##_fetch_and(volatile T *a, T v, int) { atomic_point(a, true); return __atomic_fetch_and(a, v, 5); } \
  T __tsan_atomic##N##_fetch_or(volatile T *a, T v, int) { atomic_point(a, true); return __atomic_fetch_or(a, v, 5); }   \
  T __tsan_atomic##N##_fetch_xor(volatile T *a, T v, int) { atomic_point(a, true); return __atomic_fetch_xor(a, v, 5); } \
  T __tsan_atomic##N##_fetch_nand(volatile T *a, T v, int) { atomic_point(a, true); return __atomic_fetch_nand(a, v, 5); } \
  int __tsan_atomic##N##_compare_exchange_strong(volatile T *a, T *c, T v, int, int)                                   \
  { atomic_point(a, true); return __atomic_compare_exchange_n(a, c, v, false, 5, 5); }                                 \
  int __tsan_atomic##N##_compare_exchange_weak(volatile T *a, T *c, T v, int, int)                                     \
  { atomic_point(a, true); return __atomic_compare_exchange_n(a, c, v, true, 5, 5); }                                  \
  T __tsan_atomic##N##_compare_exchange_val(volatile T *a, T c, T v, int, int)                                         \
  { atomic_point(a, true); __atomic_compare_exchange_n(a, &c, v, false, 5, 5); return c; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}

// locks of the library (the harness itself uses none)
static inline bool rec(pthread_mutex_t *m) { return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP; }
int pthread_mutex_lock(pthread_mutex_t *m) { return lock_excl(m, rec(m), false); }
int pthread_mutex_trylock(pthread_mutex_t *m) { return lock_excl(m, rec(m), true); }
int pthread_mutex_timedlock(pthread_mutex_t *m, const struct timespec *) { return lock_excl(m, rec(m), false); }
int pthread_mutex_unlock(pthread_mutex_t *m) { return sim::unlock(m); }
int pthread_rwlock_wrlock(pthread_rwlock_t *m) { return lock_excl(m, false, false); }
int pthread_rwlock_trywrlock(pthread_rwlock_t *m) { return lock_excl(m, false, true); }
int pthread_rwlock_rdlock(pthread_rwlock_t *m) { return lock_shared(m, false); }
int pthread_rwlock_tryrdlock(pthread_rwlock_t *m) { return lock_shared(m, true); }
int pthread_rwlock_unlock(pthread_rwlock_t *m) { return sim::unlock(m); }
int pthread_spin_lock(pthread_spinlock_t *m) { return lock_excl((void *)m, false, false); }
int pthread_spin_unlock(pthread_spinlock_t *m) { return sim::unlock((void *)m); }
int pthread_cond_wait(pthread_cond_t *, pthread_mutex_t *m) { sim::unlock(m); force_switch(); return lock_excl(m, false, false); }
int pthread_cond_signal(pthread_cond_t *) { return 0; }
int pthread_cond_broadcast(pthread_cond_t *) { return 0; }
int sched_yield() { force_switch(); return 0; }
int nanosleep(const struct timespec *, struct timespec *) { force_switch(); return 0; }
int clock_nanosleep(clockid_t, int, const struct timespec *, struct timespec *) { force_switch(); return 0; }
int pthread_once(pthread_once_t *o, void (*f)(void))
{
  point((uintptr_t)o, true, true);
  for (;;)
  {
    if (*o == 2) return 0;
    if (*o == 0) { *o = 1; f(); *o = 2; return 0; }
    force_switch();
  }
}
int __cxa_guard_acquire(long long int *g)
{
  point((uintptr_t)g, true, true);
  char *c = (char *)g;
  for (;;)
  {
    if (c[0]) return 0;
    if (!c[1]) { c[1] = 1; return 1; }
    if (t_id < 0) return 0;
    force_switch();
  }
}
void __cxa_guard_release(long long int *g)
{
  char *c = (char *)g;
  c[0] = 1;
  c[1] = 0;
  idle_switches = 0;
  point((uintptr_t)g, true, true);
}
void __cxa_guard_abort(long long int *g) { ((char *)g)[1] = 0; }
}

namespace sim
{
namespace
{
struct Item
{
  Words w;
  std::string line;
  Cfg cfg;
  Query q;
  bool own = false;
  Ref ref;
  // result
  bool ran = false, failed = false;
  uint64_t hash = 0;
  std::string what;
  Item() : w("") {}
};
struct World
{
  std::map<int, Cfg> cfg;
  std::map<int, State> st;
  std::map<int, Controls> ctl;
  std::map<int, std::unique_ptr<Space>> sp;
  std::vector<Item *> prog[MAXT];
};
World *W;

bool build(const Plan &plan, World &w)
{
  nthreads = 0;
  for (auto &l : plan)
  {
    Words v(l);
    const std::string op = v.s(0);
    if (op == "space") w.cfg[(int)v.n(1)] = cfg_of(v);
    else if (op == "filter")
    {
      if (w.cfg.count((int)v.n(1))) { w.cfg[(int)v.n(1)].noise = noise_of(v, 2); w.cfg[(int)v.n(1)].has_filter = true; }
    }
    else if (op == "state") w.st[(int)v.n(1)] = State{ v.d(2), v.d(3), v.d(4), v.d(5), v.d(6) };
    else if (op == "ctl")
    {
      Controls c;
      for (size_t i = 2; i + 2 < v.w.size(); i += 3)
      {
        Control u;
        u.delta_s = v.d(i); u.kappa = v.d(i + 1); u.sigma = v.d(i + 2);
        c.push_back(u);
      }
      w.ctl[(int)v.n(1)] = c;
    }
    else if (op == "t" || op == "tc" || op == "o")
    {
      int t = (int)v.n(1), id = (int)v.n(2);
      if (t < 0 || t >= MAXT || !w.cfg.count(id) || !w.st.count((int)v.n(4))) continue;
      Item *i = new Item;
      i->w = v;
      i->line = l;
      i->cfg = w.cfg[id];
      i->own = op == "o";
      i->q.op = v.s(3);
      i->q.a = w.st[(int)v.n(4)];
      i->q.t = v.d(6);
      if (op == "tc")
      {
        if (!w.ctl.count((int)v.n(5))) continue;
        i->q.pool = true;
        i->q.c = w.ctl[(int)v.n(5)];
      }
      else
      {
        if (!w.st.count((int)v.n(5))) continue;
        i->q.b = w.st[(int)v.n(5)];
      }
      if ((i->q.op == "pathcov" || i->q.op == "integcov") && !i->cfg.has_filter) continue;
      w.prog[t].push_back(i);
      nthreads = std::max(nthreads, t + 1);
    }
  }
  return nthreads > 0;
}
void *body(void *p)
{
  int id = (int)(intptr_t)p;
  while (sem_wait(&T[id].go) != 0) {}
  t_id = id;
  for (Item *i : W->prog[id])
  {
    try
    {
      Result r;
      if (i->own)
      {
        std::unique_ptr<Space> s = make_space(i->cfg.kind, i->cfg.par);
        if (i->cfg.has_filter) s->set_filter(i->cfg.noise);
        run_query(*s, i->q, r);
      }
      else run_query(*W->sp[(int)i->w.n(2)], i->q, r);
      i->hash = hash_of(r);
      if (i->hash != i->ref.hash && !recording) i->what = brief(r);
    }
    catch (std::exception &e) { i->failed = true; i->what = e.what(); }
    catch (...) { i->failed = true; i->what = "unknown exception"; }
    i->ran = true;
    idle_switches = 0;
  }
  T[id].done = true;
  int u = next_runnable(id);
  t_id = -1;
  if (u < 0) sem_post(&main_go);
  else
  {
    inter.raw((uint64_t)u + 7);
    running = u;
    sem_post(&T[u].go);
  }
  return nullptr;
}
// runs the programs under the switch list; false: did not end
bool simulate(World &w)
{
  W = &w;
  g_arena = arena;
  for (auto &c : w.cfg)
  {
    w.sp[c.first] = make_space(c.second.kind, c.second.par);
    if (c.second.has_filter) w.sp[c.first]->set_filter(c.second.noise);
  }
  sem_init(&main_go, 0, 0);
  for (int i = 0; i < nthreads; i++)
  {
    T[i].stack = (char *)mmap(nullptr, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    sem_init(&T[i].go, 0, 0);
    pthread_attr_t at;
    pthread_attr_init(&at);
    pthread_attr_setstack(&at, T[i].stack, STACK);
    pthread_create(&T[i].th, &at, body, (void *)(intptr_t)i);
  }
  active = true;
  running = 0;
  sem_post(&T[0].go);
  while (sem_wait(&main_go) != 0) {}
  active = false;
  if (deadlock || livelock) return false;
  for (int i = 0; i < nthreads; i++) pthread_join(T[i].th, nullptr);
  return true;
}
}  // namespace

static Plan base_plan(Rng &r, uint64_t idx, int &nt)
{
  Plan p;
  double ka = 1, dm = 0.5;
  do
  {
    ka = r.p(0.4) ? 1.0 : r.p(0.6) ? r.logu(0.3, 2.0) : r.logu(0.1, 5);
    dm = r.p(0.4) ? 0.5 : r.p(0.6) ? r.logu(0.1, 1.5) : r.logu(0.03, 10);
  } while (ka * ka / (2 * dm) < 0.06 || ka * ka / (2 * dm) > 15);
  double R = (r.p(0.5) ? r.u(0.3, 3) : 10) / ka;
  nt = 2 + (r.p(0.3) ? 1 + r.below(2) : 0);
  int ns = 1 + r.below(2), nst = 3 + r.below(4);
  std::vector<int> kinds;
  std::vector<bool> filt;
  for (int i = 0; i < ns; i++)
  {
    int k = i == 0 ? (int)(idx % NK) : r.p(0.5) ? kinds[0] : r.below(NK);
    kinds.push_back(k);
    double k2 = r.p(0.6) ? ka : ka * r.u(0.5, 1.5);
    p.push_back(fmt("space %d %s %.17g %.17g %.17g 0", i, kname[k], k2, k2 * k2 / (2 * dm), r.p(0.5) ? 0.1 : r.logu(0.05, 1)));
    filt.push_back(r.p(0.6));
    if (filt[i])
      p.push_back(fmt("filter %d %.17g %.17g %.17g %.17g %.17g %.17g %.17g %.17g %.17g %.17g", i, r.u(0, 0.3), r.u(0, 0.3), r.u(0, 0.3),
                      r.u(0, 0.3), r.u(0.01, 0.5), r.u(0.01, 0.5), r.u(0.01, 0.3), r.u(0, 2), r.u(0, 2), r.u(0, 2)));
  }
  auto kappa = [&]() { int q = r.below(4); return q == 0 ? 0.0 : q == 1 ? ka : q == 2 ? -ka : r.u(-ka, ka); };
  for (int i = 0; i < nst; i++)
  {
    double x = r.u(-R, R), y = r.u(-R, R), th = r.u(-M_PI, M_PI), k = kappa();
    p.push_back(fmt("state %d %.17g %.17g %.17g %.17g 0", i, x, y, th, k));
  }
  {
    std::string l = "ctl 0";
    int n = 1 + r.below(4);
    for (int j = 0; j < n; j++)
    {
      double ds = r.u(-1, 1) * r.logu(1e-2, 4), k = kappa(), s = r.p(0.5) ? 0 : r.u(-1, 1) * ka * ka;
      l += fmt(" %.17g %.17g %.17g", ds, k, s);
    }
    p.push_back(l);
  }
  static const char *ops[7] = { "dist", "ctrl", "path", "pathcov", "integ", "integcov", "interp" };
  for (int t = 0; t < nt; t++)
  {
    int nq = 1 + r.below(3);
    for (int i = 0; i < nq; i++)
    {
      int id = r.below(ns);
      int o = r.below(filt[id] ? 7 : 5);
      if (!filt[id]) { static const int m[5] = { 0, 1, 2, 4, 6 }; o = m[o]; }
      double u = r.u();
      if (o >= 4 && r.p(0.4)) p.push_back(fmt("tc %d %d %s %d 0 %.17g", t, id, ops[o], r.below(nst), r.u()));
      else p.push_back(fmt("%s %d %d %s %d %d %.17g", u < 0.8 ? "t" : "o", t, id, ops[o], r.below(nst), r.below(nst), r.u()));
    }
  }
  return p;
}

Plan gen(const std::string &prop, Rng &r, uint64_t idx)
{
  (void)prop;
  int nt;
  Plan p = base_plan(r, idx, nt);
  // dry run in a process of its own: where do the threads touch memory they share?
  struct Dry { uint32_t total[MAXT]; uint32_t nconf[MAXT]; uint32_t conf[MAXT][4096]; };
  Dry *d = (Dry *)mmap(nullptr, sizeof(Dry), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  pid_t pid = fork();
  if (pid == 0)
  {
    struct itimerval it = {};
    it.it_value.tv_sec = 20;
    setitimer(ITIMER_PROF, &it, nullptr);
    World w;
    if (build(p, w))
    {
      recs = (Rec *)mmap(nullptr, MAXREC * sizeof(Rec), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
      recording = true;
      simulate(w);
      std::map<uintptr_t, std::pair<unsigned, bool>> m;
      for (size_t i = 0; i < nrecs; i++)
      {
        auto &e = m[recs[i].a];
        e.first |= 1u << recs[i].t;
        e.second |= recs[i].w != 0;
      }
      for (int i = 0; i < nthreads; i++) d->total[i] = (uint32_t)T[i].acc;
      for (size_t i = 0; i < nrecs; i++)
      {
        auto &e = m[recs[i].a];
        int t = recs[i].t;
        if (e.second && (e.first & (e.first - 1)) && d->nconf[t] < 4096) d->conf[t][d->nconf[t]++] = recs[i].n;
      }
    }
    _exit(0);
  }
  int st;
  while (waitpid(pid, &st, 0) < 0) {}
  int k = r.p(0.5) ? 1 : 1 + r.below(5);
  std::set<std::pair<int, uint64_t>> seen;
  for (int i = 0; i < k; i++)
  {
    int t = i == 0 && r.p(0.6) ? 0 : r.below(nt), u = r.below(nt - 1);
    if (u >= t) ++u;
    uint64_t n;
    if (d->nconf[t] && r.p(0.85)) n = d->conf[t][r.below((int)d->nconf[t])];
    else n = 1 + (d->total[t] ? r.next() % d->total[t] : 0);
    if (seen.insert(std::make_pair(t, n)).second) p.push_back(fmt("sw %d %llu %d", t, (unsigned long long)n, u));
  }
  munmap(d, sizeof(Dry));
  return p;
}

void exec(const std::string &prop, const Plan &plan, Out &out)
{
  (void)prop;
  World &w = *new World;
  if (!build(plan, w)) return;
  unsigned char dirt = 0x33;
  for (int t = 0; t < nthreads; t++)
    for (Item *i : w.prog[t])
    {
      pristine_check(i->cfg, i->q, dirt += 0x17, i->ref);
      if (!i->ref.ok) { out.viol("reference-failed", "the query fails in a pristine process: " + i->line); return; }
    }
  for (auto &l : plan)
  {
    Words v(l);
    if (v.s(0) != "sw") continue;
    int t = (int)v.n(1);
    if (t >= 0 && t < MAXT) sw[t].push_back(Sw{ (uint64_t)v.n(2), (int)v.n(3) });
  }
  for (int t = 0; t < MAXT; t++) std::sort(sw[t].begin(), sw[t].end(), [](const Sw &a, const Sw &b) { return a.n < b.n; });
  bool ended = simulate(w);
  out.add("fault.preemption", (double)preempted);
  out.add("op.switch", (double)switches);
  out.add("op.access_points", (double)steps);
  uint64_t sh = 0;
  for (int t = 0; t < nthreads; t++) sh += T[t].acc;
  out.add("op.shared_accesses", (double)sh);
  out.add("op.threads", nthreads);
  out.simtime += (double)sh;
  Hash st;
  st.raw(inter.h);
  for (auto &l : plan) if (l[0] == 't' || l[0] == 'o') st.s(l);
  out.state(st.h);
  out.log.raw(inter.h);
  if (!ended)
  {
    out.viol(deadlock ? "deadlock" : "no-progress", fmt("the threads do not finish (after %llu switches)", (unsigned long long)switches));
    return;
  }
  for (int t = 0; t < nthreads; t++)
    for (Item *i : w.prog[t])
    {
      out.log.raw(i->hash);
      out.add("check.answer");
      if (i->failed) out.viol("concurrent-exception", fmt("thread %d: %s throws %s", t, i->line.c_str(), i->what.c_str()));
      else if (i->hash != i->ref.hash)
        out.viol("concurrent-result-differs",
                 fmt("thread %d (%s): ", t, kname[i->cfg.kind]) + i->line + " gives " + i->what + ", alone it gives " + i->ref.text);
    }
}
}  // namespace sim
