// Runtime of the thread scheduler; compiled without instrumentation.
#include "core/alloc.hxx"
#include "core/threads.hxx"
#include <atomic>
#include <cerrno>
#include <dlfcn.h>
#include <linux/futex.h>
#include <pthread.h>
#include <semaphore.h>
#include <sys/syscall.h>
#include <thread>
#include <time.h>
#include <unordered_map>

namespace thr
{
struct Tcb
{
  int id = 0;
  bool done = false;
  bool lib = false, was_lib = false;
  int out = 0;
  int op = -1;
  uint64_t blocks = 0;
  uint64_t next_at = ~0ull;
  size_t next = 0;
  std::vector<Switch> mine;  // switches of the present operation by time
  std::vector<Switch> places;  // ... and by code location
  std::atomic<int> go{0};
};
static thread_local Tcb* me = nullptr;
static std::vector<Tcb*> all;
static std::vector<Switch> plan;
static Stats st;
static uint64_t slice = 0, burst_left = 0, burst_len = 0, burst_at = 0, burst_salt = 0, idle = 0;
static std::atomic<int> finished{0};
bool recording = false;
static std::unordered_map<uintptr_t, uint64_t> seen_else;  // outside the program's own code
static uint32_t* seen = nullptr;                           // by offset in the program's code
static std::vector<uint32_t> touched;
extern "C" char __executable_start, etext;
static void count(uintptr_t pc)
{
  uintptr_t a = (uintptr_t)&__executable_start, n = (uintptr_t)&etext - a;
  if (pc - a >= n)
    ++seen_else[pc];
  else
  {
    if (!seen)
      seen = (uint32_t*)calloc(n, sizeof(uint32_t));
    if (seen[pc - a]++ == 0)
      touched.push_back((uint32_t)(pc - a));
  }
}
static unsigned char flagged[65536];  // hashes of code locations with planned switches
static size_t slot(uintptr_t pc) { return (pc ^ (pc >> 16)) & 65535; }

static void fwait(std::atomic<int>& f)
{
  while (f.load() == 0)
    syscall(SYS_futex, (int*)&f, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0);
  f.store(0);
}
static void fwake(std::atomic<int>& f)
{
  f.store(1);
  syscall(SYS_futex, (int*)&f, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0);
}
static void note(uint64_t v) { st.hash = (st.hash ^ v) * 1099511628211ull; }
/// Next thread that has not ended, starting the search at "from"; -1 if there is none but "but".
static int runnable(int from, int but)
{
  int n = (int)all.size();
  for (int i = 0; i < n; ++i)
  {
    int k = ((from + i) % n + n) % n;
    if (k != but && !all[k]->done)
      return k;
  }
  return -1;
}
static void go_to(int k)
{
  Tcb* self = me;
  ++st.switches;
  slice = 0;
  note((uint64_t)self->id * 1000003 + (uint64_t)self->op * 131 + (uint64_t)k);
  note(self->blocks);
  fwake(all[(size_t)k]->go);
  fwait(self->go);
}
static void arm(Tcb* t) { t->next_at = t->next < t->mine.size() ? t->mine[t->next].at : ~0ull; }
static void preempt(Tcb* t, const Switch* at = nullptr)
{
  int to = -1;
  if (at || t->blocks >= t->next_at)
  {
    Switch s = at ? *at : t->mine[t->next++];
    arm(t);
    to = s.to;
    burst_left = (uint64_t)s.burst;
    burst_len = (uint64_t)(s.len < 1 ? 1 : s.len);
    burst_salt = s.salt;
    burst_at = burst_len;
  }
  else if (burst_left > 0 && burst_at == 0)
  {
    --burst_left;
    burst_salt = sim::mix64(burst_salt);
    to = (int)(burst_salt % all.size());
    burst_at = 1 + (burst_salt >> 32) % (2 * burst_len);
  }
  else
  {
    ++st.slices;
    to = t->id + 1;
  }
  int k = runnable(to, t->id);
  slice = 0;
  if (k >= 0)
    go_to(k);
}
static const uint64_t SLICE = 3000000;  // so that a thread that polls for another one does not run for ever
static void place(Tcb* t, uintptr_t pc)
{
  for (auto& s : t->places)
    if (s.pc == pc && s.hit > 0 && --s.hit == 0)
    {
      preempt(t, &s);
      return;
    }
}
static inline void block(uintptr_t pc)
{
  Tcb* t = me;
  if (!t || !t->lib)
    return;
  if (__builtin_expect(recording, 0))
    count(pc);
  ++t->blocks;
  ++st.blocks;
  idle = 0;
  if (burst_at > 0)
    --burst_at;
  if (__builtin_expect(t->blocks >= t->next_at || (burst_left > 0 && burst_at == 0) || ++slice > SLICE, 0))
    preempt(t);
  else if (__builtin_expect(flagged[slot(pc)], 0))
    place(t, pc);
}
/// The running thread cannot go on before another one does something. False: nobody can go on.
static bool wait_for_others()
{
  Tcb* t = me;
  ++st.blocked;
  int k = runnable(t->id + 1, t->id);
  if (k < 0 || ++idle > 2000)
  {
    st.deadlock = true;
    return false;
  }
  go_to(k);
  return true;
}
static void dead()
{
  fprintf(stderr, "deadlock: no thread can go on\n");
  abort();
}

void enter(int op)
{
  Tcb* t = me;
  t->op = op;
  t->blocks = 0;
  t->mine.clear();
  t->next = 0;
  t->places.clear();
  for (auto& s : plan)
    if (s.op == op)
      (s.pc ? t->places : t->mine).push_back(s);
  seen_else.clear();
  for (auto i : touched)
    seen[i] = 0;
  touched.clear();
  std::stable_sort(t->mine.begin(), t->mine.end(), [](const Switch& a, const Switch& b) { return a.at < b.at; });
  arm(t);
  t->lib = true;
}
uint64_t leave()
{
  me->lib = false;
  return me->blocks;
}
std::vector<std::pair<uintptr_t, uint64_t>> locations()
{
  std::vector<std::pair<uintptr_t, uint64_t>> r(seen_else.begin(), seen_else.end());
  for (auto i : touched)
    r.push_back({(uintptr_t)&__executable_start + i, seen[i]});
  std::sort(r.begin(), r.end());
  return r;
}
void outside(bool on)
{
  Tcb* t = me;
  if (!t)
    return;
  if (on && t->out++ == 0)
  {
    block(1);  // one preemption point for all of it
    t->was_lib = t->lib;
    t->lib = false;
  }
  if (!on && --t->out == 0)
    t->lib = t->was_lib;
}
Pause::Pause() : was(me && me->lib)
{
  if (me)
    me->lib = false;
}
Pause::~Pause()
{
  if (me)
    me->lib = was;
}
Stats run(int n, const std::vector<Switch>& p, const std::function<void(int)>& body)
{
  st = Stats();
  plan = p;
  all.clear();
  slice = burst_left = burst_at = idle = 0;
  finished.store(0);
  memset(flagged, 0, sizeof flagged);
  for (auto& s : plan)
    if (s.pc)
      flagged[slot(s.pc)] = 1;
  for (int i = 0; i < n; ++i)
  {
    all.push_back(new Tcb);
    all.back()->id = i;
  }
  std::vector<std::thread> ts;
  for (int i = 0; i < n; ++i)
    ts.emplace_back(
      [i, &body]()
      {
        Tcb* t = all[(size_t)i];
        fwait(t->go);
        me = t;
        body(i);
        t->lib = false;
        t->done = true;
        me = nullptr;
        int k = runnable(i + 1, i);
        slice = 0;
        if (k >= 0)
          fwake(all[(size_t)k]->go);
        else
          fwake(finished);
      });
  fwake(all[0]->go);
  fwait(finished);
  for (auto& t : ts)
    t.join();
  for (auto* t : all)
    delete t;
  all.clear();
  return st;
}
}  // namespace thr

extern "C" void __sanitizer_cov_trace_pc() { thr::block((uintptr_t)__builtin_return_address(0)); }

// ------------------------------------------------------------------------------ blocking seams
template <typename F>
static F real(const char* n)
{
  return (F)dlsym(RTLD_NEXT, n);
}
static bool simulated() { return thr::me != nullptr; }
#define TRYING(expr)                \
  for (;;)                          \
  {                                 \
    int r = (expr);                 \
    if (r != EBUSY)                 \
      return r;                     \
    if (!thr::wait_for_others())    \
      thr::dead();                  \
  }
extern "C"
{
int pthread_mutex_lock(pthread_mutex_t* m)
{
  static auto f = real<int (*)(pthread_mutex_t*)>("pthread_mutex_lock");
  if (!simulated())
    return f(m);
  thr::block((uintptr_t)__builtin_return_address(0));
  TRYING(pthread_mutex_trylock(m));
}
int pthread_rwlock_rdlock(pthread_rwlock_t* m)
{
  static auto f = real<int (*)(pthread_rwlock_t*)>("pthread_rwlock_rdlock");
  if (!simulated())
    return f(m);
  TRYING(pthread_rwlock_tryrdlock(m));
}
int pthread_rwlock_wrlock(pthread_rwlock_t* m)
{
  static auto f = real<int (*)(pthread_rwlock_t*)>("pthread_rwlock_wrlock");
  if (!simulated())
    return f(m);
  TRYING(pthread_rwlock_trywrlock(m));
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m)
{
  static auto f = real<int (*)(pthread_cond_t*, pthread_mutex_t*)>("pthread_cond_wait");
  if (!simulated())
    return f(c, m);
  pthread_mutex_unlock(m);
  if (!thr::wait_for_others())
    thr::dead();
  return pthread_mutex_lock(m);  // as after a spurious wake-up
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const struct timespec* t)
{
  static auto f = real<int (*)(pthread_cond_t*, pthread_mutex_t*, clockid_t, const struct timespec*)>("pthread_cond_clockwait");
  if (!simulated())
    return f(c, m, k, t);
  pthread_mutex_unlock(m);
  bool woken = thr::wait_for_others();
  int r = pthread_mutex_lock(m);
  return woken ? r : ETIMEDOUT;
}
int sched_yield()
{
  if (simulated())
    thr::wait_for_others();
  return 0;
}
int nanosleep(const struct timespec*, struct timespec*)
{
  if (simulated())
    thr::wait_for_others();
  return 0;
}
int clock_nanosleep(clockid_t, int, const struct timespec*, struct timespec*)
{
  if (simulated())
    thr::wait_for_others();
  return 0;
}
static const int ONCE_RUNNING = 0x51;
int pthread_once(pthread_once_t* o, void (*fn)())
{
  static auto f = real<int (*)(pthread_once_t*, void (*)())>("pthread_once");
  if (!simulated())
    return f(o, fn);
  for (;;)
  {
    if (*o == 2)  // as glibc marks it
      return 0;
    if (*o == 0)
      break;
    if (!thr::wait_for_others())
      thr::dead();
  }
  *o = ONCE_RUNNING;
  try
  {
    fn();
  }
  catch (...)
  {
    *o = 0;
    throw;
  }
  *o = 2;
  return 0;
}
// Guarded initialisation of function-local statics (Itanium ABI): byte 0 done, byte 1 in progress.
int __cxa_guard_acquire(long long int* g)
{
  volatile char* b = (volatile char*)g;
  for (;;)
  {
    if (b[0])
      return 0;
    if (!b[1])
    {
      b[1] = 1;
      return 1;
    }
    if (!simulated())
      std::this_thread::yield();
    else if (!thr::wait_for_others())
      thr::dead();
  }
}
void __cxa_guard_release(long long int* g)
{
  volatile char* b = (volatile char*)g;
  b[1] = 0;
  b[0] = 1;
}
void __cxa_guard_abort(long long int* g) { ((volatile char*)g)[1] = 0; }
}

// ------------------------------------------------------------------------------ inside the linear algebra library
// The library calls its building blocks through the dynamic linker: each becomes a preemption point. All
// arguments are pointers or hidden lengths, so handing on more words than there are arguments is harmless.
#define FORWARD(T, name)                                                                                                                                                   \
  extern "C" T name(void* a, void* b, void* c, void* d, void* e, void* f, void* g, void* h, void* i, void* j, void* k, void* l, void* m, void* n)                           \
  {                                                                                                                                                                        \
    static auto r = real<T (*)(void*, void*, void*, void*, void*, void*, void*, void*, void*, void*, void*, void*, void*, void*)>(#name);                                   \
    thr::block((uintptr_t)r);                                                                                                                                              \
    T x = r(a, b, c, d, e, f, g, h, i, j, k, l, m, n);                                                                                                                      \
    thr::block((uintptr_t)r + 1);                                                                                                                                          \
    return x;                                                                                                                                                              \
  }
#define FORWARD_BOTH(name) FORWARD(long, d##name) FORWARD(long, s##name)
FORWARD_BOTH(gesv_)
FORWARD_BOTH(getrf_)
FORWARD_BOTH(getrf2_)
FORWARD_BOTH(getrs_)
FORWARD_BOTH(geqr2_)
FORWARD_BOTH(laswp_)
FORWARD_BOTH(trsm_)
FORWARD_BOTH(gemm_)
FORWARD_BOTH(gemv_)
FORWARD_BOTH(ger_)
FORWARD_BOTH(scal_)
FORWARD_BOTH(swap_)
FORWARD_BOTH(larf_)
FORWARD_BOTH(larf1f_)
FORWARD_BOTH(larfg_)
FORWARD(long, idamax_)
FORWARD(long, isamax_)
