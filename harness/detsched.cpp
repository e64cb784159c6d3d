#include "detsched.h"

#include <cerrno>
#include <chrono>
#include <climits>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <future>
#include <map>
#include <memory>
#include <unordered_map>
#include <vector>

#include <dlfcn.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sched.h>
#include <sys/syscall.h>
#include <unistd.h>

namespace
{
const uint64_t kNoDeadline = UINT64_MAX;
const uint64_t kEpochNs = 1700000000ULL * 1000000000ULL;

enum class St { kRunnable, kBlocked, kFinished };
enum class Why { kNone, kMutex, kCond, kJoin, kFutex, kSleep, kOnce };

struct Thr
{
  int id = 0;
  pthread_t handle{};
  bool has_handle = false;
  bool joined = false;
  bool detached = false;
  St st = St::kRunnable;
  Why why = Why::kNone;
  const void* obj = nullptr;
  uint64_t deadline = kNoDeadline;
  bool timed_out = false;
  int sem = 0;
  void* (*start)(void*) = nullptr;
  void* arg = nullptr;
};

struct MutexState
{
  int owner = -1;
  int count = 0;
};

struct Sched
{
  pbt::Case* c = nullptr;
  ds::Options opts;
  std::vector<std::unique_ptr<Thr>> thr;
  std::unordered_map<const void*, MutexState> mutexes;
  std::unordered_map<const void*, int> once;  // 1 = running
  struct RwState
  {
    int writer = -1;
    std::map<int, int> readers;
  };
  std::unordered_map<const void*, RwState> rwlocks;
  uint64_t now = 0;
  uint64_t steps = 0;
  uint64_t switches = 0;
  uint64_t spurious = 0;
  uint64_t blocks = 0;
  uint64_t p_sync_den = 2;   // switch probability 1/den at synchronisation points
  uint64_t p_mem_den = 0;    // 0: never
  uint64_t mem_countdown = 0;
  uint64_t mem_run = 0;      // accesses since this thread was last scheduled or synchronised
  uint64_t n_live = 0;
};

Sched* g_s = nullptr;
ds::Stats g_last{};
thread_local Thr* t_self = nullptr;
thread_local int t_in = 0;
thread_local int t_keep = 0;

struct In
{
  In() { ++t_in; }
  ~In() { --t_in; }
};

bool Managed() { return g_s && t_self && !t_in; }

long FutexWait(int* addr, int val)
{
  return syscall(SYS_futex, addr, FUTEX_WAIT_PRIVATE, val, nullptr, nullptr, 0);
}
long FutexWake(int* addr)
{
  return syscall(SYS_futex, addr, FUTEX_WAKE_PRIVATE, INT_MAX, nullptr, nullptr, 0);
}

void SemPost(Thr* t)
{
  __atomic_store_n(&t->sem, 1, __ATOMIC_SEQ_CST);
  FutexWake(&t->sem);
}
void SemWait(Thr* t)
{
  while (__atomic_exchange_n(&t->sem, 0, __ATOMIC_SEQ_CST) == 0) FutexWait(&t->sem, 0);
}

const char* WhyName(Why w)
{
  switch (w)
  {
  case Why::kMutex: return "mutex";
  case Why::kCond: return "condition variable";
  case Why::kJoin: return "join";
  case Why::kFutex: return "future";
  case Why::kSleep: return "sleep";
  case Why::kOnce: return "once";
  default: return "none";
  }
}

[[noreturn]] void Die(const std::string& what)
{
  ++t_in;
  std::string msg = what + ":";
  for (auto& t : g_s->thr)
  {
    if (t->st == St::kFinished) continue;
    msg += pbt::Str(" [thread ", t->id, ": ",
                    t->st == St::kRunnable ? std::string("runnable")
                                           : std::string("blocked on ") + WhyName(t->why),
                    "]");
  }
  if (g_s->opts.describe) msg += " " + g_s->opts.describe();
  if (g_s->c->logging) std::fputs(g_s->c->log.str().c_str(), stdout);
  std::fflush(stdout);
  pbt::DieFail("", msg);
}

void FireTimers()
{
  for (auto& t : g_s->thr)
  {
    if (t->st == St::kBlocked && t->deadline != kNoDeadline && t->deadline <= g_s->now)
    {
      t->st = St::kRunnable;
      t->timed_out = true;
    }
  }
}

// Picks the next thread to run; never returns a blocked one.
Thr* PickNext(Thr* prefer_not)
{
  auto& s = *g_s;
  std::vector<Thr*> cand;
  while (true)
  {
    FireTimers();
    cand.clear();
    for (auto& t : s.thr)
      if (t->st == St::kRunnable && t.get() != prefer_not) cand.push_back(t.get());
    if (!cand.empty()) break;
    if (prefer_not && prefer_not->st == St::kRunnable) return prefer_not;
    uint64_t best = kNoDeadline;
    for (auto& t : s.thr)
      if (t->st == St::kBlocked && t->deadline < best) best = t->deadline;
    if (best == kNoDeadline) Die("deadlock: no thread can make progress");
    s.now = std::max(s.now, best);
  }
  if (cand.size() == 1) return cand[0];
  return cand[s.c->g.Draw(cand.size())];
}

void SwitchTo(Thr* next)
{
  Thr* self = t_self;
  if (next == self) return;
  SemPost(next);
  SemWait(self);
}

void CountStep()
{
  auto& s = *g_s;
  s.mem_run = 0;
  ++s.steps;
  s.now += 100;
  if (s.steps > s.opts.max_steps)
    Die(pbt::Str("no termination within ", s.opts.max_steps, " scheduling points"));
}

void MaybeSpurious()
{
  auto& s = *g_s;
  if (!s.opts.spurious) return;
  std::vector<Thr*> waiters;
  for (auto& t : s.thr)
    if (t->st == St::kBlocked && t->why == Why::kCond) waiters.push_back(t.get());
  if (waiters.empty()) return;
  if (s.c->g.Coin(1, 24))
  {
    auto* w = waiters[s.c->g.Draw(waiters.size())];
    w->st = St::kRunnable;
    w->timed_out = false;
    ++s.spurious;
  }
}

void MaybeTimeJump()
{
  auto& s = *g_s;
  if (!s.opts.time_jumps) return;
  uint64_t best = kNoDeadline;
  for (auto& t : s.thr)
    if (t->st == St::kBlocked && t->deadline < best) best = t->deadline;
  if (best == kNoDeadline || best <= s.now) return;
  if (s.c->g.Coin(1, 32)) s.now = best;
}

void SyncPoint()
{
  auto& s = *g_s;
  CountStep();
  if (s.n_live < 2 || t_keep > 0) return;
  MaybeSpurious();
  MaybeTimeJump();
  if (s.c->g.Coin(1, s.p_sync_den))
  {
    Thr* next = PickNext(t_self);
    if (next != t_self)
    {
      ++s.switches;
      SwitchTo(next);
    }
  }
}

// Current thread is already marked blocked.
void BlockSelf()
{
  auto& s = *g_s;
  CountStep();
  ++s.blocks;
  MaybeSpurious();
  MaybeTimeJump();
  Thr* next = PickNext(nullptr);
  SwitchTo(next);
  t_self->why = Why::kNone;
  t_self->obj = nullptr;
  t_self->deadline = kNoDeadline;
}

void WaitOn(Why why, const void* obj, uint64_t deadline)
{
  t_self->st = St::kBlocked;
  t_self->why = why;
  t_self->obj = obj;
  t_self->deadline = deadline;
  t_self->timed_out = false;
  BlockSelf();
}

void WakeAll(Why why, const void* obj)
{
  for (auto& t : g_s->thr)
  {
    if (t->st == St::kBlocked && t->why == why && t->obj == obj)
    {
      t->st = St::kRunnable;
      t->timed_out = false;
    }
  }
}

bool IsRecursive(pthread_mutex_t* m)
{
  return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP;
}

int LockModel(pthread_mutex_t* m, bool try_only, uint64_t deadline)
{
  auto& s = *g_s;
  while (true)
  {
    auto& ms = s.mutexes[m];
    if (ms.owner == -1)
    {
      ms.owner = t_self->id;
      ms.count = 1;
      return 0;
    }
    if (ms.owner == t_self->id)
    {
      if (IsRecursive(m))
      {
        ++ms.count;
        return 0;
      }
      if (try_only) return EBUSY;
      Die(pbt::Str("self-deadlock: thread ", t_self->id, " locks a mutex it already holds"));
    }
    if (try_only) return EBUSY;
    WaitOn(Why::kMutex, m, deadline);
    if (t_self->timed_out) return ETIMEDOUT;
  }
}

int RwLockModel(pthread_rwlock_t* rw, bool write, bool try_only, uint64_t deadline)
{
  auto& s = *g_s;
  while (true)
  {
    auto& st = s.rwlocks[rw];
    const int self = t_self->id;
    if (st.writer == -1 && (!write || st.readers.empty()))
    {
      if (write) st.writer = self;
      else ++st.readers[self];
      return 0;
    }
    if (try_only) return EBUSY;
    if (st.writer == self || (write && st.readers.count(self)))
      Die(pbt::Str("self-deadlock: thread ", self, " locks a read-write lock it already holds"));
    WaitOn(Why::kMutex, rw, deadline);
    if (t_self->timed_out) return ETIMEDOUT;
  }
}

bool UnlockModel(pthread_mutex_t* m)
{
  auto& s = *g_s;
  auto it = s.mutexes.find(m);
  if (it == s.mutexes.end() || it->second.owner == -1) return false;
  if (--it->second.count > 0) return true;
  it->second.owner = -1;
  WakeAll(Why::kMutex, m);
  return true;
}

uint64_t ToNs(const struct timespec* ts)
{
  int64_t v = static_cast<int64_t>(ts->tv_sec) * 1000000000LL + ts->tv_nsec;
  int64_t base = static_cast<int64_t>(kEpochNs);
  if (ts->tv_sec > 9000000000LL) return kNoDeadline - 1;
  return v <= base ? 0 : static_cast<uint64_t>(v - base);
}

template <typename F> F Real(const char* name)
{
  return reinterpret_cast<F>(dlsym(RTLD_NEXT, name));
}

void ThreadFinished()
{
  auto& s = *g_s;
  Thr* self = t_self;
  self->st = St::kFinished;
  --s.n_live;
  WakeAll(Why::kJoin, self);
  Thr* next = nullptr;
  {
    In in;
    next = PickNext(nullptr);
  }
  t_self = nullptr;
  SemPost(next);
}

void* ThreadEntry(void* p)
{
  auto* t = static_cast<Thr*>(p);
  t_self = t;
  {
    In in;
    SemWait(t);
  }
  void* r = nullptr;
  try
  {
    r = t->start(t->arg);
  }
  catch (const pbt::Failure& e)
  {
    ++t_in;
    if (g_s->c->logging) std::fputs(g_s->c->log.str().c_str(), stdout);
    std::fflush(stdout);
    pbt::DieFail(e.key, e.what());
  }
  ThreadFinished();
  return r;
}

int CondWait(pthread_cond_t* cv, pthread_mutex_t* m, uint64_t deadline)
{
  In in;
  CountStep();
  if (!UnlockModel(m)) Die("condition wait without holding the mutex");
  WaitOn(Why::kCond, cv, deadline);
  bool to = t_self->timed_out;
  (void)LockModel(m, false, kNoDeadline);
  return to ? ETIMEDOUT : 0;
}
}  // namespace

extern "C" {

int pthread_mutex_lock(pthread_mutex_t* m) noexcept
{
  static auto real = Real<int (*)(pthread_mutex_t*)>("pthread_mutex_lock");
  if (!Managed()) return real(m);
  In in;
  SyncPoint();
  return LockModel(m, false, kNoDeadline);
}

int pthread_mutex_trylock(pthread_mutex_t* m) noexcept
{
  static auto real = Real<int (*)(pthread_mutex_t*)>("pthread_mutex_trylock");
  if (!Managed()) return real(m);
  In in;
  SyncPoint();
  return LockModel(m, true, kNoDeadline);
}

int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec* ts) noexcept
{
  static auto real =
    Real<int (*)(pthread_mutex_t*, const struct timespec*)>("pthread_mutex_timedlock");
  if (!Managed()) return real(m, ts);
  In in;
  SyncPoint();
  return LockModel(m, false, ToNs(ts));
}

int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t clk, const struct timespec* ts) noexcept
{
  static auto real = Real<int (*)(pthread_mutex_t*, clockid_t, const struct timespec*)>(
    "pthread_mutex_clocklock");
  if (!Managed()) return real(m, clk, ts);
  In in;
  SyncPoint();
  return LockModel(m, false, ToNs(ts));
}

int pthread_mutex_unlock(pthread_mutex_t* m) noexcept
{
  static auto real = Real<int (*)(pthread_mutex_t*)>("pthread_mutex_unlock");
  if (!Managed()) return real(m);
  In in;
  if (!UnlockModel(m)) return real(m);
  SyncPoint();
  return 0;
}

int pthread_cond_wait(pthread_cond_t* cv, pthread_mutex_t* m)
{
  static auto real = Real<int (*)(pthread_cond_t*, pthread_mutex_t*)>("pthread_cond_wait");
  if (!Managed()) return real(cv, m);
  return CondWait(cv, m, kNoDeadline);
}

int pthread_cond_timedwait(pthread_cond_t* cv, pthread_mutex_t* m, const struct timespec* ts)
{
  static auto real = Real<int (*)(pthread_cond_t*, pthread_mutex_t*, const struct timespec*)>(
    "pthread_cond_timedwait");
  if (!Managed()) return real(cv, m, ts);
  return CondWait(cv, m, ToNs(ts));
}

int pthread_cond_clockwait(pthread_cond_t* cv, pthread_mutex_t* m, clockid_t clk,
                           const struct timespec* ts)
{
  static auto real =
    Real<int (*)(pthread_cond_t*, pthread_mutex_t*, clockid_t, const struct timespec*)>(
      "pthread_cond_clockwait");
  if (!Managed()) return real(cv, m, clk, ts);
  return CondWait(cv, m, ToNs(ts));
}

int pthread_cond_signal(pthread_cond_t* cv) noexcept
{
  static auto real = Real<int (*)(pthread_cond_t*)>("pthread_cond_signal");
  if (!Managed()) return real(cv);
  In in;
  SyncPoint();
  std::vector<Thr*> waiters;
  for (auto& t : g_s->thr)
    if (t->st == St::kBlocked && t->why == Why::kCond && t->obj == cv) waiters.push_back(t.get());
  if (!waiters.empty())
  {
    auto* w = waiters.size() == 1 ? waiters[0] : waiters[g_s->c->g.Draw(waiters.size())];
    w->st = St::kRunnable;
    w->timed_out = false;
  }
  SyncPoint();
  return 0;
}

int pthread_cond_broadcast(pthread_cond_t* cv) noexcept
{
  static auto real = Real<int (*)(pthread_cond_t*)>("pthread_cond_broadcast");
  if (!Managed()) return real(cv);
  In in;
  SyncPoint();
  WakeAll(Why::kCond, cv);
  SyncPoint();
  return 0;
}

int pthread_cond_destroy(pthread_cond_t* cv) noexcept
{
  static auto real = Real<int (*)(pthread_cond_t*)>("pthread_cond_destroy");
  if (!Managed()) return real(cv);
  In in;
  for (auto& t : g_s->thr)
    if (t->st == St::kBlocked && t->why == Why::kCond && t->obj == cv)
      Die("condition variable destroyed while a thread waits on it");
  return 0;
}

int pthread_create(pthread_t* h, const pthread_attr_t* attr, void* (*start)(void*),
                   void* arg) noexcept
{
  static auto real =
    Real<int (*)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*)>("pthread_create");
  if (!Managed()) return real(h, attr, start, arg);
  In in;
  auto& s = *g_s;
  if (s.thr.size() > 512) Die("too many threads");
  auto t = std::make_unique<Thr>();
  t->id = static_cast<int>(s.thr.size());
  t->start = start;
  t->arg = arg;
  Thr* p = t.get();
  s.thr.push_back(std::move(t));
  ++s.n_live;
  int r = real(h, attr, ThreadEntry, p);
  if (r != 0)
  {
    p->st = St::kFinished;
    p->joined = true;
    --s.n_live;
    return r;
  }
  p->handle = *h;
  p->has_handle = true;
  SyncPoint();
  return 0;
}

int pthread_join(pthread_t h, void** ret)
{
  static auto real = Real<int (*)(pthread_t, void**)>("pthread_join");
  if (!Managed()) return real(h, ret);
  In in;
  SyncPoint();
  for (auto& t : g_s->thr)
  {
    if (!t->has_handle || t->joined || !pthread_equal(t->handle, h)) continue;
    Thr* p = t.get();
    if (p == t_self) return EDEADLK;
    while (p->st != St::kFinished) WaitOn(Why::kJoin, p, kNoDeadline);
    p->joined = true;
    return real(h, ret);
  }
  return real(h, ret);
}

int pthread_detach(pthread_t h) noexcept
{
  static auto real = Real<int (*)(pthread_t)>("pthread_detach");
  if (Managed())
  {
    In in;
    for (auto& t : g_s->thr)
      if (t->has_handle && !t->joined && pthread_equal(t->handle, h)) t->detached = true;
  }
  return real(h);
}

int pthread_once(pthread_once_t* ctl, void (*fn)(void))
{
  static auto real = Real<int (*)(pthread_once_t*, void (*)(void))>("pthread_once");
  if (!Managed()) return real(ctl, fn);
  {
    In in;
    SyncPoint();
    while (true)
    {
      if (*ctl & 2) return 0;
      if (g_s->once[ctl] == 0) break;
      WaitOn(Why::kOnce, ctl, kNoDeadline);
    }
    g_s->once[ctl] = 1;
  }
  struct Done
  {
    pthread_once_t* ctl;
    ~Done()
    {
      In in;
      g_s->once.erase(ctl);
      WakeAll(Why::kOnce, ctl);
    }
  } done{ctl};
  return real(ctl, fn);
}

int __cxa_guard_acquire(long long int* guard)
{
  static int (*real)(long long int*) = nullptr;
  if (!real) real = Real<int (*)(long long int*)>("__cxa_guard_acquire");
  if (!Managed()) return real(guard);
  In in;
  while (true)
  {
    if (*reinterpret_cast<const volatile char*>(guard)) return 0;
    if (g_s->once[guard] == 0) break;
    WaitOn(Why::kOnce, guard, kNoDeadline);
  }
  g_s->once[guard] = 1;
  return real(guard);
}

void __cxa_guard_release(long long int* guard) noexcept
{
  static void (*real)(long long int*) = nullptr;
  if (!real) real = Real<void (*)(long long int*)>("__cxa_guard_release");
  real(guard);
  if (!Managed()) return;
  In in;
  g_s->once.erase(guard);
  WakeAll(Why::kOnce, guard);
}

void __cxa_guard_abort(long long int* guard) noexcept
{
  static void (*real)(long long int*) = nullptr;
  if (!real) real = Real<void (*)(long long int*)>("__cxa_guard_abort");
  real(guard);
  if (!Managed()) return;
  In in;
  g_s->once.erase(guard);
  WakeAll(Why::kOnce, guard);
}

#define RW_LOCK(name, params, call, write, try_only, deadline)            \
  int name params noexcept                                                \
  {                                                                       \
    static auto real = Real<int(*) params>(#name);                        \
    if (!Managed()) return real call;                                     \
    In in;                                                                \
    SyncPoint();                                                          \
    return RwLockModel(rw, write, try_only, deadline);                    \
  }
RW_LOCK(pthread_rwlock_rdlock, (pthread_rwlock_t * rw), (rw), false, false, kNoDeadline)
RW_LOCK(pthread_rwlock_tryrdlock, (pthread_rwlock_t * rw), (rw), false, true, kNoDeadline)
RW_LOCK(pthread_rwlock_wrlock, (pthread_rwlock_t * rw), (rw), true, false, kNoDeadline)
RW_LOCK(pthread_rwlock_trywrlock, (pthread_rwlock_t * rw), (rw), true, true, kNoDeadline)
RW_LOCK(pthread_rwlock_timedrdlock, (pthread_rwlock_t * rw, const struct timespec* ts), (rw, ts),
        false, false, ToNs(ts))
RW_LOCK(pthread_rwlock_timedwrlock, (pthread_rwlock_t * rw, const struct timespec* ts), (rw, ts),
        true, false, ToNs(ts))
RW_LOCK(pthread_rwlock_clockrdlock,
        (pthread_rwlock_t * rw, clockid_t clk, const struct timespec* ts), (rw, clk, ts), false,
        false, ToNs(ts))
RW_LOCK(pthread_rwlock_clockwrlock,
        (pthread_rwlock_t * rw, clockid_t clk, const struct timespec* ts), (rw, clk, ts), true,
        false, ToNs(ts))

int pthread_rwlock_unlock(pthread_rwlock_t* rw) noexcept
{
  static auto real = Real<int (*)(pthread_rwlock_t*)>("pthread_rwlock_unlock");
  if (!Managed()) return real(rw);
  In in;
  auto& st = g_s->rwlocks[rw];
  if (st.writer == t_self->id) st.writer = -1;
  else
  {
    auto it = st.readers.find(t_self->id);
    if (it == st.readers.end()) return real(rw);
    if (--it->second == 0) st.readers.erase(it);
  }
  WakeAll(Why::kMutex, rw);
  SyncPoint();
  return 0;
}

int nanosleep(const struct timespec* req, struct timespec* rem)
{
  static auto real = Real<int (*)(const struct timespec*, struct timespec*)>("nanosleep");
  if (!Managed()) return real(req, rem);
  ds::SleepNs(static_cast<uint64_t>(req->tv_sec) * 1000000000ULL + req->tv_nsec);
  return 0;
}

int clock_nanosleep(clockid_t clk, int flags, const struct timespec* req, struct timespec* rem)
{
  static auto real = Real<int (*)(clockid_t, int, const struct timespec*, struct timespec*)>(
    "clock_nanosleep");
  if (!Managed()) return real(clk, flags, req, rem);
  if (flags & TIMER_ABSTIME)
  {
    uint64_t d = ToNs(req);
    uint64_t n = ds::NowNs();
    ds::SleepNs(d > n ? d - n : 0);
  }
  else
    ds::SleepNs(static_cast<uint64_t>(req->tv_sec) * 1000000000ULL + req->tv_nsec);
  return 0;
}

int sched_yield(void) noexcept
{
  static auto real = Real<int (*)()>("sched_yield");
  if (!Managed()) return real();
  ds::SleepNs(1000);
  return 0;
}
}  // extern "C"

namespace std
{
bool __atomic_futex_unsigned_base::_M_futex_wait_until(unsigned* addr, unsigned val, bool has_to,
                                                       chrono::seconds s, chrono::nanoseconds ns)
{
  return _M_futex_wait_until_steady(addr, val, has_to, s, ns);
}

bool __atomic_futex_unsigned_base::_M_futex_wait_until_steady(unsigned* addr, unsigned val,
                                                              bool has_to, chrono::seconds s,
                                                              chrono::nanoseconds ns)
{
  if (!Managed())
  {
    // Wait really (only used outside of controlled executions).
    while (__atomic_load_n(addr, __ATOMIC_SEQ_CST) == val)
    {
      struct timespec ts{0, 200000};
      syscall(SYS_nanosleep, &ts, nullptr);
      if (has_to)
      {
        auto now = chrono::steady_clock::now().time_since_epoch();
        if (now >= s + ns) return false;
      }
    }
    return true;
  }
  In in;
  SyncPoint();
  if (__atomic_load_n(addr, __ATOMIC_SEQ_CST) != val) return true;
  uint64_t deadline = kNoDeadline;
  if (has_to)
  {
    struct timespec ts{static_cast<time_t>(s.count()), static_cast<long>(ns.count())};
    deadline = ToNs(&ts);
    if (deadline <= g_s->now) return false;
  }
  WaitOn(Why::kFutex, addr, deadline);
  return !t_self->timed_out;
}

void __atomic_futex_unsigned_base::_M_futex_notify_all(unsigned* addr)
{
  if (!Managed()) return;
  In in;
  SyncPoint();
  WakeAll(Why::kFutex, addr);
  SyncPoint();
}

namespace chrono
{
inline namespace _V2
{
system_clock::time_point system_clock::now() noexcept
{
  if (g_s && t_self)
    return time_point(duration(static_cast<int64_t>(kEpochNs + (g_s->now += 100))));
  struct timespec ts;
  syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts);
  return time_point(duration(ts.tv_sec * 1000000000LL + ts.tv_nsec));
}
steady_clock::time_point steady_clock::now() noexcept
{
  if (g_s && t_self)
    return time_point(duration(static_cast<int64_t>(kEpochNs + (g_s->now += 100))));
  struct timespec ts;
  syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts);
  return time_point(duration(ts.tv_sec * 1000000000LL + ts.tv_nsec));
}
}  // namespace _V2
}  // namespace chrono
}  // namespace std

namespace ds
{
Quiet::Quiet() { ++t_in; }
Quiet::~Quiet() { --t_in; }
Keep::Keep() { ++t_keep; }
Keep::~Keep() { --t_keep; }

bool Active() { return g_s != nullptr; }

void Yield()
{
  if (!Managed()) return;
  In in;
  SyncPoint();
}

uint64_t NowNs() { return g_s ? g_s->now : 0; }

void SleepNs(uint64_t ns)
{
  if (!Managed()) return;
  In in;
  WaitOn(Why::kSleep, nullptr, ns > (uint64_t{1} << 62) ? kNoDeadline - 1 : g_s->now + ns);
}

uint64_t Step() { return g_s ? g_s->steps : 0; }
uint64_t Switches() { return g_s ? g_s->switches : 0; }
int Self() { return t_self ? t_self->id : -1; }

void Note(const std::string& what)
{
  if (!g_s || !g_s->c->logging) return;
  In in;
  g_s->c->log << "  [t=" << g_s->now << " thread " << Self() << "] " << what << "\n";
}

Stats LastStats() { return g_last; }

void Run(pbt::Case& c, const Options& opts, const std::function<void()>& body)
{
  Sched s;
  s.c = &c;
  s.opts = opts;
  static const uint64_t kSync[] = {16, 8, 4, 3, 2};
  static const uint64_t kMem[] = {0, 400, 100, 30, 8};
  s.p_sync_den = kSync[c.g.Draw(5)];
  s.p_mem_den = kMem[c.g.Draw(5)];
  auto main_thr = std::make_unique<Thr>();
  Thr* p = main_thr.get();
  s.thr.push_back(std::move(main_thr));
  s.n_live = 1;
  g_s = &s;
  t_self = p;
  std::exception_ptr ex;
  try
  {
    body();
  }
  catch (const pbt::Failure& e)
  {
    ++t_in;
    if (c.logging) std::fputs(c.log.str().c_str(), stdout);
    std::fflush(stdout);
    pbt::DieFail(e.key, e.what());
  }
  // Let detached or still running threads finish.
  {
    In in;
    int guard = 0;
    while (s.n_live > 1)
    {
      if (++guard > 10000) Die("threads still alive after the end of the case");
      Thr* victim = nullptr;
      for (auto& t : s.thr)
        if (t.get() != p && t->st != St::kFinished) victim = t.get();
      WaitOn(Why::kJoin, victim, kNoDeadline);
    }
  }
  g_last = {s.steps, s.switches, s.thr.size(), s.spurious, s.blocks};
  t_self = nullptr;
  g_s = nullptr;
}
}  // namespace ds

// A memory error (heapguard.cpp).
extern "C" void ds_die(const char* what)
{
  if (g_s && t_self) Die(what);
}

// Hook for the memory access instrumentation (tsanrt.cpp).
extern "C" void ds_mem_access()
{
  if (!g_s || !t_self || t_in) return;
  auto& s = *g_s;
  if (s.n_live < 2) return;
  // a thread spinning on an atomic must let the others go on
  const bool forced = ++s.mem_run > 20000;
  if (t_keep > 0) return;
  if (!forced)
  {
    if (s.p_mem_den == 0) return;
    if (s.mem_countdown > 0)
    {
      --s.mem_countdown;
      return;
    }
  }
  In in;
  // distance to the next preemption candidate: geometric-like, one draw each
  if (s.p_mem_den > 0) s.mem_countdown = s.c->g.Draw(2 * s.p_mem_den + 1);
  CountStep();
  Thr* next = PickNext(t_self);
  if (next != t_self)
  {
    ++s.switches;
    SwitchTo(next);
  }
}
