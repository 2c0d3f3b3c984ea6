#define _GLIBCXX_THREAD_IMPL 1
#include "vsched.h"

#include <errno.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sched.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>

#include <condition_variable>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <memory>
#include <thread>
#include <unordered_map>
#include <vector>

// ------------------------------------------------------------------ real ones
extern "C" {
int __real_pthread_mutex_lock(pthread_mutex_t*);
int __real_pthread_mutex_trylock(pthread_mutex_t*);
int __real_pthread_mutex_unlock(pthread_mutex_t*);
int __real_pthread_mutex_clocklock(pthread_mutex_t*, clockid_t, const timespec*);
int __real_pthread_mutex_timedlock(pthread_mutex_t*, const timespec*);
int __real_pthread_cond_wait(pthread_cond_t*, pthread_mutex_t*);
int __real_pthread_cond_timedwait(pthread_cond_t*, pthread_mutex_t*, const timespec*);
int __real_pthread_cond_clockwait(pthread_cond_t*, pthread_mutex_t*, clockid_t, const timespec*);
int __real_pthread_cond_signal(pthread_cond_t*);
int __real_pthread_cond_broadcast(pthread_cond_t*);
int __real_pthread_rwlock_rdlock(pthread_rwlock_t*);
int __real_pthread_rwlock_wrlock(pthread_rwlock_t*);
int __real_pthread_rwlock_tryrdlock(pthread_rwlock_t*);
int __real_pthread_rwlock_trywrlock(pthread_rwlock_t*);
int __real_pthread_rwlock_unlock(pthread_rwlock_t*);
int __real_pthread_once(pthread_once_t*, void (*)(void));
int __real_sched_yield(void);
int __real_nanosleep(const timespec*, timespec*);
int __real_clock_nanosleep(clockid_t, int, const timespec*, timespec*);
int __real_usleep(useconds_t);
int __real___cxa_guard_acquire(void*);
void __real___cxa_guard_release(void*);
void __real___cxa_guard_abort(void*);
void __real__ZNSt18condition_variable10notify_oneEv(std::condition_variable*);
void __real__ZNSt18condition_variable10notify_allEv(std::condition_variable*);
void __real__ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE(
    std::condition_variable*, std::unique_lock<std::mutex>*);
int64_t __real__ZNSt6chrono3_V212steady_clock3nowEv();
int64_t __real__ZNSt6chrono3_V212system_clock3nowEv();
void __real__ZNSt6thread4joinEv(std::thread*);
void __real__ZNSt6thread6detachEv(std::thread*);
void __real__ZNSt6thread15_M_start_threadESt10unique_ptrINS_6_StateESt14default_deleteIS1_EEPFvvE(
    std::thread*, void*, void (*)());
}

namespace vs {
namespace {

constexpr int64_t kForever = INT64_MAX;
constexpr int64_t kEpoch = 1'000'000'000'000LL;  // virtual steady time at start

enum class St { kRun, kMutex, kCv, kSleep, kJoin, kPred, kRdLock, kWrLock, kDone };

struct Thread {
  int id = 0;
  St st = St::kRun;
  void* obj = nullptr;       // mutex, rwlock or cv waited for
  pthread_mutex_t* mu = nullptr;
  int64_t deadline = kForever;
  bool timed_out = false;
  Thread* join_target = nullptr;
  const std::function<bool()>* pred = nullptr;
  int futex = 0;
  uint64_t prio = 0;
  int no_preempt = 0;
  bool detached = false, joined = false;
  pthread_t handle{};
  bool has_handle = false;
};

struct Rw { int readers = 0; bool writer = false; };

struct Sched {
  Config cfg;
  uint64_t rng = 0;
  int64_t now = kEpoch;
  std::vector<Thread*> threads;
  std::unordered_map<void*, Thread*> owner;           // locked mutexes
  std::unordered_map<void*, std::deque<Thread*>> cvs; // waiters
  std::unordered_map<void*, Rw> rws;
  Result res;
  // strategy
  int strat = 0;             // 0 random walk, 1 priorities, 2 round robin-ish
  int sw_num = 1, sw_den = 2;
  int jump_den = 0, spur_den = 0;
  uint64_t mem_den = 0;
  int64_t mem_left = 0;
  std::vector<uint64_t> change_points;
  uint64_t low_prio = 1000000;
  bool fair = false;
  uint64_t limit = 0, fair_next = 0;
  size_t rr = 0;
  std::vector<Thread*> scratch;
  bool in_pick = false;      // the scheduler itself runs, with its monitors
};

Sched* S = nullptr;
thread_local Thread* self = nullptr;

uint64_t R() {
  S->rng += 0x9e3779b97f4a7c15ULL;
  uint64_t x = S->rng;
  x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL;
  x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL;
  return x ^ (x >> 31);
}
uint64_t Below(uint64_t n) { return R() % n; }

void Die(const char* m) { dprintf(2, "vsched: %s\n", m); _exit(3); }

void FutexWait(int* f) {
  while (__atomic_load_n(f, __ATOMIC_ACQUIRE) == 0)
    syscall(SYS_futex, f, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0);
  __atomic_store_n(f, 0, __ATOMIC_RELAXED);
}
void FutexPost(int* f) {
  __atomic_store_n(f, 1, __ATOMIC_RELEASE);
  syscall(SYS_futex, f, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0);
}

// Touching the object makes a use after free visible to the sanitizer.
template <class T>
__attribute__((noinline)) void Touch(T* p) {
  auto c = reinterpret_cast<volatile char*>(p);
  (void)c[0];
  (void)c[sizeof(T) - 1];
}

bool Enabled(Thread* t) {
  switch (t->st) {
    case St::kRun: return true;
    case St::kMutex: return S->owner.find(t->obj) == S->owner.end();
    case St::kCv: return false;  // moved to kMutex by notify, timeout or spuriously
    case St::kSleep: return t->deadline <= S->now;
    case St::kJoin: return t->join_target->st == St::kDone;
    case St::kPred: return (*t->pred)() || t->deadline <= S->now;
    case St::kRdLock: return !S->rws[t->obj].writer;
    case St::kWrLock: { auto& r = S->rws[t->obj]; return !r.writer && r.readers == 0; }
    case St::kDone: return false;
  }
  return false;
}

void RemoveWaiter(Thread* t) {
  auto it = S->cvs.find(t->obj);
  if (it == S->cvs.end()) return;
  auto& q = it->second;
  for (auto i = q.begin(); i != q.end(); ++i)
    if (*i == t) { q.erase(i); break; }
  if (q.empty()) S->cvs.erase(it);
}
// The wait of |t| is over; it now has to take its mutex back.
void EndWait(Thread* t) {
  t->st = St::kMutex;
  t->obj = t->mu;
}

void ExpireWaits() {
  for (Thread* t : S->threads) {
    if (t->st == St::kCv && t->deadline <= S->now) {
      RemoveWaiter(t);
      t->timed_out = true;
      S->res.timeouts++;
      EndWait(t);
    }
  }
}

std::string Describe() {
  static const char* names[] = {"runnable", "mutex", "condvar", "sleep", "join", "monitor", "rdlock", "wrlock", "done"};
  std::string s = "t=" + std::to_string(S->now - kEpoch) + "ns threads:";
  for (Thread* t : S->threads) {
    if (t->st == St::kDone) continue;
    s += " #" + std::to_string(t->id) + "=" + names[static_cast<int>(t->st)];
    if (t->deadline != kForever) s += "(until " + std::to_string(t->deadline - kEpoch) + ")";
  }
  return s;
}

void Stuck(const char* why) {
  const std::string d = std::string(why) + " " + Describe();
  if (S->cfg.on_stuck) S->cfg.on_stuck(d);
  dprintf(2, "vsched stuck: %s\n", d.c_str());
  _exit(3);
}

// Advances virtual time to the next deadline; false if there is none.
bool AdvanceToNextDeadline(bool idle) {
  int64_t best = kForever;
  // As long as threads can run the monitors must not give up waiting.
  for (Thread* t : S->threads)
    if (t->st == St::kCv || t->st == St::kSleep || (idle && t->st == St::kPred))
      if (t->deadline > S->now && t->deadline < best) best = t->deadline;
  if (best == kForever) return false;
  if (idle && S->cfg.on_idle) S->cfg.on_idle(S->now, best);
  S->now = best;
  ExpireWaits();
  return true;
}

Thread* PickNext(Thread* cur) {
  S->res.points++;
  // Random advances of time and spurious wake-ups.
  if (S->cfg.max_jump_ns > 0 && S->jump_den && Below(static_cast<uint64_t>(S->jump_den)) == 0) {
    const int64_t top = R() % 3 == 0 ? S->cfg.max_jump_ns : S->cfg.max_jump_ns / 50 + 1;
    int64_t next = kForever;
    for (Thread* t : S->threads)
      if ((t->st == St::kCv || t->st == St::kSleep) && t->deadline > S->now && t->deadline < next) next = t->deadline;
    int64_t j = static_cast<int64_t>(Below(static_cast<uint64_t>(top)));
    // Often exactly to a deadline or just short of one.
    if (next != kForever && next - S->now <= S->cfg.max_jump_ns && R() % 2) {
      j = next - S->now;
      if (R() % 3 == 0) j -= 1;
    }
    S->now += j;
    ExpireWaits();
  }
  // Limited, or those that wake each other up could starve all others.
  if (S->spur_den && S->res.spurious < 300 && Below(static_cast<uint64_t>(S->spur_den)) == 0) {
    std::vector<Thread*>& w = S->scratch;
    w.clear();
    for (Thread* t : S->threads) if (t->st == St::kCv) w.push_back(t);
    if (!w.empty()) {
      Thread* t = w[Below(w.size())];
      RemoveWaiter(t);
      EndWait(t);
      S->res.spurious++;
    }
  }
  if (S->res.points > S->limit) {
    if (!S->fair) { S->fair = true; S->limit *= 2; S->fair_next = S->res.points; }
    else if (S->res.points > S->limit * 20) Stuck("no progress within the step limit");
  }
  if (S->fair && S->res.points >= S->fair_next) {
    S->fair_next = S->res.points + 400;
    if (!AdvanceToNextDeadline(false)) S->now += 1'000'000;
    ExpireWaits();
  }
  for (;;) {
    std::vector<Thread*>& e = S->scratch;
    e.clear();
    bool cur_ok = false;
    for (Thread* t : S->threads)
      if (Enabled(t)) { e.push_back(t); if (t == cur) cur_ok = true; }
    if (e.empty()) {
      if (!AdvanceToNextDeadline(true)) Stuck("no thread can run any more");
      continue;
    }
    if (e.size() == 1) return e[0];
    if (S->fair) { S->rr++; return e[S->rr % e.size()]; }
    if (S->strat == 1) {
      while (!S->change_points.empty() && S->res.points >= S->change_points.back()) {
        S->change_points.pop_back();
        if (cur) cur->prio = --S->low_prio;
      }
      Thread* best = e[0];
      for (Thread* t : e) if (t->prio > best->prio) best = t;
      return best;
    }
    if (cur_ok && Below(static_cast<uint64_t>(S->sw_den)) >= static_cast<uint64_t>(S->sw_num)) return cur;
    return e[Below(e.size())];
  }
}

// Completes what |self| was waiting for; it has just been chosen.
void Resume(Thread* t) {
  switch (t->st) {
    case St::kMutex: S->owner[t->obj] = t; break;
    case St::kRdLock: S->rws[t->obj].readers++; break;
    case St::kWrLock: S->rws[t->obj].writer = true; break;
    default: break;
  }
  t->st = St::kRun;
  t->obj = nullptr;
  t->deadline = kForever;
}

void SwitchFrom(Thread* cur, bool ends) {
  S->in_pick = true;
  Thread* next = PickNext(cur);
  S->in_pick = false;
  S->res.trace_hash = (S->res.trace_hash ^ static_cast<uint64_t>(next->id + 1)) * 1099511628211ULL;
  S->res.trace_hash ^= S->res.trace_hash >> 29;
  if (next != cur) {
    S->res.switches++;
    FutexPost(&next->futex);
    if (ends) return;
    FutexWait(&cur->futex);
  }
  if (!ends) Resume(cur);
}

void YieldPoint() {
  Thread* t = self;
  if (t->no_preempt) return;
  SwitchFrom(t, false);
}

void LockMutex(pthread_mutex_t* m) {
  Thread* t = self;
  Touch(m);
  auto it = S->owner.find(m);
  if (it != S->owner.end() && it->second == t && !t->no_preempt) {
    // Self deadlock for a normal mutex.
    t->st = St::kMutex; t->obj = m;
    SwitchFrom(t, false);
    return;
  }
  if (t->no_preempt && it == S->owner.end()) { S->owner[m] = t; return; }
  t->st = St::kMutex;
  t->obj = m;
  SwitchFrom(t, false);
}
void ReleaseMutex(void* m) {
  auto it = S->owner.find(m);
  if (it == S->owner.end() || it->second != self) Stuck("unlock of a mutex that the thread does not hold:");
  S->owner.erase(it);
}
void UnlockMutex(pthread_mutex_t* m) {
  Touch(m);
  ReleaseMutex(m);
  YieldPoint();
}
// Returns false on timeout.
bool WaitCv(void* cv, pthread_mutex_t* m, int64_t deadline) {
  Thread* t = self;
  ReleaseMutex(m);
  t->mu = m;
  t->timed_out = false;
  t->deadline = deadline;
  if (deadline <= S->now) {
    t->timed_out = true;
    S->res.timeouts++;
    t->st = St::kMutex;
    t->obj = m;
  } else {
    t->st = St::kCv;
    t->obj = cv;
    S->cvs[cv].push_back(t);
  }
  SwitchFrom(t, false);
  Touch(m);
  return !t->timed_out;
}
void Notify(void* cv, bool all) {
  YieldPoint();
  for (;;) {
    auto it = S->cvs.find(cv);
    if (it == S->cvs.end()) break;
    auto& q = it->second;
    const size_t i = Below(q.size());
    Thread* t = q[i];
    q.erase(q.begin() + static_cast<long>(i));
    if (q.empty()) S->cvs.erase(it);
    EndWait(t);
    if (!all) break;
  }
  YieldPoint();
}

uint64_t NewPrio() { return 2000000 + Below(1000000); }

Thread* NewThread() {
  auto t = new Thread;
  t->id = static_cast<int>(S->threads.size());
  t->prio = NewPrio();
  S->threads.push_back(t);
  S->res.threads++;
  return t;
}

struct Wrapped final : std::thread::_State {
  std::unique_ptr<std::thread::_State> inner;
  Thread* t;
  void _M_run() override {
    self = t;
    FutexWait(&t->futex);
    Resume(t);
    inner->_M_run();
    inner.reset();
    t->st = St::kDone;
    self = nullptr;
    SwitchFrom(t, true);
  }
};

int64_t ToNs(const timespec* ts) { return ts->tv_sec * 1'000'000'000LL + ts->tv_nsec; }
int64_t Deadline(const timespec* ts) {
  if (ts->tv_sec > INT64_MAX / 1'000'000'000LL - 1) return kForever - 1;
  if (ts->tv_sec < 0) return 0;
  return ToNs(ts);
}

}  // namespace

bool Active() { return self != nullptr; }
int64_t Now() { return S ? S->now : 0; }
int Self() { return self ? self->id : -1; }
void Point() { if (self) YieldPoint(); }
uint64_t Rand() { return R(); }
int LiveThreads() {
  int n = 0;
  for (Thread* t : S->threads) if (t->st != St::kDone) n++;
  return n;
}
void Sleep(int64_t ns) {
  Thread* t = self;
  t->st = St::kSleep;
  t->deadline = S->now + (ns < 0 ? 0 : ns);
  SwitchFrom(t, false);
}
bool WaitFor(const std::function<bool()>& pred, int64_t horizon_ns) {
  Thread* t = self;
  if (pred()) { YieldPoint(); return true; }
  t->st = St::kPred;
  t->pred = &pred;
  t->deadline = S->now + horizon_ns;
  SwitchFrom(t, false);
  t->pred = nullptr;
  return pred();
}

Result Run(const Config& config, const std::function<void()>& body) {
  Sched s;
  S = &s;
  s.cfg = config;
  s.rng = config.seed * 0x9e3779b97f4a7c15ULL + 12345;
  R();
  static const int dens[] = {2, 3, 5, 10, 40};
  s.strat = R() % 5 < 2 ? 1 : 0;
  s.sw_num = 1;
  s.sw_den = dens[R() % 5];
  if (R() % 4 == 0) s.sw_num = s.sw_den = 1;
  static const int jumps[] = {0, 0, 8, 40, 150};
  s.jump_den = jumps[R() % 5];
  static const int spurs[] = {0, 0, 20, 100};
  s.spur_den = spurs[R() % 4];
  static const uint64_t mems[] = {0, 0, 4, 20, 100, 500};
  s.mem_den = config.fine ? mems[R() % 6] : 0;
  s.mem_left = s.mem_den ? static_cast<int64_t>(R() % (2 * s.mem_den)) : -1;
  if (s.strat == 1) {
    const auto d = R() % 6;
    const uint64_t len = 20 + R() % 400;
    for (uint64_t i = 0; i < d; i++) s.change_points.push_back(R() % len);
    // Popped from the back: needs descending order.
    for (size_t i = 0; i < s.change_points.size(); i++)
      for (size_t j = i + 1; j < s.change_points.size(); j++)
        if (s.change_points[i] < s.change_points[j]) std::swap(s.change_points[i], s.change_points[j]);
  }
  s.limit = 200000;
  Thread* t = NewThread();
  self = t;
  body();
  // Let everything that still runs come to its end.
  static const std::function<bool()> none = [] {
    for (Thread* x : S->threads) if (x != self && x->st != St::kDone) return false;
    return true;
  };
  if (!WaitFor(none, 3600LL * 24 * 400 * 1'000'000'000LL)) Stuck("threads left over after the program ended:");
  self = nullptr;
  for (Thread* x : s.threads) delete x;
  S = nullptr;
  return s.res;
}

}  // namespace vs

// ------------------------------------------------------------------ wrappers
using namespace vs;

extern "C" {

int __wrap_pthread_mutex_lock(pthread_mutex_t* m) {
  if (!self) return __real_pthread_mutex_lock(m);
  LockMutex(m);
  return 0;
}
int __wrap_pthread_mutex_trylock(pthread_mutex_t* m) {
  if (!self) return __real_pthread_mutex_trylock(m);
  YieldPoint();
  Touch(m);
  if (S->owner.find(m) != S->owner.end()) return EBUSY;
  S->owner[m] = self;
  return 0;
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) {
  if (!self) return __real_pthread_mutex_unlock(m);
  UnlockMutex(m);
  return 0;
}
int __wrap_pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t c, const timespec* ts) {
  if (!self) return __real_pthread_mutex_clocklock(m, c, ts);
  LockMutex(m);
  return 0;
}
int __wrap_pthread_mutex_timedlock(pthread_mutex_t* m, const timespec* ts) {
  if (!self) return __real_pthread_mutex_timedlock(m, ts);
  LockMutex(m);
  return 0;
}
int __wrap_pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
  if (!self) return __real_pthread_cond_wait(c, m);
  Touch(c);
  WaitCv(c, m, kForever);
  return 0;
}
int __wrap_pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t clk, const timespec* ts) {
  if (!self) return __real_pthread_cond_clockwait(c, m, clk, ts);
  Touch(c);
  return WaitCv(c, m, Deadline(ts)) ? 0 : ETIMEDOUT;
}
int __wrap_pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const timespec* ts) {
  if (!self) return __real_pthread_cond_timedwait(c, m, ts);
  Touch(c);
  return WaitCv(c, m, Deadline(ts)) ? 0 : ETIMEDOUT;
}
int __wrap_pthread_cond_signal(pthread_cond_t* c) {
  if (!self) return __real_pthread_cond_signal(c);
  Touch(c);
  Notify(c, false);
  return 0;
}
int __wrap_pthread_cond_broadcast(pthread_cond_t* c) {
  if (!self) return __real_pthread_cond_broadcast(c);
  Touch(c);
  Notify(c, true);
  return 0;
}
int __wrap_pthread_rwlock_rdlock(pthread_rwlock_t* l) {
  if (!self) return __real_pthread_rwlock_rdlock(l);
  Touch(l);
  self->st = St::kRdLock; self->obj = l;
  SwitchFrom(self, false);
  return 0;
}
int __wrap_pthread_rwlock_wrlock(pthread_rwlock_t* l) {
  if (!self) return __real_pthread_rwlock_wrlock(l);
  Touch(l);
  self->st = St::kWrLock; self->obj = l;
  SwitchFrom(self, false);
  return 0;
}
int __wrap_pthread_rwlock_tryrdlock(pthread_rwlock_t* l) {
  if (!self) return __real_pthread_rwlock_tryrdlock(l);
  YieldPoint();
  auto& r = S->rws[l];
  if (r.writer) return EBUSY;
  r.readers++;
  return 0;
}
int __wrap_pthread_rwlock_trywrlock(pthread_rwlock_t* l) {
  if (!self) return __real_pthread_rwlock_trywrlock(l);
  YieldPoint();
  auto& r = S->rws[l];
  if (r.writer || r.readers) return EBUSY;
  r.writer = true;
  return 0;
}
int __wrap_pthread_rwlock_unlock(pthread_rwlock_t* l) {
  if (!self) return __real_pthread_rwlock_unlock(l);
  Touch(l);
  auto& r = S->rws[l];
  if (r.writer) r.writer = false; else r.readers--;
  YieldPoint();
  return 0;
}
int __wrap_pthread_once(pthread_once_t* o, void (*f)(void)) {
  if (!self) return __real_pthread_once(o, f);
  self->no_preempt++;
  const int r = __real_pthread_once(o, f);
  self->no_preempt--;
  return r;
}
int __wrap_sched_yield(void) {
  if (!self) return __real_sched_yield();
  if (!self->no_preempt) {
    self->prio = --S->low_prio;
    SwitchFrom(self, false);
  }
  return 0;
}
int __wrap_nanosleep(const timespec* ts, timespec* rem) {
  if (!self) return __real_nanosleep(ts, rem);
  vs::Sleep(ToNs(ts));
  return 0;
}
int __wrap_clock_nanosleep(clockid_t c, int flags, const timespec* ts, timespec* rem) {
  if (!self) return __real_clock_nanosleep(c, flags, ts, rem);
  vs::Sleep(flags & TIMER_ABSTIME ? Deadline(ts) - S->now : ToNs(ts));
  return 0;
}
int __wrap_usleep(useconds_t us) {
  if (!self) return __real_usleep(us);
  vs::Sleep(static_cast<int64_t>(us) * 1000);
  return 0;
}
int __wrap___cxa_guard_acquire(void* g) {
  const int r = __real___cxa_guard_acquire(g);
  if (r && self) self->no_preempt++;
  return r;
}
void __wrap___cxa_guard_release(void* g) {
  __real___cxa_guard_release(g);
  if (self) self->no_preempt--;
}
void __wrap___cxa_guard_abort(void* g) {
  __real___cxa_guard_abort(g);
  if (self) self->no_preempt--;
}

void __wrap__ZNSt18condition_variable10notify_oneEv(std::condition_variable* c) {
  if (!self) return __real__ZNSt18condition_variable10notify_oneEv(c);
  Touch(c);
  Notify(c, false);
}
void __wrap__ZNSt18condition_variable10notify_allEv(std::condition_variable* c) {
  if (!self) return __real__ZNSt18condition_variable10notify_allEv(c);
  Touch(c);
  Notify(c, true);
}
void __wrap__ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE(
    std::condition_variable* c, std::unique_lock<std::mutex>* l) {
  if (!self) return __real__ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE(c, l);
  Touch(c);
  WaitCv(c, l->mutex()->native_handle(), kForever);
}
int64_t __wrap__ZNSt6chrono3_V212steady_clock3nowEv() {
  if (!self) return __real__ZNSt6chrono3_V212steady_clock3nowEv();
  return S->now;
}
int64_t __wrap__ZNSt6chrono3_V212system_clock3nowEv() {
  if (!self) return __real__ZNSt6chrono3_V212system_clock3nowEv();
  return S->now;
}
void __wrap__ZNSt6thread15_M_start_threadESt10unique_ptrINS_6_StateESt14default_deleteIS1_EEPFvvE(
    std::thread* th, std::unique_ptr<std::thread::_State>* state, void (*depend)()) {
  if (!self) {
    return __real__ZNSt6thread15_M_start_threadESt10unique_ptrINS_6_StateESt14default_deleteIS1_EEPFvvE(th, state, depend);
  }
  Thread* t = NewThread();
  auto w = std::make_unique<Wrapped>();
  w->inner = std::move(*state);
  w->t = t;
  std::unique_ptr<std::thread::_State> p = std::move(w);
  __real__ZNSt6thread15_M_start_threadESt10unique_ptrINS_6_StateESt14default_deleteIS1_EEPFvvE(th, &p, depend);
  t->handle = th->native_handle();
  t->has_handle = true;
  YieldPoint();
}
void __wrap__ZNSt6thread4joinEv(std::thread* th) {
  if (!self) return __real__ZNSt6thread4joinEv(th);
  const auto h = th->native_handle();
  Thread* target = nullptr;
  for (Thread* t : S->threads)
    if (t->has_handle && !t->detached && !t->joined && pthread_equal(t->handle, h)) target = t;
  if (!target) Stuck("join of an unknown thread:");
  self->st = St::kJoin;
  self->join_target = target;
  SwitchFrom(self, false);
  target->joined = true;
  __real__ZNSt6thread4joinEv(th);
}
void __wrap__ZNSt6thread6detachEv(std::thread* th) {
  if (self) {
    const auto h = th->native_handle();
    for (Thread* t : S->threads)
      if (t->has_handle && !t->detached && !t->joined && pthread_equal(t->handle, h)) t->detached = true;
    YieldPoint();
  }
  __real__ZNSt6thread6detachEv(th);
}

// Callbacks before memory accesses of the code under test.
static inline void MemPoint() {
  if (!self || S->mem_left < 0) return;
  if (S->mem_left-- > 0) return;
  S->mem_left = static_cast<int64_t>(R() % (2 * S->mem_den));
  if (self->no_preempt || self->st != St::kRun || S->in_pick) return;
  S->res.mem_points++;
  SwitchFrom(self, false);
}
// Output calls are steps of their own.
#define VS_STEP(ret, name, params, args)      \
  ret __real_##name params;                   \
  ret __wrap_##name params {                  \
    if (!self) return __real_##name args;     \
    YieldPoint();                             \
    const ret r = __real_##name args;         \
    YieldPoint();                             \
    return r;                                 \
  }
VS_STEP(size_t, fwrite, (const void* p, size_t a, size_t b, FILE* f), (p, a, b, f))
VS_STEP(size_t, fwrite_unlocked, (const void* p, size_t a, size_t b, FILE* f), (p, a, b, f))
VS_STEP(int, fputc, (int c, FILE* f), (c, f))
VS_STEP(int, putc, (int c, FILE* f), (c, f))
VS_STEP(int, _IO_putc, (int c, FILE* f), (c, f))
VS_STEP(int, fputs, (const char* s, FILE* f), (s, f))
VS_STEP(int, fflush, (FILE* f), (f))
VS_STEP(ssize_t, write, (int fd, const void* p, size_t n), (fd, p, n))

void __sanitizer_cov_load1(void*) { MemPoint(); }
void __sanitizer_cov_load2(void*) { MemPoint(); }
void __sanitizer_cov_load4(void*) { MemPoint(); }
void __sanitizer_cov_load8(void*) { MemPoint(); }
void __sanitizer_cov_load16(void*) { MemPoint(); }
void __sanitizer_cov_store1(void*) { MemPoint(); }
void __sanitizer_cov_store2(void*) { MemPoint(); }
void __sanitizer_cov_store4(void*) { MemPoint(); }
void __sanitizer_cov_store8(void*) { MemPoint(); }
void __sanitizer_cov_store16(void*) { MemPoint(); }

}  // extern "C"
