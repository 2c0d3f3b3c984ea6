// Thread pool (and synchronous apply) under the seeded scheduler: generated
// scenarios, an event log, and oracles over it (C01 - C05).
#define VH_DEFINE_ASSERT 1
#include "vh.h"
#include "vsched.h"

#include <chrono>
#include <functional>
#include <memory>
#include <thread>
#include <vector>

#include "rst/task_runner/polling_task_runner.h"
#include "rst/task_runner/thread_pool_task_runner.h"

using namespace vh;
using std::chrono::nanoseconds;
using i64 = int64_t;

namespace {

constexpr i64 kMs = 1'000'000, kSec = 1'000'000'000, kDay = 86400 * kSec;
constexpr i64 kHorizon = 30 * kDay;

struct Act {
  enum Kind { kPoint, kSleep, kPost, kMeet, kPlug, kApply } kind = kPoint;
  i64 ns = 0;
  int arg = 0;  // task id, group or number of iterations
};
struct Task {
  int id = 0;
  i64 delay = 0;
  std::vector<Act> acts;
  // log
  bool posted = false;
  i64 lo = 0, hi = 0;           // pool clock before and after the post
  uint64_t call_seq = 0, ret_seq = 0;
  int starts = 0, ends = 0;
  uint64_t start_seq = 0;
  int live = 0;                 // copies of the callable
  bool far = false;             // never due within the scenario
  int poster = -1;
  int post_on_release = -1;     // posted by the destruction of the callable
};

struct World;
struct Body {
  World* w;
  int id;
  Body(World* w, int id) : w(w), id(id) { Count(1); }
  Body(const Body& o) : w(o.w), id(o.id) { Count(1); }
  Body(Body&& o) noexcept : w(o.w), id(o.id) { Count(1); }
  Body& operator=(const Body&) = delete;
  ~Body() { Count(-1); }
  void Count(int d);
  void operator()() const;
};

struct World {
  // scenario
  size_t max = 1;
  i64 keep_alive = kSec;
  i64 clock_base = 0;
  int clock_num = 1, clock_den = 1;
  std::vector<std::unique_ptr<Task>> tasks;
  std::vector<int> group_size, group_in;
  bool destroy_early = false;
  // state
  rst::ThreadPoolTaskRunner* pool = nullptr;
  uint64_t seq = 0;
  size_t running = 0, max_running = 0;
  int posted = 0, done = 0;
  bool released = false;
  bool destroyed = false;
  bool closing = false;
  int applies = 0;
  int in_apply = 0;
  std::string log;

  void Log(const char* what, int id) {
    if (opt.verbose || log.size() < 6000)
      log += Fmt("%s%d@%lld/T%d ", what, id, static_cast<long long>(vs::Now() - 1000000000000LL), vs::Self());
  }
  i64 Clock() const {
    const i64 t = vs::Now() - 1000000000000LL;
    return clock_base + t / clock_den * clock_num + t % clock_den * clock_num / clock_den;
  }
  Task& NewTask() {
    tasks.push_back(std::make_unique<Task>());
    tasks.back()->id = static_cast<int>(tasks.size()) - 1;
    return *tasks.back();
  }
  void Post(int id) {
    Task& t = *tasks[static_cast<size_t>(id)];
    VH_CHECK(!t.posted, "harness", "task posted twice");
    t.posted = true;
    posted++;
    t.poster = vs::Self();
    Body b(this, id);
    std::function<void()> f(std::move(b));
    Log("post", id);
    t.lo = Clock();
    t.call_seq = ++seq;
    if (t.delay == 0 && id % 2 == 0) pool->PostTask(std::move(f));
    else pool->PostDelayedTask(std::move(f), nanoseconds(t.delay));
    t.ret_seq = ++seq;
    t.hi = Clock();
  }
  void Apply(size_t n, bool meet);
  void Run(const Act& a) {
    switch (a.kind) {
      case Act::kPoint: vs::Point(); break;
      case Act::kSleep: vs::Sleep(a.ns); break;
      case Act::kPost: Post(a.arg); break;
      case Act::kApply: Apply(static_cast<size_t>(a.arg), a.ns != 0); break;
      case Act::kMeet: {
        const auto g = static_cast<size_t>(a.arg);
        group_in[g]++;
        const std::function<bool()> p = [this, g] { return group_in[g] >= group_size[g] || closing; };
        if (!vs::WaitFor(p, kHorizon / 2))
          Fail("C03.progress", Fmt("%d of %d tasks that wait for each other have started, limit %zu, %zu running; %s",
                                   group_in[g], group_size[g], max, running, log.c_str()));
        break;
      }
      case Act::kPlug: {
        const std::function<bool()> p = [this] { return released || closing; };
        if (!vs::WaitFor(p, 20 * kDay)) Fail("harness", "plug not released");
        break;
      }
    }
  }
  void Enter() {
    running++;
    if (running > max_running) max_running = running;
    VH_CHECK(running <= max, "C03.limit", "%zu task bodies run at once, limit %zu; %s", running, max, log.c_str());
    VH_CHECK(!destroyed, "C04.late", "a task starts after the pool was destroyed; %s", log.c_str());
  }
};

void Body::Count(int d) {
  Task& t = *w->tasks[static_cast<size_t>(id)];
  t.live += d;
  if (t.live != 0 || !t.ends || t.post_on_release < 0) return;
  // The callable is released by its worker, which can still post.
  const int next = t.post_on_release;
  t.post_on_release = -1;
  VH_CHECK(!w->destroyed, "C04.late", "the callable of task %d is released after the pool was destroyed; %s", t.id, w->log.c_str());
  w->Log("release", t.id);
  w->Post(next);
  w->done++;
  Stat("posts_on_release");
}

void Body::operator()() const {
  World& W = *w;
  Task& t = *W.tasks[static_cast<size_t>(id)];
  W.Log("run", t.id);
  t.start_seq = ++W.seq;
  t.starts++;
  VH_CHECK(t.starts == 1, "C01.twice", "task %d starts for the %d-th time; %s", t.id, t.starts, W.log.c_str());
  const i64 now = W.Clock();
  VH_CHECK(t.far ? false : now - t.lo >= t.delay, "C02.early",
           "task %d with delay %lld starts %lld ns after its post; %s", t.id, static_cast<long long>(t.delay),
           static_cast<long long>(now - t.lo), W.log.c_str());
  W.Enter();
  for (const Act& a : t.acts) W.Run(a);
  VH_CHECK(!W.destroyed, "C04.running", "the pool was destroyed while task %d runs; %s", t.id, W.log.c_str());
  W.running--;
  t.ends++;
  if (t.post_on_release < 0) W.done++;
  W.Log("end", t.id);
}

// One synchronous apply call with its monitor.
struct ApplyState {
  std::vector<int> calls;
  size_t started = 0, ended = 0;
  int live = 0;
};
struct ApplyBody {
  World* w;
  std::shared_ptr<ApplyState> s;
  bool meet;
  void operator()(size_t i) const {
    VH_CHECK(i < s->calls.size(), "C05.index", "apply called with index %zu of %zu", i, s->calls.size());
    VH_CHECK(s->calls[i] == 0, "C05.twice", "apply called twice with index %zu of %zu; %s", i, s->calls.size(), w->log.c_str());
    s->calls[i]++;
    s->started++;
    if (w->pool) w->Enter();
    if (meet) {
      const std::function<bool()> p = [this] { return s->started == s->calls.size(); };
      if (!vs::WaitFor(p, kHorizon / 2))
        Fail("C03.progress", Fmt("%zu of %zu iterations that wait for each other have started, limit %zu, %zu running; %s",
                                 s->started, s->calls.size(), w->max, w->running, w->log.c_str()));
    } else {
      const auto r = vs::Rand() % 4;
      if (r == 0) vs::Sleep(static_cast<i64>(vs::Rand() % (10 * kMs)));
      else if (r == 1) vs::Point();
    }
    if (w->pool) w->running--;
    s->ended++;
  }
};
void World::Apply(size_t n, bool meet) {
  applies++;
  in_apply++;
  auto s = std::make_shared<ApplyState>();
  s->calls.resize(n);
  Log("apply", static_cast<int>(n));
  pool->ApplyTaskSync(ApplyBody{this, s, meet}, n);
  Log("applied", static_cast<int>(n));
  VH_CHECK(s->ended == n, "C05.early", "apply returned after %zu of %zu iterations (%zu started); %s", s->ended, n,
           s->started, log.c_str());
  for (size_t i = 0; i < n; i++)
    VH_CHECK(s->calls[i] == 1, "C05.count", "apply called index %zu of %zu %d times", i, n, s->calls[i]);
  in_apply--;
  Stat("applies");
}

bool kC01, kC02, kC03, kC04, kC05;

i64 PickDelay(Rng& r) {
  switch (r.Below(12)) {
    case 10: {  // any magnitude, no round number
      const i64 top = i64{1} << r.In(1, 45);
      return r.In(top / 2 + 1, top);
    }
    case 11: {  // next to a round number
      static const std::vector<i64> round = {1000, kMs, 10 * kMs, 20 * kMs, kSec, 5 * kSec, 60 * kSec, 3600 * kSec};
      const i64 d = r.Pick(round);
      return std::max<i64>(1, d + (r.Chance(1, 2) ? r.In(-1, 1) : r.In(-d / 900, d / 900)));
    }
    case 0: return 1;
    case 1: return r.In(1, 100);
    case 2: return r.In(1, kMs);
    case 3: case 4: case 5: return r.In(1, 20) * kMs;  // ties are likely
    case 6: return r.In(1, 5) * kSec;
    case 7: return r.In(1, 40) * 60 * kSec;
    case 8: return 10 * kMs;
    default: return 20 * kMs;
  }
}

void GenActs(World& w, Rng& r, Task& t, int depth);

int GenTask(World& w, Rng& r, int depth) {
  Task& t = w.NewTask();
  const int id = t.id;
  if (r.Chance(kC02 ? 7 : 4, 10)) t.delay = PickDelay(r);
  GenActs(w, r, t, depth);
  if (depth < 2 && w.tasks.size() < 26 && r.Chance(1, 10)) t.post_on_release = GenTask(w, r, depth + 1);
  return id;
}
void GenActs(World& w, Rng& r, Task& t, int depth) {
  const auto n = r.Below(3);
  std::vector<Act> acts;
  for (uint64_t i = 0; i < n; i++) {
    Act a;
    switch (r.Below(5)) {
      case 0: a.kind = Act::kSleep; a.ns = r.In(0, 30) * kMs; break;
      case 1: a.kind = Act::kSleep; a.ns = r.In(0, 3) * (w.keep_alive % (100 * kSec)); break;
      case 2: case 3:
        if (depth < 2 && w.tasks.size() < 26) {
          a.kind = Act::kPost;
          // Taking the reference again: GenTask may grow the vector of pointers only.
          a.arg = GenTask(w, r, depth + 1);
          break;
        }
        [[fallthrough]];
      default: a.kind = Act::kPoint;
    }
    acts.push_back(a);
  }
  t.acts = acts;
}

void CheckOrder(World& w) {
  if (w.max != 1) return;
  for (auto& pa : w.tasks) {
    Task& a = *pa;
    if (!a.posted || a.far) continue;
    for (auto& pb : w.tasks) {
      Task& b = *pb;
      if (&a == &b || !b.starts || b.far) continue;
      bool must = false;
      if (a.delay == 0 && b.delay == 0) {
        must = a.ret_seq < b.call_seq;
        if (must) Stat("ordered_immediate_pairs");
      } else if (a.delay > 0 && b.delay > 0) {
        const i64 a_hi = a.hi + a.delay, b_lo = b.lo + b.delay;
        if (a.hi < b_lo) {
          if (a_hi < b_lo) must = true;
          else if (a_hi == b_lo && a.ret_seq < b.call_seq) { must = true; Stat("equal_due_pairs"); }
        }
        if (must) Stat("ordered_delayed_pairs");
      }
      if (must && (!a.starts || a.start_seq > b.start_seq))
        Fail("C02.order", Fmt("task %d (delay %lld) %s task %d (delay %lld); %s", b.id, static_cast<long long>(b.delay),
                              "starts before", a.id, static_cast<long long>(a.delay), w.log.c_str()));
    }
  }
}

void Case(uint64_t index, Rng& r) {
  World w;
  w.max = kC02 ? (r.Chance(4, 5) ? 1 : r.Below(3) + 1) : r.Below(4) + 1;
  static const std::vector<i64> keeps = {1, 1000, kMs, 10 * kMs, 20 * kMs, kSec, 60 * kSec, 3600 * kSec};
  w.keep_alive = r.Pick(keeps);
  if (r.Chance(1, 30)) w.keep_alive = nanoseconds::max().count() - r.In(0, 3);
  static const std::vector<i64> bases = {0, 0, 1, -5 * kSec, 1700000000 * kSec, -kDay, 1000 * kSec};
  w.clock_base = r.Pick(bases);
  if (r.Chance(1, 5)) { w.clock_num = 1; w.clock_den = static_cast<int>(r.In(2, 3)); }
  else if (r.Chance(1, 8)) { w.clock_num = 3; w.clock_den = 2; }
  const bool huge_delays = r.Chance(1, 25);

  // Posters.
  const int phases = static_cast<int>(r.In(1, 3));
  struct Phase {
    std::vector<std::vector<Act>> threads;  // [0] is the main thread
    i64 pause = 0;
    bool wait_done = false;
    bool meet = false;
    int group = -1;
  };
  std::vector<Phase> plan;
  for (int p = 0; p < phases; p++) {
    Phase ph;
    const auto posters = r.Below(3) + 1;
    const bool meet = r.Chance(kC03 ? 7 : 2, 10) && !(kC04 && p == phases - 1);
    for (uint64_t q = 0; q < posters; q++) {
      std::vector<Act> acts;
      const auto n = r.Below(kC03 ? 3 : 5) + (posters == 1 ? 1 : 0);
      for (uint64_t k = 0; k < n; k++) {
        Act a;
        if (r.Chance(1, 6)) { a.kind = Act::kSleep; a.ns = r.Chance(1, 2) ? w.keep_alive % (4000 * kSec) + r.In(-1, 1) : r.In(0, 30) * kMs; if (a.ns < 0) a.ns = 0; }
        else if (r.Chance(kC05 ? 3 : 1, kC05 ? 4 : 12)) {
          a.kind = Act::kApply;
          a.arg = static_cast<int>(r.In(1, r.Chance(1, 4) ? 12 : 5));
        } else {
          a.kind = Act::kPost;
          a.arg = GenTask(w, r, 0);
        }
        acts.push_back(a);
      }
      ph.threads.push_back(acts);
    }
    if (meet) {
      // Tasks that wait for each other: at most |max| in all.
      ph.meet = true;
      if (w.max > 1 && r.Chance(1, 4)) {
        Act a;
        a.kind = Act::kApply;
        a.ns = 1;
        a.arg = static_cast<int>(r.In(2, static_cast<i64>(w.max)));
        auto& v = ph.threads[r.Below(posters)];
        v.insert(v.begin() + static_cast<long>(r.Below(v.size() + 1)), a);
      } else {
        ph.group = static_cast<int>(w.group_size.size());
        w.group_size.push_back(static_cast<int>(r.In(1, static_cast<i64>(w.max))));
        w.group_in.push_back(0);
        const i64 common = r.Chance(1, 3) ? PickDelay(r) : -1;
        const bool immediate = r.Chance(1, 2);
        for (int k = 0; k < w.group_size.back(); k++) {
          Task& t = w.NewTask();
          t.delay = immediate ? 0 : common >= 0 ? common : r.Chance(1, 2) ? 0 : PickDelay(r);
          Act m;
          m.kind = Act::kMeet;
          m.arg = ph.group;
          t.acts.push_back(m);
          Act a;
          a.kind = Act::kPost;
          a.arg = t.id;
          auto& v = ph.threads[r.Below(posters)];
          v.insert(v.begin() + static_cast<long>(r.Below(v.size() + 1)), a);
        }
      }
    }
    ph.wait_done = ph.meet || r.Chance(1, 3);
    if (r.Chance(1, 2)) ph.pause = r.Chance(1, 2) ? w.keep_alive % (4000 * kSec) + r.In(-1, 1) : r.In(0, 40) * kMs;
    if (ph.pause < 0) ph.pause = 0;
    plan.push_back(std::move(ph));
  }
  if (huge_delays) {
    const auto n = r.In(1, 2);
    for (i64 k = 0; k < n; k++) {
      Task& t = w.NewTask();
      t.far = true;
      t.delay = r.Chance(1, 2) ? nanoseconds::max().count() - r.In(0, 2) : nanoseconds::max().count() / r.In(1, 4) - r.In(0, kDay);
      Act a;
      a.kind = Act::kPost;
      a.arg = t.id;
      auto& v = plan[0].threads[0];
      v.insert(v.begin() + static_cast<long>(r.Below(v.size() + 1)), a);
    }
  }
  const bool plugs = kC03 && r.Chance(1, 2);
  w.destroy_early = r.Chance(kC04 ? 9 : 2, 10) && !plugs;
  const i64 destroy_pause = r.Chance(1, 3) ? 0 : r.Chance(1, 2) ? r.In(0, 40) * kMs : r.Chance(1, 2) ? w.keep_alive % (100 * kSec) : r.In(0, 10);

  const bool slow_clock = r.Chance(1, 2);
  vs::Config cfg;
  cfg.seed = r.U64();
  cfg.fine = r.Chance(2, 3);
  static const std::vector<i64> jumps = {0, kMs, 30 * kMs, kSec};
  cfg.max_jump_ns = r.Pick(jumps);
  cfg.on_stuck = [&w](const std::string& why) {
    int waiting = 0;
    for (auto& t : w.tasks) if (t->posted && !t->starts && !t->far) waiting++;
    const char* key = w.destroyed ? "C04.hang" : w.closing ? "C04.hang" : w.in_apply ? "C05.hang" : waiting ? "C01.lost" : "C01.stuck";
    Fail(key, Fmt("stuck: %s; %d posted, %d done, %d never started, %d inside apply, limit %zu; %s", why.c_str(), w.posted, w.done,
                  waiting, w.in_apply, w.max, w.log.c_str()));
  };

  // Nothing can happen any more without time passing.
  cfg.on_idle = [&w](i64 now, i64 next) {
    if (next - now < kSec || w.destroyed || !w.pool) return;
    if (w.closing) {
      if (w.running == 0)
        Fail("C04.hang", Fmt("the destruction of the pool goes on only when a wait of %lld s ends although no task runs; %s",
                             static_cast<long long>((next - now) / kSec), w.log.c_str()));
      return;
    }
    if (w.running >= w.max || w.clock_num != 1 || w.clock_den != 1) return;
    const i64 clock = w.Clock();
    for (auto& t : w.tasks)
      if (t->ret_seq && !t->starts && !t->far && t->hi <= clock - t->delay)
        Fail(w.running ? "C03.unused" : "C01.late",
             Fmt("task %d (delay %lld) is due and %zu of %zu allowed tasks run, but nothing happens for %lld s; %s", t->id,
                 static_cast<long long>(t->delay), w.running, w.max, static_cast<long long>((next - now) / kSec), w.log.c_str()));
    Stat("idle_states_checked");
  };

  auto expected_done = [&w] {
    int n = 0;
    for (auto& t : w.tasks) if (t->posted && !t->far) n++;
    return n;
  };
  const vs::Result res = vs::Run(cfg, [&] {
    auto pool = std::make_unique<rst::ThreadPoolTaskRunner>(
        w.max, [&w, slow_clock] {
          if (slow_clock && vs::Active()) vs::Point();
          return nanoseconds(w.Clock());
        }, nanoseconds(w.keep_alive));
    w.pool = pool.get();
    const std::function<bool()> all_done = [&] { return w.done == expected_done(); };
    const std::function<bool()> all_released = [&] {
      if (w.done != expected_done()) return false;
      for (auto& t : w.tasks) if (!t->far && t->live) return false;
      return true;
    };
    auto wait_all = [&](const char* when) {
      if (!vs::WaitFor(all_done, kHorizon)) {
        std::string miss;
        for (auto& t : w.tasks) if (t->posted && !t->far && !t->ends) miss += Fmt(" %d(delay %lld%s)", t->id, static_cast<long long>(t->delay), t->starts ? ", started" : "");
        Fail("C01.lost", Fmt("tasks%s are not run %s although nothing else happens; limit %zu, keep-alive %lld; %s", miss.c_str(), when,
                             w.max, static_cast<long long>(w.keep_alive), w.log.c_str()));
      }
      if (!vs::WaitFor(all_released, kHorizon)) {
        std::string miss;
        for (auto& t : w.tasks) if (!t->far && t->live) miss += Fmt(" %d(%d copies)", t->id, t->live);
        Fail("C01.unreleased", Fmt("callables of%s are still alive after they ran; %s", miss.c_str(), w.log.c_str()));
      }
    };
    for (size_t pi = 0; pi < plan.size(); pi++) {
      Phase& ph = plan[pi];
      std::vector<std::thread> th;
      for (size_t q = 1; q < ph.threads.size(); q++)
        th.emplace_back([&w, &ph, q] { for (const Act& a : ph.threads[q]) w.Run(a); });
      for (const Act& a : ph.threads[0]) w.Run(a);
      for (auto& t : th) t.join();
      if (ph.wait_done) wait_all("in time");
      if (ph.pause) vs::Sleep(ph.pause);
    }
    if (plugs) {
      wait_all("before the plugs");
      // Tasks that never finish: the pool has to use its whole limit.
      w.released = false;
      const size_t n = static_cast<size_t>(r.In(1, static_cast<i64>(w.max) + 2));
      const size_t before = w.running;
      VH_CHECK(before == 0, "harness", "running");
      std::vector<int> ids;
      for (size_t k = 0; k < n; k++) {
        Task& t = w.NewTask();
        t.delay = r.Chance(1, 3) ? PickDelay(r) : 0;
        Act a;
        a.kind = Act::kPlug;
        t.acts.push_back(a);
        ids.push_back(t.id);
      }
      for (int id : ids) {
        w.Post(id);
        if (r.Chance(1, 3)) vs::Sleep(r.In(0, 2) * (w.keep_alive % (100 * kSec)));
      }
      const size_t want = std::min(n, w.max);
      const std::function<bool()> full = [&] { return w.running >= want; };
      if (!vs::WaitFor(full, kHorizon))
        Fail("C03.unused", Fmt("%zu of %zu due tasks run, limit %zu, and nothing else happens; %s", w.running, n, w.max, w.log.c_str()));
      w.released = true;
      wait_all("after the plugs");
      Stat("plug_phases");
    }
    if (!w.destroy_early) wait_all("at the end");
    else {
      if (destroy_pause) vs::Sleep(destroy_pause);
      if (w.in_apply) Fail("harness", "in apply");
    }
    size_t pending = 0;
    for (auto& t : w.tasks) if (t->posted && !t->starts) pending++;
    Stat("destroy_with_pending", pending != 0);
    Stat("destroy_with_running", w.running != 0);
    w.closing = true;
    w.Log("destroy", 0);
    pool.reset();
    w.destroyed = true;
    w.Log("destroyed", 0);
    VH_CHECK(w.running == 0, "C04.running", "%zu tasks still run after the pool was destroyed; %s", w.running, w.log.c_str());
    for (auto& t : w.tasks) {
      VH_CHECK(t->starts == t->ends, "C04.running", "task %d was started but not finished; %s", t->id, w.log.c_str());
      VH_CHECK(t->live == 0, "C04.leak", "task %d (%s) still has %d copies after the pool was destroyed; %s", t->id,
               t->starts ? "run" : "not run", t->live, w.log.c_str());
    }
    w.pool = nullptr;
  });
  for (auto& t : w.tasks) {
    VH_CHECK(t->starts == t->ends, "C04.late", "task %d", t->id);
    VH_CHECK(t->posted || !t->starts, "C01.unposted", "task %d", t->id);
  }
  CheckOrder(w);
  Stat("tasks_posted", static_cast<uint64_t>(w.posted));
  Stat("tasks_run", static_cast<uint64_t>(w.done));
  Stat("sched_points", res.points);
  Stat("switches", res.switches);
  Stat("preemptions_at_memory_accesses", res.mem_points);
  Stat("timeouts", res.timeouts);
  Stat("spurious_wakeups", res.spurious);
  Stat("threads", res.threads);
  if (w.max_running == w.max) Stat("runs_reaching_the_limit");
  if (w.done > 1 && res.switches > 4) Distinct(res.trace_hash ^ Mix(index));
  if (index % 500 == 3 || opt.only >= 0) Sample(Fmt("case %llu: limit %zu keep-alive %lld, %d tasks, %llu points: %s",
                                   static_cast<unsigned long long>(index), w.max, static_cast<long long>(w.keep_alive), w.posted,
                                   static_cast<unsigned long long>(res.points), w.log.substr(0, 900).c_str()));
  Obs(Fmt("%d %d", w.posted, w.destroy_early ? -1 : w.done));
}

// Synchronous apply on a polling runner and on runners of our own.
class InlineRunner : public rst::TaskRunner {
 public:
  explicit InlineRunner(size_t threads) : threads_(threads) {}
  ~InlineRunner() override { Join(); }
  void Join() {
    for (auto& t : th_) t.join();
    th_.clear();
  }

 private:
  void PostDelayedTaskWithIterations(std::function<void()>&& task, nanoseconds delay, size_t iterations) override {
    VH_CHECK(delay.count() == 0, "C05.delay", "apply posts with a delay");
    if (threads_ == 0) {
      for (size_t i = 0; i < iterations + 1; i++) task();
      return;
    }
    struct Sh { std::function<void()> f; size_t left; };
    auto left = std::make_shared<size_t>(iterations + 1);
    for (size_t k = 0; k < threads_; k++)
      th_.emplace_back([left, task] {
        while (*left > 0) {
          --*left;
          task();
          vs::Point();
        }
      });
  }
  size_t threads_;
  std::vector<std::thread> th_;
};

void ApplyCase(uint64_t index, Rng& r) {
  World w;
  w.max = 1000;
  vs::Config cfg;
  cfg.seed = r.U64();
  cfg.fine = true;
  bool in_apply = false;
  cfg.on_stuck = [&](const std::string& why) {
    Fail(in_apply ? "C05.hang" : "C05.stuck", "stuck in apply: " + why);
  };
  const bool polling = r.Chance(1, 2);
  const auto callers = r.Below(3) + 1;
  const auto threads = r.Below(4);
  std::vector<size_t> ns;
  for (uint64_t i = 0; i < callers; i++) ns.push_back(r.Below(r.Chance(1, 5) ? 20 : 5) + 1);
  const vs::Result res = vs::Run(cfg, [&] {
    size_t finished = 0;
    auto call = [&](rst::TaskRunner* runner, size_t n) {
      auto s = std::make_shared<ApplyState>();
      s->calls.resize(n);
      std::vector<uint64_t> data(n);
      ApplyBody b{&w, s, false};
      in_apply = true;
      runner->ApplyTaskSync([b, &data](size_t i) { b(i); data[i] = i * 7 + 1; }, n);
      VH_CHECK(s->ended == n, "C05.early", "apply returned after %zu of %zu iterations", s->ended, n);
      for (size_t i = 0; i < n; i++) {
        VH_CHECK(s->calls[i] == 1, "C05.count", "apply called index %zu of %zu %d times", i, n, s->calls[i]);
        VH_CHECK(data[i] == i * 7 + 1, "C05.data", "result of index %zu lost", i);
      }
      finished++;
      Stat("applies");
    };
    if (polling) {
      rst::PollingTaskRunner runner([] { return nanoseconds(vs::Now()); });
      std::vector<std::thread> th;
      for (size_t n : ns) th.emplace_back([&, n] { call(&runner, n); });
      while (finished < ns.size()) {
        runner.RunPendingTasks();
        vs::Sleep(1000);
      }
      for (auto& t : th) t.join();
    } else {
      InlineRunner runner(threads);
      for (size_t n : ns) { call(&runner, n); runner.Join(); }
    }
  });
  Distinct(res.trace_hash ^ Mix(index * 3 + 1));
  Stat("sched_points", res.points);
}

}  // namespace

int main(int argc, char** argv) {
  Init(argc, argv);
  kC01 = opt.mode == "c01"; kC02 = opt.mode == "c02"; kC03 = opt.mode == "c03";
  kC04 = opt.mode == "c04"; kC05 = opt.mode == "c05";
  ForCases([](uint64_t i, Rng& r) {
    if (kC05 && i % 3 == 0) ApplyCase(i, r);
    else Case(i, r);
  }, 11);
  Flush();
}
