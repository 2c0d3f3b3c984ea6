// PollingTaskRunner against a model: sequential histories and posts from
// several threads under the seeded scheduler (C06).
#define VH_DEFINE_ASSERT 1
#include "vh.h"
#include "vsched.h"

#include <algorithm>
#include <chrono>
#include <functional>
#include <memory>
#include <set>
#include <thread>
#include <vector>

#include "rst/task_runner/polling_task_runner.h"

using namespace vh;
using std::chrono::nanoseconds;
using i64 = int64_t;

namespace {

i64 PickDelay(Rng& r) {
  switch (r.Below(14)) {
    case 12: return r.In(0, i64{1} << r.In(1, 60));
    case 13: {  // next to a round number
      static const std::vector<i64> round = {1000, 1000000, 1000000000, 60000000000, 86400000000000};
      const i64 d = r.Pick(round);
      return d + (r.Chance(1, 2) ? r.In(-1, 1) : r.In(-d / 900, d / 900));
    }
    case 0: case 1: case 2: return 0;
    case 3: return 1;
    case 4: case 5: case 6: return r.In(0, 6);
    case 7: return r.In(0, 100) * 10;
    case 8: return r.In(0, 1000000000);
    case 9: return nanoseconds::max().count() - r.In(0, 3);
    default: return r.In(0, 20);
  }
}
i64 Due(i64 now, i64 delay) {
  const __int128 d = static_cast<__int128>(now) + delay;
  return d > INT64_MAX ? INT64_MAX : static_cast<i64>(d);
}

struct PTask { i64 due; uint64_t seq; int id; };

// Every post, the polls and what they ran are known exactly.
void SeqCase(uint64_t index, Rng& r) {
  static const std::vector<i64> bases = {0, 0, 0, 1, -1000, 1700000000000000000, -5000000000, 100};
  i64 clock = r.Pick(bases);
  uint64_t clock_reads = 0;
  auto owned = std::make_unique<rst::PollingTaskRunner>([&] { clock_reads++; return nanoseconds(clock); });
  rst::PollingTaskRunner& runner = *owned;
  std::vector<PTask> pending;
  // Callables not yet released, and those to which a post belongs at their release.
  std::set<int> alive;
  bool going = false;
  std::vector<int> ran, expect;
  std::vector<int> runs;
  std::string log;
  uint64_t seq = 0;
  int next_id = 0;
  bool polling = false;
  uint64_t h = 1;
  size_t nested = 0, reordered = 0, ties = 0;
  auto stamp = [&](const std::string& s) { if (log.size() < 5000) log += s; h = HashStr(s, h); };
  std::function<void(int)> post = [&](int depth) {
    const int id = next_id++;
    runs.push_back(0);
    const i64 delay = PickDelay(r);
    pending.push_back({Due(clock, delay), seq++, id});
    stamp(Fmt("post%d(+%lld) ", id, static_cast<long long>(delay)));
    if (polling) nested++;
    const int kids = depth < 3 && r.Chance(1, 3) ? static_cast<int>(r.In(1, 2)) : 0;
    const i64 adv = r.Chance(1, 6) ? r.In(0, 30) : 0;
    alive.insert(id);
    const bool post_on_release = depth < 3 && r.Chance(1, 12);
    auto token = std::shared_ptr<int>(new int(id), [&, depth, post_on_release](int* p) {
      const int me = *p;
      delete p;
      alive.erase(me);
      if (!runs[static_cast<size_t>(me)]) VH_CHECK(going, "C06.dropped", "the callable of task %d is released although it has not run; %s", me, log.c_str());
      if (post_on_release && polling) { stamp(Fmt("release%d ", me)); post(depth + 1); }
    });
    std::function<void()> f = [&, token, kids, adv, depth] {
      const int me = *token;
      VH_CHECK(polling, "C06.outside", "task %d runs outside a poll; %s", me, log.c_str());
      runs[static_cast<size_t>(me)]++;
      VH_CHECK(runs[static_cast<size_t>(me)] == 1, "C06.twice", "task %d runs twice; %s", me, log.c_str());
      ran.push_back(me);
      stamp(Fmt("run%d ", me));
      clock += adv;
      for (int k = 0; k < kids; k++) post(depth + 1);
    };
    if (delay == 0 && r.Chance(1, 2)) runner.PostTask(std::move(f));
    else runner.PostDelayedTask(std::move(f), nanoseconds(delay));
  };
  // Some programs start after a long history, just before the number of posts reaches a round binary number.
  if (r.Chance(1, 60)) {
    const uint64_t round = r.Chance(1, 4) ? 65536 : uint64_t{1} << r.In(6, 12);
    const uint64_t n = round - std::min<uint64_t>(round, r.Below(24));
    uint64_t filled = 0;
    const uint64_t chunk = r.Chance(1, 2) ? n : 1000;
    for (uint64_t k = 0; k < n; k++) {
      runner.PostDelayedTask([&] { filled++; }, nanoseconds(0));
      if ((k + 1) % chunk == 0 || k + 1 == n) runner.RunPendingTasks();
    }
    VH_CHECK(filled == n, "C06.history", "%llu of %llu tasks run", static_cast<unsigned long long>(filled), static_cast<unsigned long long>(n));
    stamp(Fmt("history%llu ", static_cast<unsigned long long>(n)));
    Stat("history_posts", n);
  }
  const auto ops = r.In(3, r.Chance(1, 10) ? 120 : 30);
  for (i64 o = 0; o < ops; o++) {
    switch (r.Below(6)) {
      case 0: case 1: {
        const auto n = r.Chance(1, 8) ? r.In(5, r.Chance(1, 12) ? 1500 : 40) : 1;
        for (i64 k = 0; k < n; k++) post(0);
        break;
      }
      case 2: {
        const i64 d = r.Chance(1, 15) ? -r.In(0, 10) : r.Chance(1, 10) ? r.In(0, 1000000000) : r.In(0, 8);
        clock += d;
        stamp(Fmt("clock%+lld ", static_cast<long long>(d)));
        break;
      }
      case 3:
        if (!pending.empty()) {  // exactly to, or just before, a due time
          const i64 d = pending[r.Below(pending.size())].due;
          if (d > clock && d < INT64_MAX / 2 && (d < clock + 2000000000 || r.Chance(1, 2))) { clock = d - (r.Chance(1, 3) ? 1 : 0); stamp(Fmt("clock=%lld ", static_cast<long long>(clock))); }
        }
        [[fallthrough]];
      default: {
        std::vector<PTask> due, rest;
        for (auto& t : pending) (t.due <= clock ? due : rest).push_back(t);
        std::sort(due.begin(), due.end(), [](const PTask& a, const PTask& b) { return a.due != b.due ? a.due < b.due : a.seq < b.seq; });
        for (size_t i = 1; i < due.size(); i++) {
          if (due[i].seq < due[i - 1].seq) reordered++;
          if (due[i].due == due[i - 1].due) ties++;
        }
        pending = rest;
        ran.clear();
        stamp("poll{");
        polling = true;
        runner.RunPendingTasks();
        polling = false;
        stamp("} ");
        for (auto& t : due)
          VH_CHECK(!alive.count(t.id), "C06.unreleased", "the callable of task %d is still alive after the poll that ran it; %s", t.id, log.c_str());
        expect.clear();
        for (auto& t : due) expect.push_back(t.id);
        if (ran != expect) {
          std::string a, b;
          for (int x : ran) a += Fmt(" %d", x);
          for (int x : expect) b += Fmt(" %d", x);
          Fail("C06.poll", Fmt("a poll at %lld ran%s instead of%s; %s", static_cast<long long>(clock), a.c_str(), b.c_str(), log.c_str()));
        }
        Stat("polls");
        Stat("tasks_run", ran.size());
        break;
      }
    }
  }
  // The rest is dropped without being run.
  going = true;
  owned.reset();
  VH_CHECK(alive.empty(), "C06.unreleased", "%zu callables are alive after the runner was destroyed; %s", alive.size(), log.c_str());
  Stat("dropped_tasks", pending.size());
  Stat("posts_from_tasks", nested);
  Stat("reordered_pairs", reordered);
  Stat("equal_due_pairs", ties);
  Stat("clock_reads", clock_reads);
  if (next_id > 1) Distinct(h);
  if (index % 1000 == 1) Sample(log.substr(0, 700));
  Obs(log);
}

// Posts from several threads while the main thread polls.
void ConcCase(uint64_t index, Rng& r) {
  struct T { i64 delay = 0, lo = 0, hi = 0; uint64_t call = 0, ret = 0; int runs = 0; uint64_t start = 0; int poll = -1; };
  std::vector<T> tasks(r.In(2, 14));
  for (auto& t : tasks) t.delay = r.Chance(1, 2) ? 0 : r.In(0, 12);
  const auto posters = r.In(1, 3);
  std::vector<std::vector<size_t>> by(static_cast<size_t>(posters));
  for (size_t i = 0; i < tasks.size(); i++) by[r.Below(by.size())].push_back(i);
  const bool clock_thread = r.Chance(1, 2);
  const auto apply_threads = r.Chance(1, 4) ? 1 : 0;
  i64 clock = r.Chance(1, 3) ? -20 : 0;
  uint64_t seq = 0;
  bool polling = false;
  int poll_no = 0;
  std::string log;
  vs::Config cfg;
  cfg.seed = r.U64();
  cfg.fine = true;
  cfg.on_stuck = [&](const std::string& why) { Fail("C06.stuck", why + " " + log); };
  size_t overlap = 0;
  uint64_t rs = r.U64();
  const vs::Result res = vs::Run(cfg, [&] {
    Rng rr(rs);
    rst::PollingTaskRunner runner([&] { return nanoseconds(clock); });
    size_t posted = 0, applied = 0;
    auto post = [&](size_t i) {
      T& t = tasks[i];
      t.lo = clock;
      t.call = ++seq;
      log += Fmt("post%zu(+%lld) ", i, static_cast<long long>(t.delay));
      if (polling) overlap++;
      runner.PostDelayedTask([&, i] {
        T& t = tasks[i];
        VH_CHECK(polling, "C06.outside", "task %zu runs outside a poll; %s", i, log.c_str());
        t.runs++;
        VH_CHECK(t.runs == 1, "C06.twice", "task %zu runs twice; %s", i, log.c_str());
        VH_CHECK(clock - t.lo >= t.delay, "C06.early", "task %zu delay %lld runs at +%lld; %s", i, static_cast<long long>(t.delay),
                 static_cast<long long>(clock - t.lo), log.c_str());
        t.start = ++seq;
        t.poll = poll_no;
        log += Fmt("run%zu ", i);
        vs::Point();
      }, nanoseconds(t.delay));
      t.ret = ++seq;
      t.hi = clock;
      posted++;
    };
    std::vector<std::thread> th;
    for (auto& list : by) th.emplace_back([&, list] { for (size_t i : list) { post(i); if (vs::Rand() % 3 == 0) vs::Sleep(static_cast<i64>(vs::Rand() % 5)); } });
    if (clock_thread) th.emplace_back([&] { for (int k = 0; k < 12; k++) { clock += static_cast<i64>(vs::Rand() % 3); vs::Point(); } });
    for (int a = 0; a < apply_threads; a++)
      th.emplace_back([&] {
        std::vector<int> calls(3);
        runner.ApplyTaskSync([&](size_t i) { calls[i]++; VH_CHECK(polling, "C06.outside", "apply outside poll"); vs::Point(); }, 3);
        for (int c : calls) VH_CHECK(c == 1, "C06.apply", "iteration called %d times", c);
        applied++;
      });
    for (int k = 0; k < 300; k++) {
      // What this poll has to run.
      std::vector<size_t> must;
      for (size_t i = 0; i < tasks.size(); i++)
        if (tasks[i].ret && !tasks[i].runs && tasks[i].hi + tasks[i].delay <= clock) must.push_back(i);
      poll_no++;
      log += "poll{";
      polling = true;
      runner.RunPendingTasks();
      polling = false;
      log += "} ";
      for (size_t i : must)
        VH_CHECK(tasks[i].runs == 1, "C06.missed", "a poll does not run task %zu although it is due; %s", i, log.c_str());
      // The order within this poll.
      for (size_t i = 0; i < tasks.size(); i++)
        for (size_t j = 0; j < tasks.size(); j++) {
          const T &a = tasks[i], &b = tasks[j];
          if (i == j || a.poll != poll_no || b.poll != poll_no || !a.ret) continue;
          const i64 ah = a.hi + a.delay, bl = b.lo + b.delay;
          const bool first = ah < bl || (ah == bl && a.ret < b.call);
          VH_CHECK(!first || a.start < b.start, "C06.order", "task %zu runs before task %zu; %s", j, i, log.c_str());
        }
      size_t done = 0;
      for (auto& t : tasks) done += static_cast<size_t>(t.runs);
      if (done == tasks.size() && applied == static_cast<size_t>(apply_threads)) break;
      if (rr.Chance(1, 2)) clock += rr.In(0, 4);
      vs::Sleep(rr.In(0, 3));
      if (k == 299) Fail("C06.lost", Fmt("%zu of %zu tasks run; %s", done, tasks.size(), log.c_str()));
    }
    for (auto& t : th) t.join();
    polling = true;
    runner.RunPendingTasks();
  });
  for (auto& t : tasks) VH_CHECK(t.runs == 1, "C06.count", "task run %d times", t.runs);
  Stat("posts_during_a_poll", overlap);
  Stat("sched_points", res.points);
  Distinct(res.trace_hash ^ Mix(index));
  if (index % 1000 == 2) Sample(log.substr(0, 500));
}

}  // namespace

int main(int argc, char** argv) {
  Init(argc, argv);
  ForCases([](uint64_t i, Rng& r) {
    if (i % 2) SeqCase(i, r);
    else ConcCase(i, r);
  }, 6);
  Flush();
}
