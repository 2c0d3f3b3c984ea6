// Long histories and large numbers on real threads: many posts, iterations,
// waiters, workers and count-downs, with exact expectations (C01-C05, C07).
#define VH_DEFINE_ASSERT 1
#include "vh.h"

#include <sched.h>
#include <time.h>

#include <algorithm>
#include <atomic>
#include <chrono>
#include <functional>
#include <memory>
#include <mutex>
#include <numeric>
#include <string>
#include <thread>
#include <vector>

#include "rst/task_runner/polling_task_runner.h"
#include "rst/task_runner/thread_pool_task_runner.h"
#include "rst/threading/barrier.h"

using namespace vh;
using std::chrono::nanoseconds;
using i64 = int64_t;

namespace {

void Nap(i64 us) { timespec t{us / 1000000, static_cast<long>(us % 1000000 * 1000)}; nanosleep(&t, nullptr); }
nanoseconds RealNow() { return std::chrono::steady_clock::now().time_since_epoch(); }
const nanoseconds kMinute = std::chrono::seconds(60);

// Waits for what has to happen without any further call.
template <class F>
void Await(F&& done, const char* key, const std::string& what) {
  const auto end = RealNow() + std::chrono::seconds(60);
  for (int i = 0; !done(); i++) {
    if (RealNow() > end) Fail(key, what);
    if (i < 100) sched_yield(); else Nap(200);
  }
}

// Round numbers and their neighbours, the large ones rarely.
size_t Size(Rng& r) {
  static const std::vector<size_t> small = {1, 2, 16, 64, 127, 128, 129, 255, 256, 257, 300, 511, 513, 1000, 1023, 1025};
  static const std::vector<size_t> large = {4095, 4097, 32767, 32769, 65535, 65536, 65537, 66000};
  return r.Chance(1, 6) ? r.Pick(large) : r.Pick(small);
}

// One worker: immediate tasks in posting order, delayed ones in due order.
void Order(uint64_t index, Rng& r) {
  std::atomic<i64> clock{r.Chance(1, 2) ? 0 : 1700000000000000000};
  const size_t n = Size(r);
  const size_t before = r.Chance(1, 3) ? Size(r) % 70000 : 0;  // run before the part that is checked
  const bool immediate = r.Chance(1, 3);
  const i64 dues = r.Chance(1, 3) ? 1 : r.In(2, 50);
  std::vector<size_t> ran;
  ran.reserve(n);
  std::atomic<size_t> count{0};
  std::vector<std::pair<i64, size_t>> want;
  auto pool = std::make_unique<rst::ThreadPoolTaskRunner>(1, [&clock] { return nanoseconds(clock.load()); }, kMinute);
  std::atomic<size_t> warm{0};
  for (size_t i = 0; i < before; i++) {
    if (immediate) pool->PostTask([&warm] { warm++; });
    else pool->PostDelayedTask([&warm] { warm++; }, nanoseconds(1));
  }
  if (before) {
    clock += 1;
    if (!immediate) pool->PostDelayedTask([] {}, nanoseconds(1));
    Await([&] { return warm == before; }, "C01.lost", Fmt("%zu of %zu tasks run", warm.load(), before));
    clock += 1;
  }
  const i64 base = clock;
  for (size_t i = 0; i < n; i++) {
    const i64 d = immediate ? 0 : 100 + r.In(0, dues - 1);
    want.push_back({d, i});
    auto f = [&, i, d] {
      VH_CHECK(clock - base >= d, "C02.early", "task %zu runs at +%lld instead of +%lld", i, static_cast<long long>(clock - base), static_cast<long long>(d));
      ran.push_back(i);
      count++;
    };
    if (immediate) pool->PostTask(f);
    else pool->PostDelayedTask(f, nanoseconds(d));
  }
  if (!immediate) {
    clock += 100 + dues;
    pool->PostDelayedTask([] {}, nanoseconds(1));  // makes the service look at the clock
  }
  Await([&] { return count == n; }, "C01.lost", Fmt("%zu of %zu tasks run", count.load(), n));
  clock += 10;
  pool.reset();
  std::sort(want.begin(), want.end());
  for (size_t i = 0; i < n; i++)
    VH_CHECK(ran[i] == want[i].second, "C02.order", "%zu %s tasks on one worker after %zu others: the %zu-th to start is number %zu instead of %zu",
             n, immediate ? "immediate" : "delayed", before, i, ran[i], want[i].second);
  Stat("ordered_tasks", n);
  Distinct(Mix(Mix(n * 64 + static_cast<uint64_t>(dues)) + before) ^ immediate);
  if (index % 40 == 1) Sample(Fmt("%zu %s tasks, %lld due times, after %zu others", n, immediate ? "immediate" : "delayed", static_cast<long long>(dues), before));
}

// Everything posted runs once, and what it captured goes away.
void Counts(uint64_t, Rng& r) {
  const size_t n = Size(r) + 3;
  const size_t posters = static_cast<size_t>(r.In(1, 4));
  const size_t limit = static_cast<size_t>(r.In(1, 8));
  const i64 keep = r.Chance(1, 2) ? r.In(1000, 200000) : 60000000000;
  std::unique_ptr<std::atomic<int>[]> runs(new std::atomic<int>[n]());
  std::atomic<size_t> count{0};
  auto token = std::make_shared<int>(1);
  const uint64_t salt = r.U64();
  {
    rst::ThreadPoolTaskRunner pool(limit, RealNow, nanoseconds(keep));
    std::vector<std::thread> ts;
    for (size_t t = 0; t < posters; t++)
      ts.emplace_back([&, t] {
        for (size_t i = t; i < n; i += posters) {
          auto f = [&, i, token] { runs[i]++; count++; };
          const uint64_t h = Mix(salt + i);
          if (h % 4 == 0) pool.PostDelayedTask(f, nanoseconds(h / 4 % 100000 + 1));
          else pool.PostTask(f);
          if (h % 257 == 0) Nap(static_cast<i64>(h / 257 % 300));
        }
      });
    for (auto& t : ts) t.join();
    Await([&] { return count == n; }, "C01.lost", Fmt("%zu of %zu tasks run", count.load(), n));
    Await([&] { return token.use_count() == 1; }, "C01.released", Fmt("%ld callables are still alive", token.use_count() - 1));
  }
  for (size_t i = 0; i < n; i++) VH_CHECK(runs[i] == 1, "C01.once", "task %zu runs %d times", i, runs[i].load());
  Stat("counted_tasks", n);
  Distinct(Mix(n * 1000 + limit * 10 + posters) + (keep == 60000000000));
}

// As many tasks as allowed at the same time, and never more.
void Limit(uint64_t, Rng& r) {
  const size_t limit = static_cast<size_t>(r.Chance(1, 12) ? r.In(254, 300) : r.Chance(1, 3) ? r.In(17, 70) : r.In(1, 16));
  const int kind = static_cast<int>(r.Below(4));
  const bool warm = r.Chance(1, 2);
  std::atomic<i64> clock{0};
  std::atomic<size_t> in{0}, arrived{0}, most{0};
  rst::ThreadPoolTaskRunner pool(limit, [&clock] { return nanoseconds(clock.load()); }, kMinute);
  auto meet = [&](size_t all) {
    const size_t now = ++in;
    for (size_t m = most; now > m && !most.compare_exchange_weak(m, now);) {}
    arrived++;
    // Nobody leaves before |all| have come.
    Await([&] { return arrived >= all; }, "C03.progress", Fmt("only %zu of %zu tasks that wait for each other run, the limit is %zu", arrived.load(), all, limit));
    in--;
  };
  if (warm) {
    // Leaves some idle workers.
    const size_t k = 1 + r.Below(limit);
    for (size_t i = 0; i < k; i++) pool.PostTask([&, k] { meet(k); });
    Await([&] { return arrived == k && in == 0; }, "C03.progress", "the first tasks do not end");
    if (r.Chance(1, 2)) Nap(3000);
    arrived = 0;
  }
  std::string what;
  if (kind == 0) {
    what = "single posts";
    for (size_t i = 0; i < limit; i++) pool.PostTask([&] { meet(limit); });
  } else if (kind == 1) {
    what = "delayed posts";
    for (size_t i = 0; i < limit; i++) pool.PostDelayedTask([&] { meet(limit); }, nanoseconds(10 + static_cast<i64>(i % 3)));
    clock += 20;
    pool.PostDelayedTask([] {}, nanoseconds(1));
    Await([&] { return arrived >= limit; }, "C03.progress", Fmt("%zu of %zu due tasks that wait for each other run", arrived.load(), limit));
    clock += 20;
  } else if (kind == 2) {
    what = "one apply";
    pool.ApplyTaskSync([&](size_t) { meet(limit); }, limit);
  } else {
    what = "a mixture";
    for (size_t i = 0; i < limit / 2; i++) pool.PostTask([&] { meet(limit); });
    pool.ApplyTaskSync([&](size_t) { meet(limit); }, limit - limit / 2);
  }
  Await([&] { return arrived >= limit && in == 0; }, "C03.progress", Fmt("%zu of %zu tasks that wait for each other run, %s", arrived.load(), limit, what.c_str()));
  // More than the limit.
  std::atomic<size_t> ended{0};
  const size_t more = limit * 2 + r.Below(20);
  for (size_t i = 0; i < more; i++)
    pool.PostTask([&, i] {
      const size_t now = ++in;
      for (size_t m = most; now > m && !most.compare_exchange_weak(m, now);) {}
      if (i % 3 == 0) Nap(100); else sched_yield();
      in--;
      ended++;
    });
  Await([&] { return ended == more; }, "C01.lost", Fmt("%zu of %zu tasks run", ended.load(), more));
  VH_CHECK(most <= limit, "C03.limit", "%zu tasks run at the same time, the limit is %zu", most.load(), limit);
  Stat("meetings", 1);
  Stat("largest_meeting_sum", limit);
  Distinct(limit * 16 + static_cast<size_t>(kind) * 2 + warm);
  clock += 1000;
}

// Destruction with very many tasks left.
void Destroy(uint64_t, Rng& r) {
  const size_t n = Size(r);
  const size_t limit = static_cast<size_t>(r.In(1, 6));
  auto token = std::make_shared<int>(1);
  std::atomic<int> in{0};
  std::atomic<size_t> started{0};
  std::atomic<bool> gone{false};
  auto pool = std::make_unique<rst::ThreadPoolTaskRunner>(limit, RealNow, nanoseconds(r.Chance(1, 2) ? 60000000000 : r.In(1000, 100000)));
  for (size_t i = 0; i < n; i++) {
    auto f = [&, token, i] {
      VH_CHECK(!gone, "C04.late", "a task starts after the pool was destroyed");
      in++;
      started++;
      if (i % 64 == 0) Nap(20);
      in--;
    };
    if (i % 3 == 1) pool->PostDelayedTask(f, nanoseconds(i % 2 ? 1000 : 3600000000000));
    else pool->PostTask(f);
  }
  Nap(r.In(0, 400));
  pool.reset();
  gone = true;
  VH_CHECK(in == 0, "C04.running", "%d tasks still run after the pool was destroyed", in.load());
  VH_CHECK(token.use_count() == 1, "C04.dropped", "%ld callables survive the pool", token.use_count() - 1);
  const size_t s = started;
  Nap(300);
  VH_CHECK(s == started, "C04.late", "a task starts after the pool was destroyed");
  Stat("started", s);
  Stat("dropped", n - s);
  Distinct(n * 8 + limit);
}

void Apply(uint64_t, Rng& r) {
  const size_t n = r.Chance(1, 12) ? 65536 * static_cast<size_t>(r.In(1, 2)) + r.Below(4) : Size(r);
  std::vector<unsigned char> calls(n);  // different elements, so no data race as long as the indices differ
  bool bad = false;
  std::atomic<bool> returned{false};
  auto f = [&](size_t i) {
    if (i >= n) { bad = true; return; }
    VH_CHECK(!returned, "C05.late", "a call starts after apply returned");
    if (calls[i] < 3) calls[i]++;
  };
  const int kind = static_cast<int>(r.Below(2));
  if (kind == 0) {
    rst::ThreadPoolTaskRunner pool(static_cast<size_t>(r.In(1, 8)), RealNow, kMinute);
    pool.ApplyTaskSync(f, n);
    returned = true;
  } else {
    i64 clock = 0;
    rst::PollingTaskRunner runner([&clock] { return nanoseconds(clock); });
    std::atomic<bool> stop{false};
    std::thread t([&] { while (!stop) { runner.RunPendingTasks(); sched_yield(); } });
    runner.ApplyTaskSync(f, n);
    returned = true;
    stop = true;
    t.join();
  }
  VH_CHECK(!bad, "C05.index", "an index is not less than %zu", n);
  for (size_t i = 0; i < n; i++)
    VH_CHECK(calls[i] == 1, "C05.once", "index %zu of %zu is used %s", i, n, calls[i] ? "more than once" : "never");
  Stat("iterations", n);
  Distinct(n * 2 + static_cast<size_t>(kind));
}

void Barriers(uint64_t, Rng& r) {
  const size_t count = r.Chance(1, 2) ? Size(r) : static_cast<size_t>(r.In(1, 40));
  const size_t waiters = static_cast<size_t>(r.Chance(1, 3) ? r.In(9, 40) : r.In(1, 8));
  const size_t counters = std::min<size_t>(count, static_cast<size_t>(r.In(1, 4)));
  rst::Barrier barrier(count);
  std::vector<int> data(counters);
  std::atomic<size_t> released{0}, counted{0};
  std::vector<std::thread> ts;
  for (size_t w = 0; w < waiters; w++)
    ts.emplace_back([&] {
      barrier.Wait();
      VH_CHECK(counted == count, "C07.early", "a waiter returns after %zu of %zu count-downs", counted.load(), count);
      int sum = 0;
      for (int x : data) sum += x;
      VH_CHECK(sum == static_cast<int>(counters), "C07.visible", "a write before a count-down is not visible");
      released++;
    });
  if (r.Chance(1, 2)) Nap(500);
  for (size_t c = 0; c < counters; c++)
    ts.emplace_back([&, c] {
      const size_t mine = count / counters + (c < count % counters);
      for (size_t k = 0; k < mine; k++) {
        if (k + 1 == mine) data[c] = 1;
        counted++;
        barrier.CountDown();
      }
    });
  Await([&] { return released == waiters; }, "C07.stuck", Fmt("%zu of %zu waiters are released, count %zu", released.load(), waiters, count));
  barrier.Wait();  // later waiters return too
  for (auto& t : ts) t.join();
  {
    // Meeting of many threads that count down and wait.
    const size_t n = static_cast<size_t>(r.In(1, 24));
    rst::Barrier b(n);
    std::atomic<size_t> in{0}, out{0};
    std::vector<std::thread> th;
    for (size_t i = 0; i < n; i++)
      th.emplace_back([&] {
        in++;
        b.CountDownAndWait();
        VH_CHECK(in == n, "C07.early", "released after %zu of %zu threads came", in.load(), n);
        out++;
      });
    Await([&] { return out == n; }, "C07.stuck", Fmt("%zu of %zu threads are released", out.load(), n));
    for (auto& t : th) t.join();
  }
  Stat("released", waiters);
  Stat("count_downs", count);
  Distinct(count * 64 + waiters);
}

}  // namespace

int main(int argc, char** argv) {
  Init(argc, argv);
  const std::string& m = opt.mode;
  if (m == "c01") ForCases(Counts, 401);
  else if (m == "c02") ForCases(Order, 402);
  else if (m == "c03") ForCases(Limit, 403);
  else if (m == "c04") ForCases(Destroy, 404);
  else if (m == "c05") ForCases(Apply, 405);
  else if (m == "c07") ForCases(Barriers, 407);
  else return 3;
  Flush();
  return 0;
}
