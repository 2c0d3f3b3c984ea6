// Free-running threads over the thread-safe parts, with real time and injected
// delays: what is written on one side is plain memory on the other, so that
// ThreadSanitizer sees every missing ordering (C05, C07, C21) and
// AddressSanitizer every use of something already destroyed.
#define VH_DEFINE_ASSERT 1
#include "vh.h"

#include <sched.h>
#include <time.h>

#include <atomic>
#include <chrono>
#include <functional>
#include <memory>
#include <set>
#include <string>
#include <thread>
#include <vector>

#include "rst/bind/bind.h"
#include "rst/guid/guid.h"
#include "rst/logger/file_ptr_sink.h"
#include "rst/logger/logger.h"
#include "rst/memory/weak_ptr.h"
#include "rst/no_destructor/no_destructor.h"
#include "rst/not_null/not_null.h"
#include "rst/rtti/rtti.h"
#include "rst/status/status.h"
#include "rst/status/status_or.h"
#include "rst/strings/format.h"
#include "rst/strings/str_cat.h"
#include "rst/task_runner/polling_task_runner.h"
#include "rst/task_runner/thread_pool_task_runner.h"
#include "rst/threading/barrier.h"
#include "rst/value/value.h"

using namespace vh;
using std::chrono::nanoseconds;

namespace {

nanoseconds Now() { return std::chrono::steady_clock::now().time_since_epoch(); }

// A short pause that depends on the case only.
void Jitter(uint64_t h) {
  switch (h % 11) {
    case 0: sched_yield(); break;
    case 1: { timespec t{0, static_cast<long>(h / 11 % 200000)}; nanosleep(&t, nullptr); break; }
    case 2: case 3: { volatile unsigned x = 0; for (unsigned i = 0; i < h / 11 % 3000; i++) x = x + i; break; }
    default: break;
  }
}

struct Gate {
  explicit Gate(int n) : left(n) {}
  void Pass() { left.fetch_sub(1); while (left.load() > 0) sched_yield(); }
  std::atomic<int> left;
};

// ------------------------------------------------------------ pool
struct Slot {
  int in = 0;       // written before the post
  int out = 0;      // written by the task
  int runs = 0;
};
struct Pool {
  rst::ThreadPoolTaskRunner* pool = nullptr;
  std::vector<Slot> slots;
  std::atomic<size_t> next{0}, done{0};
  std::atomic<size_t> expected{0};
  uint64_t salt = 0;

  void Post(int depth, uint64_t h) {
    const size_t i = next.fetch_add(1);
    if (i >= slots.size()) return;
    expected.fetch_add(1);
    slots[i].in = static_cast<int>(i) + 1;
    auto payload = std::make_shared<std::string>(h % 40, 'p');
    const int64_t delay = h % 3 ? 0 : static_cast<int64_t>(h / 7 % 2000000) + 1;
    std::function<void()> f = [this, i, depth, h, payload] {
      Jitter(Mix(h));
      Slot& s = slots[i];
      s.out = s.in * 2 + static_cast<int>(payload->size());
      s.runs++;
      if (depth > 0) for (uint64_t k = 0; k < Mix(h + 1) % 3; k++) Post(depth - 1, Mix(h + 2 + k));
      Jitter(Mix(h + 9));
      done.fetch_add(1, std::memory_order_relaxed);
    };
    if (delay) pool->PostDelayedTask(std::move(f), nanoseconds(delay));
    else pool->PostTask(std::move(f));
  }
};

void PoolCase(uint64_t, Rng& r) {
  Pool p;
  p.slots.resize(static_cast<size_t>(r.In(4, 60)));
  const int posters = static_cast<int>(r.In(1, 4));
  const size_t max = static_cast<size_t>(r.In(1, 6));
  const int64_t keep = r.Chance(1, 2) ? r.In(1, 300000) : 1000000000;
  p.pool = new rst::ThreadPoolTaskRunner(max, Now, nanoseconds(keep));
  const uint64_t h0 = r.U64();
  const bool early = r.Chance(1, 2);
  {
    std::vector<std::thread> ts;
    Gate gate(posters);
    for (int t = 0; t < posters; t++)
      ts.emplace_back([&, t] {
        gate.Pass();
        for (size_t k = 0; k * static_cast<size_t>(posters) < p.slots.size() / 2 + 1; k++) {
          const uint64_t h = Mix(h0 + static_cast<uint64_t>(t) * 1000 + k);
          Jitter(h);
          p.Post(2, Mix(h));
        }
      });
    for (auto& t : ts) t.join();
  }
  if (!early) {
    // Everything posted is run.
    const auto end = Now() + std::chrono::seconds(60);
    while (p.done.load() < p.expected.load()) {
      if (Now() > end) Fail("C01.lost", Fmt("%zu of %zu tasks have run after a minute", p.done.load(), p.expected.load()));
      Jitter(1 + 11 * 50000);
    }
  } else {
    Jitter(r.U64());
  }
  delete p.pool;  // waits for the running ones
  size_t ran = 0;
  for (size_t i = 0; i < p.slots.size(); i++) {
    const Slot& s = p.slots[i];
    VH_CHECK(s.runs <= 1, "C01.once", "a task ran %d times", s.runs);
    ran += static_cast<size_t>(s.runs);
    if (s.runs) VH_CHECK(s.in == static_cast<int>(i) + 1 && s.out >= 2 * s.in, "C21.visible", "a task saw stale data");
  }
  VH_CHECK(ran == p.done.load(), "C04.running", "%zu tasks began and %zu ended before the pool was destroyed", ran, p.done.load());
  Stat("pool_tasks", ran);
  Distinct(Mix(h0));
}

// ------------------------------------------------------------ apply
void ApplyCase(uint64_t, Rng& r) {
  const uint64_t h0 = r.U64();
  if (r.Chance(1, 4)) {
    // Driven by polling from another thread.
    rst::PollingTaskRunner runner(Now);
    const auto n = static_cast<size_t>(r.In(1, 40));
    std::vector<int> cells(n);
    bool over = false;
    std::atomic<bool> stop{false};
    std::thread caller([&] {
      runner.ApplyTaskSync([&](size_t i) { Jitter(Mix(h0 + i)); cells[i]++; }, n);
      for (size_t i = 0; i < n; i++) VH_CHECK(cells[i] == 1, "C05.once", "index %zu was called %d times", i, cells[i]);
      over = true;
      stop = true;
    });
    while (!stop) { runner.RunPendingTasks(); sched_yield(); }
    caller.join();
    VH_CHECK(over, "C05.return", "no return");
  } else {
    const size_t max = static_cast<size_t>(r.In(1, 6));
    rst::ThreadPoolTaskRunner pool(max, Now, nanoseconds(r.Chance(1, 3) ? 100000 : 1000000000));
    const int callers = static_cast<int>(r.In(1, 3));
    std::vector<std::thread> ts;
    Gate gate(callers);
    for (int t = 0; t < callers; t++)
      ts.emplace_back([&, t] {
        gate.Pass();
        for (int round = 0; round < 4; round++) {
          const uint64_t h = Mix(h0 + static_cast<uint64_t>(t * 10 + round));
          const size_t n = h % 4 == 0 ? 1 : h / 8 % 50 + 1;
          std::vector<int> cells(n);
          std::vector<std::string> texts(n);
          int base = static_cast<int>(h % 1000);
          const auto token = std::make_shared<int>(1);
          pool.ApplyTaskSync([&, token](size_t i) {
            Jitter(Mix(h + i * 3));
            cells[i] += base + 1;
            texts[i] = std::to_string(i);
          }, n);
          for (size_t i = 0; i < n; i++)
            VH_CHECK(cells[i] == base + 1 && texts[i] == std::to_string(i), "C05.once", "index %zu of %zu was called %d times", i, n, cells[i] / (base + 1));
        }
      });
    for (auto& t : ts) t.join();
    Stat("apply_calls", static_cast<uint64_t>(callers) * 4);
  }
  Distinct(Mix(h0));
}

// ------------------------------------------------------------ barrier
void BarrierCase(uint64_t, Rng& r) {
  const uint64_t h0 = r.U64();
  for (int round = 0; round < 5; round++) {
    const int counts = static_cast<int>(r.In(1, 5)), waiting = static_cast<int>(r.In(0, counts)), waiters = static_cast<int>(r.In(0, 3));
    // Whoever is the last to leave destroys it.
    auto* barrier = new rst::Barrier(static_cast<size_t>(counts));
    const int users = waiting + waiters;
    std::atomic<int> left{users};
    std::atomic<int> counters_left{counts};
    std::vector<int> data(static_cast<size_t>(counts));
    std::vector<std::thread> ts;
    Gate gate(counts + waiters);
    auto check = [&] {
      for (size_t i = 0; i < data.size(); i++) VH_CHECK(data[i] == static_cast<int>(i) + 5, "C07.early", "a thread was released before count-down %zu", i);
    };
    auto leave = [&] { if (left.fetch_sub(1) == 1) delete barrier; };
    for (int i = 0; i < counts; i++)
      ts.emplace_back([&, i] {
        const uint64_t h = Mix(h0 + static_cast<uint64_t>(round * 100 + i));
        gate.Pass();
        Jitter(h);
        data[static_cast<size_t>(i)] = i + 5;
        if (i < waiting) {
          barrier->CountDownAndWait();
          check();
          leave();
        } else {
          barrier->CountDown();
        }
      });
    for (int i = 0; i < waiters; i++)
      ts.emplace_back([&, i] {
        gate.Pass();
        Jitter(Mix(h0 + static_cast<uint64_t>(round * 100 + 50 + i)));
        barrier->Wait();
        check();
        leave();
      });
    for (auto& t : ts) t.join();
    if (users == 0) { barrier->Wait(); check(); delete barrier; }
    Stat("barrier_rounds");
  }
  Distinct(Mix(h0));
}

// ------------------------------------------------------------ polling
void PollingCase(uint64_t, Rng& r) {
  const uint64_t h0 = r.U64();
  std::atomic<int64_t> now{0};
  rst::PollingTaskRunner runner([&] { return nanoseconds(now.load(std::memory_order_relaxed)); });
  const int posters = static_cast<int>(r.In(1, 4));
  const size_t each = static_cast<size_t>(r.In(1, 30));
  struct Cell { int in = 0, runs = 0; };
  std::vector<Cell> cells(static_cast<size_t>(posters) * each);
  int nested = 0, nested_runs = 0;
  std::atomic<int> done{0};
  std::vector<std::thread> ts;
  Gate gate(posters + 1);
  for (int t = 0; t < posters; t++)
    ts.emplace_back([&, t] {
      gate.Pass();
      for (size_t k = 0; k < each; k++) {
        const uint64_t h = Mix(h0 + static_cast<uint64_t>(t) * 100 + k);
        Jitter(h);
        Cell* c = &cells[static_cast<size_t>(t) * each + k];
        c->in = 7;
        std::function<void()> f = [&, c, h] {
          VH_CHECK(c->in == 7, "C21.visible", "a task saw stale data");
          c->runs++;
          if (h % 4 == 0) { nested++; runner.PostTask([&] { nested_runs++; }); }
        };
        if (h % 2) runner.PostTask(std::move(f));
        else runner.PostDelayedTask(std::move(f), nanoseconds(static_cast<int64_t>(h % 100)));
      }
      done++;
    });
  gate.Pass();
  while (done < posters) { now.fetch_add(3); runner.RunPendingTasks(); sched_yield(); }
  for (auto& t : ts) t.join();
  now.fetch_add(100);
  runner.RunPendingTasks();
  runner.RunPendingTasks();
  for (auto& c : cells) VH_CHECK(c.runs == 1, "C06.once", "a task ran %d times", c.runs);
  VH_CHECK(nested == nested_runs, "C06.once", "%d of %d nested tasks ran", nested_runs, nested);
  Stat("polled_tasks", cells.size() + static_cast<size_t>(nested));
  Distinct(Mix(h0));
}

// ------------------------------------------------------------ all together
struct MixError : rst::ErrorInfo<MixError> {
  explicit MixError(std::string t) : text(std::move(t)) {}
  const std::string& AsString() const override { return text; }
  static char id_;
  std::string text;
};
char MixError::id_;

rst::StatusOr<rst::Value> Work(uint64_t h) {
  if (h % 5 == 0) return rst::MakeStatus<MixError>(rst::Format("{} of {}", {h % 100, h % 7}));
  rst::Value v(rst::Value::Type::kObject);
  v.SetPath(rst::StrCat({"a", h % 3, ".b"}), rst::Value(static_cast<int>(h % 1000)));
  v.SetKey("list", rst::Value(rst::Value::Array()));
  return v;
}

struct Target : rst::SupportsWeakPtr<Target> {
  int calls = 0;
  void Call(int n) { calls += n; }
};

void MixCase(uint64_t, Rng& r) {
  const uint64_t h0 = r.U64();
  char* buffer = nullptr;
  size_t size = 0;
  FILE* f = open_memstream(&buffer, &size);
  if (f == nullptr) exit(3);
  const int threads = static_cast<int>(r.In(2, 5)), each = static_cast<int>(r.In(3, 12));
  std::vector<std::vector<std::string>> guids(static_cast<size_t>(threads));
  std::atomic<int> polled{0};
  {
    auto sink = std::make_unique<rst::FilePtrSink>(f);
    auto l = std::make_unique<rst::Logger>(rst::NotNull<std::unique_ptr<rst::Sink>>(std::move(sink)));
    l->set_level(rst::Logger::Level::kInfo);
    rst::Logger::SetGlobalLogger(rst::NotNull<rst::Logger*>(l.get()));
    rst::PollingTaskRunner poll(Now);
    rst::ThreadPoolTaskRunner pool(static_cast<size_t>(threads), Now, nanoseconds(r.Chance(1, 2) ? 200000 : 1000000000));
    rst::Barrier all(static_cast<size_t>(threads) * static_cast<size_t>(each));
    for (int t = 0; t < threads; t++) {
      auto* mine = &guids[static_cast<size_t>(t)];
      std::function<void()> body = [&, t, mine] {
        for (int k = 0; k < each; k++) {
          const uint64_t h = Mix(h0 + static_cast<uint64_t>(t) * 100 + static_cast<uint64_t>(k));
          Jitter(h);
          const rst::Guid g;
          mine->push_back(g.AsString());
          RST_LOG_INFO(rst::StrCat({"guid ", g.AsStringView().value()}));
          RST_LOG_DEBUG("below the level");
          auto v = Work(h);
          if (v.err()) {
            rst::Status status = std::move(v).TakeStatus();
            VH_CHECK(status.err(), "C18.kind", "the error was lost");
            const auto e = rst::dyn_cast<MixError>(status.GetError());
            VH_CHECK(e != nullptr, "C20.query", "the error has another class");
            poll.PostTask([&polled, text = e->AsString()] { polled += text.empty() ? 0 : 1; });
          } else {
            poll.PostDelayedTask([&polled, c = std::make_shared<rst::Value>(v->Clone())] { polled += c->IsObject() ? 1 : 0; }, nanoseconds(static_cast<int64_t>(h % 1000)));
          }
          Target target;
          auto call = rst::Bind(&Target::Call, target.AsWeakPtr(), 2);
          call();
          VH_CHECK(target.calls == 2, "C09.call", "a bound call was not made");
          all.CountDown();
        }
      };
      if (t % 2) pool.PostTask(std::move(body));
      else pool.PostDelayedTask(std::move(body), nanoseconds(1000));
    }
    all.Wait();
    const int want = threads * each;
    for (int i = 0; i < 1000000 && polled < want; i++) poll.RunPendingTasks();
    VH_CHECK(polled == want, "C06.once", "%d of %d tasks ran", polled.load(), want);
    std::set<std::string> seen;
    size_t n = 0;
    for (auto& v : guids) for (auto& g : v) { seen.insert(g); n++; }
    VH_CHECK(seen.size() == n && n == static_cast<size_t>(want), "C16.unique", "%zu different GUIDs of %zu", seen.size(), n);
    const std::string text(buffer, size);
    for (auto& g : seen) VH_CHECK(text.find("guid " + g + "\n") != std::string::npos, "C17.flush", "a logged line is missing");
    Stat("mixed_calls", n);
  }
  free(buffer);  // the sink has closed the file
  Distinct(Mix(h0));
}

}  // namespace

int main(int argc, char** argv) {
  Init(argc, argv);
  const std::string& m = opt.mode;
  if (m == "pool") ForCases(PoolCase, 301);
  else if (m == "apply") ForCases(ApplyCase, 302);
  else if (m == "barrier") ForCases(BarrierCase, 303);
  else if (m == "polling") ForCases(PollingCase, 304);
  else if (m == "mix") ForCases(MixCase, 305);
  else return 3;
  Flush();
  return 0;
}
