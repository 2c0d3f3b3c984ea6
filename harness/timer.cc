// OneShotTimer against a model (C08).
#define VH_DEFINE_ASSERT 1
#include "vh.h"

#include <algorithm>
#include <chrono>
#include <functional>
#include <memory>
#include <vector>

#include "rst/task_runner/polling_task_runner.h"
#include "rst/timer/one_shot_timer.h"

using namespace vh;
using std::chrono::nanoseconds;
using i64 = int64_t;

namespace {

// A runner that only stores what is posted; the case runs it when it likes.
class ManualRunner : public rst::TaskRunner {
 public:
  struct P { std::function<void()> f; i64 due; };
  ManualRunner(const i64* clock, bool* in_manual) : clock_(clock), in_manual_(in_manual) {}
  std::vector<P> posted;
  bool at_once = false;  // the next task without a delay is run while it is posted

 private:
  void PostDelayedTaskWithIterations(std::function<void()>&& task, nanoseconds delay, size_t iterations) override {
    VH_CHECK(iterations == 0, "C08.iterations", "posted with iterations");
    if (at_once && delay.count() == 0) {
      const bool was = *in_manual_;
      *in_manual_ = true;
      at_once = false;
      task();
      *in_manual_ = was;
      Stat("run_while_posted");
      return;
    }
    at_once = false;
    posted.push_back({std::move(task), *clock_ + delay.count()});
  }
  const i64* clock_;
  bool* in_manual_;
};

struct World;
struct Slot {
  std::unique_ptr<rst::OneShotTimer> timer;
  int gen = 0;         // which timer object lives in the slot
  bool running = false;
  int task = -1;       // the pending task
  i64 due = 0;
  uint64_t start_seq = 0;
  bool manual = false; // posted to the manual runner
  bool exchanging = false;  // gets another runner now and then
};
struct TaskInfo { size_t slot; int gen; i64 due; int runs = 0; bool replaced = false; int depth; bool manual; uint64_t seq; bool fired_by_hand = false; };

struct World {
  Rng r;
  static constexpr i64 kMaxDelay = i64{1} << 41;
  i64 clock = 0;
  rst::PollingTaskRunner polling;
  ManualRunner manual;
  std::vector<Slot> slots;
  std::vector<TaskInfo> tasks;
  std::string log;
  uint64_t seq = 0, h = 1;
  int current = -1;    // executing task, -1 if none
  bool expect_fire = false;
  i64 poll_clock = 0;
  uint64_t poll_seq = 0;
  bool in_poll = false, in_manual = false, in_burst = false;
  int fire_slot = -1;

  explicit World(Rng& rng)
      : r(rng), polling([this] { return nanoseconds(clock); }), manual(&clock, &in_manual), slots(rng.Below(3) + 1) {}

  void Log(const std::string& s) { if (log.size() < 5000) log += s; h = HashStr(s, h); }

  void Create(size_t s) {
    slots[s].gen++;
    slots[s].running = false;
    slots[s].task = -1;
    slots[s].manual = r.Chance(1, 3);
    slots[s].exchanging = r.Chance(1, 4);
    slots[s].timer = std::make_unique<rst::OneShotTimer>([this, s]() -> rst::TaskRunner& {
      if (slots[s].manual) return manual;
      return polling;
    });
    Log(Fmt("new%zu%s ", s, slots[s].manual ? "m" : ""));
    Check(s);
  }
  void Destroy(size_t s) {
    Log(Fmt("del%zu ", s));
    Slot& x = slots[s];
    x.running = false;
    x.task = -1;
    x.gen++;
    auto t = std::move(x.timer);
    t.reset();
  }
  void Check(size_t s) {
    Slot& x = slots[s];
    if (x.timer)
      VH_CHECK(x.timer->IsRunning() == x.running, "C08.running", "timer %zu reports %d instead of %d; %s", s, x.timer->IsRunning(),
               x.running, log.c_str());
  }
  void CheckAll() { for (size_t s = 0; s < slots.size(); s++) Check(s); }

  // Any magnitude up to |kMaxDelay|, also next to round numbers.
  i64 LongDelay() {
    static const std::vector<i64> round = {1000, 1000000, 1000000000, 60000000000, 600000000000};
    const i64 d = r.Pick(round);
    return r.Chance(1, 2) ? r.In(0, i64{1} << r.In(1, 40)) : d + r.In(-d / 900, d / 900);
  }
  void Start(size_t s, int depth) {
    Slot& x = slots[s];
    if (!x.timer) Create(s);
    const i64 delay = r.Chance(1, 3) ? 0 : r.Chance(1, 8) ? r.In(0, 1000000) : r.Chance(1, 10) ? LongDelay() : r.In(0, 10);
    if (x.exchanging && r.Chance(1, 2)) x.manual = !x.manual;
    manual.at_once = x.manual && !in_burst && r.Chance(1, 4);
    const bool at_once = manual.at_once && delay == 0;
    const int id = static_cast<int>(tasks.size());
    if (x.running) tasks[static_cast<size_t>(x.task)].replaced = true;
    tasks.push_back({s, x.gen, clock + delay, 0, false, depth, x.manual, ++seq, false});
    x.running = true;
    x.task = id;
    x.due = clock + delay;
    x.start_seq = seq;
    Log(Fmt("start%zu:t%d(+%lld) ", s, id, static_cast<long long>(delay)));
    // Large enough to live on the heap, so that a use after release shows.
    auto big = std::make_shared<std::vector<int>>(static_cast<size_t>(r.In(1, 9)), id);
    const uint64_t salt = r.U64();
    x.timer->Start([this, id, big, salt] {
      OnTask(id, salt);
      // The callable must still be alive here.
      VH_CHECK(big->at(0) == id && big.use_count() > 0, "C08.callable", "captured state lost");
    }, nanoseconds(delay));
    manual.at_once = false;
    if (at_once) VH_CHECK(tasks[static_cast<size_t>(id)].runs == 1, "C08.missed", "task %d is run while it is posted, but nothing happens; %s", id, log.c_str());
    CheckAll();
  }
  // Very many restarts while the first start's callback is still posted.
  void Burst(size_t s) {
    in_burst = true;
    Start(s, 3);
    in_burst = false;
    Slot& x = slots[s];
    static const std::vector<int> counts = {2, 10, 62, 63, 126, 127, 128, 253, 254, 255, 256, 510, 511, 512, 1022, 1023, 2047, 4095};
    static const std::vector<int> long_counts = {8191, 16383, 32767, 65533, 65534, 65535, 65536};
    const int n = (r.Chance(1, 8) ? r.Pick(long_counts) : r.Pick(counts)) - static_cast<int>(r.Below(3)) / 2;
    Log(Fmt("burst%zu:%d ", s, n));
    tasks[static_cast<size_t>(x.task)].replaced = true;
    for (int i = 0; i < n; i++)
      x.timer->Start([this] { Fail("C08.replaced", "a replaced task of a burst runs; " + log); }, nanoseconds(1000000));
    x.running = false;
    Stat("restarts_in_bursts", static_cast<uint64_t>(n));
    Start(s, 0);
  }
  void Fire(size_t s) {
    Slot& x = slots[s];
    if (!x.timer || !x.running) return;
    const int id = x.task;
    Log(Fmt("fire%zu ", s));
    const int before = tasks[static_cast<size_t>(id)].runs;
    fire_slot = static_cast<int>(s);
    tasks[static_cast<size_t>(id)].fired_by_hand = true;
    x.timer->FireNow();
    VH_CHECK(tasks[static_cast<size_t>(id)].runs == before + 1, "C08.fire", "FireNow did not run the task; %s", log.c_str());
  }
  void OnTask(int id, uint64_t salt) {
    TaskInfo t = tasks[static_cast<size_t>(id)];
    Slot& x = slots[t.slot];
    Log(Fmt("t%d ", id));
    VH_CHECK(x.timer && x.gen == t.gen, "C08.dead", "task %d runs although its timer was destroyed; %s", id, log.c_str());
    VH_CHECK(!t.replaced, "C08.replaced", "replaced task %d runs; %s", id, log.c_str());
    VH_CHECK(t.runs == 0, "C08.twice", "task %d runs again; %s", id, log.c_str());
    VH_CHECK(x.running && x.task == id, "C08.stale", "task %d runs but is not pending; %s", id, log.c_str());
    VH_CHECK(t.fired_by_hand || in_poll || in_manual, "C08.outside", "task %d runs at once; %s", id, log.c_str());
    VH_CHECK(t.fired_by_hand || t.due <= (in_manual ? clock : poll_clock), "C08.early", "task %d runs early; %s", id, log.c_str());
    tasks[static_cast<size_t>(id)].runs++;
    x.running = false;
    x.task = -1;
    VH_CHECK(!x.timer->IsRunning(), "C08.running", "timer reports running inside its task; %s", log.c_str());
    // What a task may do.
    Rng tr(salt);
    Stat("tasks_run");
    if (t.depth < 3) {
      const auto n = tr.Below(3);
      for (uint64_t k = 0; k < n; k++) {
        const size_t s = tr.Chance(1, 2) ? t.slot : tr.Below(slots.size());
        switch (tr.Below(5)) {
          case 0: case 1: Start(s, t.depth + 1); Stat("starts_from_tasks"); break;
          case 2: if (slots[s].timer) { Destroy(s); Stat("timers_destroyed_by_tasks"); } break;
          case 3: Fire(s); Stat("fires_from_tasks"); break;
          default: clock += tr.In(0, 3);
        }
      }
    }
    CheckAll();
  }
  void Poll() {
    std::vector<int> must;
    for (auto& x : slots)
      if (x.timer && x.running && !x.manual && x.due <= clock) must.push_back(x.task);
    poll_clock = clock;
    in_poll = true;
    Log("poll{");
    polling.RunPendingTasks();
    Log("} ");
    in_poll = false;
    for (int id : must) {
      TaskInfo& t = tasks[static_cast<size_t>(id)];
      // It ran, or another task replaced it or destroyed its timer first.
      const bool gone = slots[t.slot].gen != t.gen;
      VH_CHECK(t.runs == 1 || t.replaced || gone, "C08.missed", "task %d is due but does not run; %s", id, log.c_str());
    }
    CheckAll();
  }
  // By little, or exactly to or just before the due time of a timer.
  void Advance(size_t s) {
    const Slot& x = slots[s];
    if (x.timer && x.running && x.due > clock && r.Chance(1, 2)) clock = x.due - (r.Chance(1, 3) ? 1 : 0);
    else clock += r.In(0, 6);
    Log(Fmt("clock=%lld ", static_cast<long long>(clock)));
  }
  void RunManual() {
    if (manual.posted.empty()) return;
    const size_t i = r.Below(manual.posted.size());
    if (manual.posted[i].due > clock) return;
    ManualRunner::P p = std::move(manual.posted[i]);
    if (i + 1 != manual.posted.size()) manual.posted[i] = std::move(manual.posted.back());
    manual.posted.pop_back();
    // Which pending task is it?  The one whose timer posted it last, if any.
    Log("manual ");
    in_manual = true;
    if (r.Chance(1, 2)) p.f();
    else { auto g = p.f; p.f = nullptr; g(); }
    in_manual = false;
    CheckAll();
  }
};

void Case(uint64_t index, Rng& r) {
  World w(r);
  const auto ops = r.In(3, 40);
  const bool burst = index % 100 == 7;
  for (i64 o = 0; o < ops; o++) {
    const size_t s = w.r.Below(w.slots.size());
    if (burst && o == 2) w.Burst(s);
    switch (w.r.Below(9)) {
      case 0: case 1: case 2: w.Start(s, 0); break;
      case 3: w.Fire(s); break;
      case 4: if (w.slots[s].timer && w.r.Chance(1, 2)) w.Destroy(s); break;
      case 5: w.Advance(s); break;
      case 6: w.RunManual(); break;
      default: w.Poll(); break;
    }
    w.CheckAll();
  }
  // Everything still pending runs exactly once now.
  for (int k = 0; k < 6; k++) {
    w.clock += 2 * World::kMaxDelay;
    w.Poll();
    while (!w.manual.posted.empty()) { w.RunManual(); w.clock += World::kMaxDelay; }
  }
  for (size_t s = 0; s < w.slots.size(); s++) if (w.slots[s].timer && w.r.Chance(1, 2)) w.Destroy(s);
  w.clock += 2 * World::kMaxDelay;
  w.Poll();
  for (size_t id = 0; id < w.tasks.size(); id++) {
    auto& t = w.tasks[id];
    auto& x = w.slots[t.slot];
    const bool gone = x.gen != t.gen;
    const bool pending = x.timer && x.running && x.task == static_cast<int>(id) && x.due > w.clock;
    VH_CHECK(t.runs == 1 || t.replaced || gone || pending, "C08.lost", "task %zu never ran; %s", id, w.log.c_str());
    VH_CHECK(!(t.replaced && t.runs), "C08.replaced", "task %zu", id);
    Stat("replaced", t.replaced);
  }
  Stat("tasks", w.tasks.size());
  if (w.tasks.size() > 1) Distinct(w.h);
  if (index % 2000 == 1) Sample(w.log.substr(0, 600));
  Obs(w.log);
}

}  // namespace

int main(int argc, char** argv) {
  Init(argc, argv);
  ForCases(Case, 8);
  Flush();
}
