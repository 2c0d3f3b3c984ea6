// Barrier under the seeded scheduler (C07).
#define VH_DEFINE_ASSERT 1
#include "vh.h"
#include "vsched.h"

#include <memory>
#include <thread>
#include <vector>

#include "rst/threading/barrier.h"

using namespace vh;

namespace {

enum Role { kDown, kDownWait, kWait, kLateWait };

void Case(uint64_t index, Rng& r) {
  // A plan: which thread does what in which order on which barriers.
  const size_t count = r.Below(r.Chance(1, 5) ? 8 : 4) + 1;
  struct Thr { std::vector<Role> acts; int64_t sleep = 0; };
  std::vector<Thr> thr;
  size_t downs = 0, waits = 0;
  // Distribute the count-downs.
  while (downs < count) {
    Thr t;
    const auto k = r.Chance(1, 4) ? r.In(1, static_cast<int64_t>(count - downs)) : 1;
    for (int64_t i = 0; i < k; i++) { t.acts.push_back(kDown); downs++; }
    if (r.Chance(1, 2)) { t.acts.back() = kDownWait; waits++; }
    else if (r.Chance(1, 3)) { t.acts.push_back(kWait); waits++; }
    if (r.Chance(1, 6) && t.acts.back() != kDown) { t.acts.push_back(kLateWait); waits++; }
    if (r.Chance(1, 4)) t.sleep = r.In(0, 1000);
    thr.push_back(t);
  }
  const auto extra = waits == 0 ? r.In(1, 3) : r.In(0, 2);
  for (int64_t i = 0; i < extra; i++) {
    Thr t;
    t.acts.push_back(kWait);
    waits++;
    if (r.Chance(1, 4)) t.sleep = r.In(0, 1000);
    if (r.Chance(1, 6)) { t.acts.push_back(kLateWait); waits++; }
    thr.push_back(t);
  }
  // Shuffle.
  for (size_t i = thr.size(); i > 1; i--) std::swap(thr[i - 1], thr[r.Below(i)]);
  const bool destroy = r.Chance(3, 4);

  std::string log;
  size_t begun = 0, waiting_left = waits, returned = 0;
  bool was_destroyed = false;
  vs::Config cfg;
  cfg.seed = r.U64();
  cfg.fine = r.Chance(3, 4);
  cfg.on_stuck = [&](const std::string& why) {
    Fail("C07.hang", Fmt("count %zu, %zu count-downs begun, %zu of %zu waits returned; %s; %s", count, begun, returned, waits,
                         why.c_str(), log.c_str()));
  };
  size_t overlap = 0;
  const vs::Result res = vs::Run(cfg, [&] {
    auto* b = new rst::Barrier(count);
    std::vector<uint64_t> data(thr.size());
    auto body = [&](size_t me) {
      const Thr& t = thr[me];
      if (t.sleep) vs::Sleep(t.sleep);
      for (const Role role : t.acts) {
        if (role == kDown || role == kDownWait) {
          begun++;
          log += Fmt("d%zu ", me);
        }
        if (role == kDown) { b->CountDown(); continue; }
        if (begun < count) overlap++;
        if (role == kDownWait) b->CountDownAndWait();
        else b->Wait();
        VH_CHECK(!was_destroyed, "harness", "destroyed");
        log += Fmt("w%zu ", me);
        VH_CHECK(begun == count, "C07.early", "a waiter returned after %zu of %zu count-downs; %s", begun, count, log.c_str());
        returned++;
        if (--waiting_left == 0 && destroy) {
          was_destroyed = true;
          delete b;
          log += "x ";
        }
      }
    };
    std::vector<std::thread> th;
    for (size_t i = 1; i < thr.size(); i++) th.emplace_back(body, i);
    body(0);
    for (auto& t : th) t.join();
    VH_CHECK(returned == waits, "C07.hang", "%zu of %zu", returned, waits);
    if (!was_destroyed) {
      b->Wait();  // a later waiter
      delete b;
    }
  });
  Stat("waits", waits);
  Stat("waits_before_zero", overlap);
  Stat("destroyed_by_waiter", was_destroyed);
  Stat("sched_points", res.points);
  Stat("switches", res.switches);
  if (overlap && thr.size() > 1) Distinct(res.trace_hash ^ Mix(index));
  if (index % 1000 == 5) Sample(Fmt("case %llu: count %zu, %zu threads, %zu waits: %s", static_cast<unsigned long long>(index), count,
                                    thr.size(), waits, log.c_str()));
  Obs(Fmt("%zu %zu", count, waits));
}

}  // namespace

int main(int argc, char** argv) {
  Init(argc, argv);
  ForCases(Case, 7);
  Flush();
}
