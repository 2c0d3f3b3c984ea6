// The random device of each thread (C27).
#define VH_DEFINE_ASSERT 1
#include "vh.h"

#include <sched.h>
#include <sys/wait.h>

#include <atomic>
#include <random>
#include <string>
#include <thread>
#include <type_traits>
#include <unordered_set>
#include <vector>

#include "rst/guid/guid.h"
#include "rst/random/random_device.h"

using namespace vh;

namespace {

std::unordered_set<uint64_t> g_seen;
uint32_t g_ones = 0, g_zeros = 0;
uint64_t g_count = 0;

static_assert(std::is_same_v<decltype(rst::GetRandomDevice()), std::random_device&>);

void Record(const std::vector<uint32_t>& v) {
  for (size_t i = 0; i + 1 < v.size(); i += 2) {
    g_ones |= v[i] | v[i + 1];
    g_zeros |= ~v[i] | ~v[i + 1];
    g_count++;
    const uint64_t x = static_cast<uint64_t>(v[i]) << 32 | v[i + 1];
    VH_CHECK(g_seen.insert(x).second, "C27.repeat", "the pair of numbers %08x %08x was drawn twice within %llu pairs", v[i], v[i + 1],
             static_cast<unsigned long long>(g_count));
    if (g_count % 8 == 0) Distinct(x);
  }
}

struct Seen {
  std::vector<std::random_device*> devices;
  std::vector<uint32_t> numbers;
};

// What one thread does with its device, no lock anywhere.
void Use(uint64_t h, Seen& out, int steps) {
  for (int k = 0; k < steps; k++) {
    std::random_device& d = rst::GetRandomDevice();
    out.devices.push_back(&d);
    switch ((h = Mix(h)) % 5) {
      case 0: { std::uniform_int_distribution<uint32_t> any; out.numbers.push_back(any(d)); break; }
      case 1: sched_yield(); break;
      case 2: { const rst::Guid g; if (g.AsString().size() != 36) Fail("C27.guid", "a bad GUID"); break; }
      case 3: { std::random_device& again = rst::GetRandomDevice(); out.devices.push_back(&again); out.numbers.push_back(again()); break; }
      default: out.numbers.push_back(d()); break;
    }
  }
}

void Case(uint64_t index, Rng& r) {
  const uint64_t h = r.U64();
  const int n = static_cast<int>(r.In(1, r.Chance(1, 10) ? 24 : 6));
  std::vector<Seen> seen(static_cast<size_t>(n) + 1);
  std::atomic<int> arrived{0}, used{0};
  std::vector<std::thread> ts;
  for (int t = 1; t <= n; t++)
    ts.emplace_back([&, t] {
      arrived++;
      while (arrived < n) sched_yield();
      Use(Mix(h + static_cast<uint64_t>(t)), seen[static_cast<size_t>(t)], static_cast<int>(Mix(h * 3 + static_cast<uint64_t>(t)) % 12) + 1);
      // All of these threads are alive while any of them looks.
      used++;
      while (used < n) sched_yield();
      seen[static_cast<size_t>(t)].devices.push_back(&rst::GetRandomDevice());
    });
  Use(h, seen[0], 5);
  // A reference is kept and used for as long as the thread lives, however often the device is asked for.
  if (r.Chance(1, 40)) {
    const int often = static_cast<int>(uint64_t{1} << r.In(8, 18));
    auto* const kept = seen[0].devices[0];
    int other = 0;
    std::vector<uint32_t> drawn;
    for (int k = 0; k < often; k++) {
      auto& d = rst::GetRandomDevice();
      other += &d != kept;
      if (k % 4096 == 0) drawn.push_back((*kept)());
    }
    VH_CHECK(other == 0, "C27.same", "%d of %d further calls by one thread give another device", other, often);
    seen[0].numbers.insert(seen[0].numbers.end(), drawn.begin(), drawn.end());
    Stat("repeated calls", static_cast<uint64_t>(often));
  }
  for (auto& t : ts) t.join();
  seen[0].devices.push_back(&rst::GetRandomDevice());
  for (size_t t = 0; t < seen.size(); t++) {
    for (auto* d : seen[t].devices)
      VH_CHECK(d == seen[t].devices[0], "C27.same", "thread %zu of %d gets another device in a later call", t, n);
    for (size_t u = 0; u < t; u++)
      VH_CHECK(seen[t].devices[0] != seen[u].devices[0], "C27.shared", "threads %zu and %zu of %d share a device", t, u, n);
    Record(seen[t].numbers);
  }
  static std::random_device* first = seen[0].devices[0];
  VH_CHECK(seen[0].devices[0] == first, "C27.same", "the main thread gets another device after other threads have come and gone");
  Stat("threads", static_cast<uint64_t>(n));
  if (index % 1000 == 0) Sample(Fmt("%d threads, %zu calls by the first", n, seen[0].devices.size()));
  Distinct(h);
}

void OtherProcess() {
  int fd[2];
  if (pipe(fd) != 0) exit(3);
  fflush(stdout);
  const pid_t pid = fork();
  if (pid < 0) exit(3);
  uint32_t v[16];
  if (pid == 0) {
    for (auto& x : v) x = rst::GetRandomDevice()();
    (void)!write(fd[1], v, sizeof v);
    _exit(0);
  }
  std::vector<uint32_t> mine;
  for (int i = 0; i < 16; i++) mine.push_back(rst::GetRandomDevice()());
  Record(mine);
  const bool all = read(fd[0], v, sizeof v) == static_cast<ssize_t>(sizeof v);
  int st;
  waitpid(pid, &st, 0);
  close(fd[0]);
  close(fd[1]);
  VH_CHECK(all, "C27.process", "no numbers from a forked process");
  Record(std::vector<uint32_t>(v, v + 16));
  Stat("processes");
}

}  // namespace

int main(int argc, char** argv) {
  Init(argc, argv);
  ForCases([](uint64_t i, Rng& r) {
    Case(i, r);
    if (i / opt.shards % 100 == 0) OtherProcess();
  }, 271);
  if (g_count > 500)
    VH_CHECK(g_ones == 0xffffffffu && g_zeros == 0xffffffffu, "C27.bits", "bits that are never set: %08x, never clear: %08x", ~g_ones, ~g_zeros);
  Stat("number_pairs", g_count);
  Flush();
  return 0;
}
