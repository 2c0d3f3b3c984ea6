// File functions on real files, special files and with concurrent users (C13, C14).
#define VH_DEFINE_ASSERT 1
#include "vh.h"

#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <sys/resource.h>
#include <sys/stat.h>

#include <algorithm>
#include <atomic>
#include <filesystem>
#include <memory>
#include <string>
#include <thread>
#include <vector>

#include "rst/files/file_utils.h"
#include "rst/rtti/rtti.h"

using namespace vh;

namespace {

int CountFds() {
  int n = 0;
  if (DIR* d = opendir("/proc/self/fd")) {
    while (readdir(d)) n++;
    closedir(d);
  }
  return n;
}
int KindOf(const rst::Status& cs) {
  auto& s = const_cast<rst::Status&>(cs);
  if (!s.err()) return 0;
  const bool f = rst::dyn_cast<rst::FileError>(s.GetError()) != nullptr;
  const bool o = rst::dyn_cast<rst::FileOpenError>(s.GetError()) != nullptr;
  return o && f ? 1 : f ? 2 : 3;
}
const char* const kKinds[] = {"success", "an open error", "a file error", "another error"};

std::string Slurp(const std::string& p, bool* ok) {
  std::string s;
  const int fd = open(p.c_str(), O_RDONLY | O_CLOEXEC);
  *ok = fd >= 0;
  if (fd < 0) return s;
  char b[65536];
  ssize_t n;
  while ((n = read(fd, b, sizeof b)) > 0) s.append(b, static_cast<size_t>(n));
  close(fd);
  return s;
}
void Spit(const std::string& p, const std::string& s) {
  const int fd = open(p.c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_CLOEXEC, 0644);
  size_t at = 0;
  while (at < s.size()) {
    const ssize_t n = write(fd, s.data() + at, s.size() - at);
    if (n <= 0) { fprintf(stderr, "cannot write %s\n", p.c_str()); _exit(3); }
    at += static_cast<size_t>(n);
  }
  close(fd);
}
std::string GenData(Rng& r, size_t n) {
  std::string s(n, '\0');
  if (n < 100000 && r.Chance(1, 6)) return r.Chance(1, 2) ? WithSpecial(r, GenData(r, n)) : WithSpecial(r, "text\n");
  switch (r.Below(5)) {
    case 0: break;
    case 1: for (auto& c : s) c = '\xff'; break;
    case 2: for (size_t i = 0; i < n; i++) s[i] = "ab\r\n\x1a"[i % 5]; break;
    default: {
      uint64_t x = r.U64();
      for (size_t i = 0; i < n; i++) { if (i % 8 == 0) x = Mix(x); s[i] = static_cast<char>(x >> (8 * (i % 8))); }
    }
  }
  return s;
}
size_t GenSize(Rng& r) {
  static const size_t at[] = {0, 1, 2, 512, 4096, 8192, 65536, 131071, 131072, 262144, 393216, 1 << 20};
  if (r.Chance(1, 150)) {  // whole large blocks
    static const size_t large[] = {1 << 20, 1 << 21, 3 << 20, 1 << 22, 6 << 20, 1 << 23, 1 << 24, 1000000, 2000000, 10000000};
    return large[r.Below(10)] + static_cast<size_t>(r.Chance(1, 3) ? r.In(-1, 1) : 0);
  }
  switch (r.Below(4)) {
    case 0: return r.Below(64);
    case 1: case 2: {
      const int64_t n = static_cast<int64_t>(at[r.Below(r.Chance(1, 6) ? 12 : 8)]) + r.In(-3, 3);
      return n < 0 ? 0 : static_cast<size_t>(n);
    }
    default: return r.Below(r.Chance(1, 20) ? 3000000 : 40000);
  }
}

// A view of an exactly sized heap block.
struct Tight {
  explicit Tight(const std::string& s) : p(new char[s.size()]), n(s.size()) { memcpy(p.get(), s.data(), n); }
  operator std::string_view() const { return std::string_view(p.get(), n); }
  std::unique_ptr<char[]> p;
  size_t n;
};

int g_kind = 0;
bool Read(const std::string& path, std::string* out) {
  auto s = rst::ReadFile(path);
  if (s.err()) {
    const rst::Status st = std::move(s).TakeStatus();
    g_kind = KindOf(st);
    return false;
  }
  g_kind = 0;
  *out = *s;
  return true;
}

std::string List(const std::string& dir) {
  std::vector<std::string> v;
  for (auto& e : std::filesystem::directory_iterator(dir)) v.push_back(e.path().filename().native());
  std::sort(v.begin(), v.end());
  std::string s;
  for (auto& x : v) s += x + "/";
  return s;
}

// A history of writes and reads of a few files against a model.
void History(uint64_t index, Rng& r, const std::string& dir, bool important_only) {
  static const std::vector<std::string> names = {"a", "b", "a.tmp", "\xd0\xb0 b", "{0}", "%s%n"};
  std::vector<std::pair<bool, std::string>> model(names.size(), {false, ""});
  const int fds = CountFds();
  std::string log;
  for (uint64_t n = 2 + r.Below(10); n > 0; n--) {
    const size_t f = r.Below(names.size());
    const std::string path = dir + "/" + names[f];
    const auto op = important_only ? r.Below(2) * 2 : r.Below(4);
    if (op <= 1 || (op == 2 && important_only)) {
      const bool imp = important_only || op == 1;
      const std::string data = GenData(r, GenSize(r));
      Tight t(data);
      log += Fmt("%s(%s,%zu) ", imp ? "important" : "write", Esc(names[f]).c_str(), data.size());
      rst::Status s = imp ? rst::WriteImportantFile(path, t) : rst::WriteFile(path.c_str(), t);
      const int k = KindOf(s);
      VH_CHECK(k == 0, imp ? "C14.error" : "C13.error", "%s without a reason: %s", kKinds[k], log.c_str());
      bool ok;
      const std::string got = Slurp(path, &ok);
      VH_CHECK(ok && got == data, imp ? "C14.success" : "C13.write", "the file has %zu bytes of other content: %s", got.size(), log.c_str());
      model[f] = {true, data};
      Stat(imp ? "important_writes" : "writes");
    } else {
      std::string got;
      const bool ok = Read(path, &got);
      log += Fmt("read(%s) ", Esc(names[f]).c_str());
      VH_CHECK(ok == model[f].first && (ok || g_kind == 1), "C13.read", "reading gives %s: %s", kKinds[g_kind], log.c_str());
      if (ok) VH_CHECK(got == model[f].second, "C13.read", "%zu bytes read instead of %zu or other bytes: %s", got.size(), model[f].second.size(), log.c_str());
      Stat("reads");
    }
    std::string want;
    std::vector<std::string> l;
    for (size_t i = 0; i < names.size(); i++) if (model[i].first) l.push_back(names[i]);
    std::sort(l.begin(), l.end());
    for (auto& x : l) want += x + "/";
    const std::string is = List(dir);
    VH_CHECK(is == want, "C14.temp", "the directory holds %s instead of %s: %s", Esc(is).c_str(), Esc(want).c_str(), log.c_str());
  }
  VH_CHECK(CountFds() == fds, "C13.handle", "%d handles left open: %s", CountFds() - fds, log.c_str());
  Distinct(HashStr(log));
  if (index % 300 == 0) Sample(log);
}

// Reads through a pipe: no size, short reads, pauses.
void Fifo(Rng& r, const std::string& dir) {
  const std::string path = dir + "/fifo";
  if (mkfifo(path.c_str(), 0600) != 0) return;
  const std::string data = GenData(r, GenSize(r));
  std::vector<size_t> cuts;
  for (size_t at = 0; at < data.size();) {
    const size_t n = 1 + r.Below(r.Chance(1, 2) ? 100000 : 200 + data.size() / 20);
    cuts.push_back(std::min(n, data.size() - at));
    at += cuts.back();
  }
  const bool pause = r.Chance(1, 4);
  std::thread w([&] {
    const int fd = open(path.c_str(), O_WRONLY | O_CLOEXEC);
    size_t at = 0;
    for (size_t n : cuts) {
      size_t done = 0;
      while (done < n) {
        const ssize_t k = write(fd, data.data() + at + done, n - done);
        if (k <= 0) break;
        done += static_cast<size_t>(k);
      }
      at += n;
      if (pause && cuts.size() < 40) std::this_thread::sleep_for(std::chrono::microseconds(200));
    }
    close(fd);
  });
  std::string got;
  const bool ok = Read(path, &got);
  w.join();
  VH_CHECK(ok, "C13.error", "reading a pipe gives %s", kKinds[g_kind]);
  VH_CHECK(got == data, "C13.read", "a pipe with %zu bytes in %zu pieces reads as %zu bytes or other bytes", data.size(), cuts.size(), got.size());
  Distinct(HashBytes(cuts.data(), cuts.size() * sizeof(size_t), data.size()));
  Stat("pipes");
}

// Files with a wrong reported size, and failures without injection.
void Special(Rng& r, const std::string& dir) {
  const int fds = CountFds();
  static const std::vector<std::string> procs = {"/proc/version", "/proc/cpuinfo", "/proc/filesystems", "/proc/self/cmdline", "/proc/self/comm",
                                                 "/proc/devices", "/dev/null", "/proc/sys/kernel/ostype", "/proc/self/environ", "/etc/passwd"};
  {
    const std::string p = r.Pick(procs);
    bool ok1, ok2;
    const std::string a = Slurp(p, &ok1);
    std::string got;
    const bool ok = Read(p, &got);
    const std::string b = Slurp(p, &ok2);
    if (ok1 && ok2 && a == b) {
      VH_CHECK(ok && got == a, "C13.read", "%s reads as %zu bytes instead of %zu (%s)", p.c_str(), got.size(), a.size(), kKinds[g_kind]);
      Stat("special_files");
    }
  }
  const std::string data = GenData(r, 1 + GenSize(r));
  if (access("/dev/full", W_OK) == 0) {
    const int k = KindOf(rst::WriteFile("/dev/full", data));
    VH_CHECK(k == 2, "C13.success", "writing %zu bytes to a full device gives %s", data.size(), kKinds[k]);
    const int k0 = KindOf(rst::WriteFile("/dev/full", std::string_view()));
    VH_CHECK(k0 == 0, "C13.error", "writing nothing to a full device gives %s", kKinds[k0]);
    Stat("full_device");
  }
  {
    const int k = KindOf(rst::WriteFile("/dev/null", data));
    VH_CHECK(k == 0, "C13.error", "writing to /dev/null gives %s", kKinds[k]);
  }
  // Not openable.
  const std::string longname(300, 'n');
  for (const std::string& p : {dir + "/missing/file", dir + "/" + longname, std::string(""), dir + "/file/below"}) {
    if (p.size() > 11 && p.compare(p.size() - 11, 11, "/file/below") == 0) Spit(dir + "/file", "x");
    int k = KindOf(rst::WriteFile(p.c_str(), data));
    VH_CHECK(k == 1, "C13.kind", "writing %s gives %s", Esc(p, 60).c_str(), kKinds[k]);
    k = KindOf(rst::WriteImportantFile(p, data));
    if (!p.empty()) VH_CHECK(k == 1, "C13.kind", "an important write of %s gives %s", Esc(p, 60).c_str(), kKinds[k]);
    else VH_CHECK(k == 1 || k == 2, "C13.kind", "an important write without a name gives %s", kKinds[k]);
    std::string got;
    VH_CHECK(!Read(p, &got) && g_kind == 1, "C13.kind", "reading %s gives %s", Esc(p, 60).c_str(), kKinds[g_kind]);
    Stat("unopenable", 3);
  }
  unlink((dir + "/file").c_str());
  // A directory.
  {
    const std::string p = dir + "/d";
    mkdir(p.c_str(), 0755);
    int k = KindOf(rst::WriteFile(p.c_str(), data));
    VH_CHECK(k == 1, "C13.kind", "writing a directory gives %s", kKinds[k]);
    std::string got;
    VH_CHECK(!Read(p, &got) && g_kind == 2, "C13.kind", "reading a directory gives %s", kKinds[g_kind]);
    const std::string before = List(dir);
    k = KindOf(rst::WriteImportantFile(p, data));
    VH_CHECK(k == 2, "C13.kind", "an important write over a directory gives %s", kKinds[k]);
    VH_CHECK(List(dir) == before, "C14.temp", "left after an error: %s", Esc(List(dir)).c_str());
    rmdir(p.c_str());
  }
  // The largest file size is exceeded.
  {
    const std::string p = dir + "/limited";
    Spit(p, "previous");
    rlimit old, l;
    getrlimit(RLIMIT_FSIZE, &old);
    const size_t limit = 1 + r.Below(data.size());
    l = old;
    l.rlim_cur = limit;
    fflush(stdout);
    setrlimit(RLIMIT_FSIZE, &l);
    const int k = KindOf(rst::WriteImportantFile(p, data));
    const int k2 = KindOf(rst::WriteFile((dir + "/limited2").c_str(), data));
    setrlimit(RLIMIT_FSIZE, &old);
    const int want = data.size() > limit ? 2 : 0;
    VH_CHECK(k == want && k2 == want, "C13.success", "%zu bytes with room for %zu give %s and %s", data.size(), limit, kKinds[k], kKinds[k2]);
    bool ok;
    VH_CHECK(Slurp(p, &ok) == (want ? "previous" : data), "C14.error", "%zu bytes with room for %zu leave other content", data.size(), limit);
    unlink((dir + "/limited2").c_str());
    VH_CHECK(List(dir) == "limited/", "C14.temp", "left after an error: %s", Esc(List(dir)).c_str());
    unlink(p.c_str());
    Stat("size_limits");
  }
  // Through links: a read follows them.
  {
    Spit(dir + "/t", data);
    if (symlink("t", (dir + "/l").c_str()) == 0) {
      std::string got;
      VH_CHECK(Read(dir + "/l", &got) && got == data, "C13.read", "a link reads as %zu bytes instead of %zu", got.size(), data.size());
      int k = KindOf(rst::WriteFile((dir + "/l").c_str(), "through"));
      bool ok;
      VH_CHECK(k == 0 && Slurp(dir + "/t", &ok) == "through", "C13.write", "writing through a link gives %s", kKinds[k]);
      unlink((dir + "/l").c_str());
    }
    // A sparse file.
    const int fd = open((dir + "/t").c_str(), O_RDWR | O_TRUNC | O_CLOEXEC);
    const size_t n = 100000 + r.Below(300000);
    if (ftruncate(fd, static_cast<off_t>(n)) != 0) _exit(3);
    (void)!pwrite(fd, "end", 3, static_cast<off_t>(n - 3));
    close(fd);
    std::string got, want(n, '\0');
    memcpy(&want[n - 3], "end", 3);
    VH_CHECK(Read(dir + "/t", &got) && got == want, "C13.read", "a sparse file of %zu bytes reads as %zu bytes", n, got.size());
    unlink((dir + "/t").c_str());
  }
  VH_CHECK(CountFds() == fds, "C13.handle", "%d handles left open", CountFds() - fds);
}

// Threads write important files while others read: only whole contents.
std::string Content(uint64_t who, uint64_t n, size_t len) {
  std::string s = Fmt("%08llx%08llx%08zx", static_cast<unsigned long long>(who), static_cast<unsigned long long>(n), len);
  uint64_t x = Mix(who * 977 + n);
  while (s.size() < len + 24) { s += static_cast<char>(x); x = s.size() % 64 ? x * 6364136223846793005ULL + 1442695040888963407ULL : Mix(x); }
  return s;
}
bool Whole(const std::string& s) {
  unsigned long long who, n;
  size_t len;
  if (s.size() < 24 || sscanf(s.c_str(), "%8llx%8llx%8zx", &who, &n, &len) != 3) return false;
  return s == Content(who, n, len);
}
void Concurrent(uint64_t index, Rng& r, const std::string& dir) {
  const int writers = static_cast<int>(r.In(1, 4)), readers = static_cast<int>(r.In(1, 3)), rounds = static_cast<int>(r.In(5, 40));
  const std::string path = dir + "/shared";
  Spit(path, Content(99, 0, 100));
  std::atomic<int> left{writers};
  std::atomic<uint64_t> whole{0}, errors{0}, changes{0};
  std::atomic<bool> torn{false};
  const uint64_t seed = r.U64();
  const int fds = CountFds();
  std::vector<std::thread> ts;
  for (int w = 0; w < writers; w++)
    ts.emplace_back([&, w] {
      Rng q(seed + static_cast<uint64_t>(w));
      for (int i = 0; i < rounds; i++) {
        rst::Status s = rst::WriteImportantFile(path, Content(static_cast<uint64_t>(w), static_cast<uint64_t>(i), q.Below(q.Chance(1, 3) ? 60000 : 200)));
        if (KindOf(s) != 0) errors++;
      }
      left--;
    });
  for (int k = 0; k < readers; k++)
    ts.emplace_back([&, k] {
      std::string last;
      while (left.load() > 0) {
        std::string c;
        if (k % 2) {
          auto s = rst::ReadFile(path);
          if (s.err()) { s.Ignore(); errors++; continue; }
          c = *s;
        } else {
          bool ok;
          c = Slurp(path, &ok);
          if (!ok) errors++;
        }
        if (!Whole(c)) torn = true;
        whole++;
        if (c != last) changes++;
        last = c;
      }
    });
  for (auto& t : ts) t.join();
  VH_CHECK(!torn.load(), "C14.reader", "a reader saw a mixed or partial content (%d writers)", writers);
  VH_CHECK(errors.load() == 0, "C14.error", "%llu errors without a reason", static_cast<unsigned long long>(errors.load()));
  bool ok;
  VH_CHECK(Whole(Slurp(path, &ok)), "C14.atomic", "the last content is not whole");
  VH_CHECK(List(dir) == "shared/", "C14.temp", "left: %s", Esc(List(dir)).c_str());
  VH_CHECK(CountFds() == fds, "C13.handle", "%d handles left open", CountFds() - fds);
  unlink(path.c_str());
  Stat("concurrent_reads", whole.load());
  Stat("content_changes_seen", changes.load());
  Distinct(seed);
  if (index % 200 == 1) Sample(Fmt("%d writers, %d readers, %d rounds: %llu reads, %llu changes", writers, readers, rounds,
                                   static_cast<unsigned long long>(whole.load()), static_cast<unsigned long long>(changes.load())));
}

}  // namespace

int main(int argc, char** argv) {
  Init(argc, argv);
  if (opt.scratch.empty()) { fprintf(stderr, "needs --scratch\n"); return 3; }
  signal(SIGXFSZ, SIG_IGN);
  signal(SIGPIPE, SIG_IGN);
  const bool important = opt.mode == "c14";
  ForCases([&](uint64_t i, Rng& r) {
    const std::string dir = opt.scratch + Fmt("/d%llu", static_cast<unsigned long long>(i));
    mkdir(dir.c_str(), 0755);
    if (important) {
      if (i % 3 == 0) Concurrent(i, r, dir);
      else History(i, r, dir, true);
    } else {
      switch (i % 4) {
        case 0: Special(r, dir); break;
        case 1: Fifo(r, dir); break;
        default: History(i, r, dir, false);
      }
    }
    std::error_code ec;
    std::filesystem::remove_all(dir, ec);
  }, important ? 214 : 213);
  Flush();
}
