// Logger and sinks (C17).
#define VH_DEFINE_ASSERT 1
#include "vh.h"
#ifdef VH_VS
#include "vsched.h"
#endif

#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <sys/stat.h>

#include <algorithm>
#include <atomic>
#include <memory>
#include <mutex>
#include <string>
#include <thread>
#include <vector>

#include "rst/logger/file_name_sink.h"
#include "rst/logger/file_ptr_sink.h"
#include "rst/logger/log_error.h"
#include "rst/logger/logger.h"
#include "rst/logger/sink.h"
#include "rst/rtti/rtti.h"

using namespace vh;
using rst::FileNameSink;
using rst::FilePtrSink;
using rst::Logger;
using rst::NotNull;
using rst::Sink;
using Level = Logger::Level;

namespace {

const char* const kLevelNames[] = {"ALL", "DEBUG", "INFO", "WARNING", "ERROR", "FATAL", "OFF"};

int CountFds() {
  int n = 0;
  if (DIR* d = opendir("/proc/self/fd")) {
    while (readdir(d)) n++;
    closedir(d);
  }
  return n;
}
std::string Slurp(const std::string& p) {
  std::string s;
  const int fd = open(p.c_str(), O_RDONLY | O_CLOEXEC);
  if (fd < 0) return s;
  char b[16384];
  ssize_t n;
  while ((n = read(fd, b, sizeof b)) > 0) s.append(b, static_cast<size_t>(n));
  close(fd);
  return s;
}

// The harness's own sink: records what arrives.
struct Record { std::vector<std::string> lines; std::mutex m; bool destroyed = false; };
class MemSink final : public Sink {
 public:
  explicit MemSink(Record* r) : r_(r) {}
  ~MemSink() override { r_->destroyed = true; }
  void Log(std::string_view message) override {
    std::lock_guard lock(r_->m);
    r_->lines.emplace_back(message);
  }

 private:
  Record* const r_;
};

// A stream of the harness: counts closes, keeps the bytes.
struct Cookie { std::string data; int closes = 0; };
ssize_t CookieWrite(void* c, const char* b, size_t n) {
  auto* k = static_cast<Cookie*>(c);
  k->data.append(b, n);
  return static_cast<ssize_t>(n);
}
int CookieClose(void* c) { static_cast<Cookie*>(c)->closes++; return 0; }

std::string GenMsg(Rng& r, const std::string& id) {
  std::string s = id;
  size_t n = r.Chance(1, 500) ? r.Below(400000) : r.Chance(1, 40) ? r.Below(20000) : r.Chance(1, 5) ? 0 : r.Below(60);
  for (size_t i = 0; i < n; i++)
    s += r.Chance(1, 3) ? "{}%s\n\0d\\\"\r "[r.Below(12)] : static_cast<char>(r.Below(256));
  // Threads need their id in front.
  if (r.Chance(1, 12)) return id.empty() ? WithSpecial(r, s) : s + SpecialText(r);
  return s;
}
std::string GenFile(Rng& r) {
  static const std::vector<std::string> f = {"a.cc", "dir/with space.h", "", "{}{}", "x(1)] [", "%n%s", "\xc3\xa9.cc"};
  return r.Pick(f);
}
int GenLine(Rng& r) {
  switch (r.Below(4)) {
    case 0: return 1;
    case 1: return INT32_MAX;
    default: return static_cast<int>(r.In(1, 100000));
  }
}
std::string Line(Level level, const std::string& file, int line, const std::string& msg) {
  return "[" + std::string(kLevelNames[static_cast<int>(level)]) + ":" + file + "(" + std::to_string(line) + ")] " + msg;
}

// ------------------------------------------------- one thread, all sinks
void Sequential(uint64_t index, Rng& r) {
  const std::string path = opt.scratch + Fmt("/log%llu", static_cast<unsigned long long>(index));
  const int fds = CountFds();
  const auto kind = r.Below(5);
  Record rec;
  Cookie cookie;
  FILE* file = nullptr;
  bool owned = false;
  std::unique_ptr<Sink> sink;
  if (r.Chance(1, 2)) {  // something to be truncated or appended after
    FILE* f = fopen(path.c_str(), "w");
    if (!f) exit(3);
    fputs("previous content\n", f);
    fclose(f);
  }
  std::string head;
  switch (kind) {
    case 0: {
      auto s = FileNameSink::Create(path.c_str());
      VH_CHECK(!s.err(), "C17.open", "a log file could not be opened");
      sink = std::move(*s).Take();
      break;
    }
    case 1: {
      const bool append = r.Chance(1, 2);
      if (append) head = Slurp(path);
      file = fopen(path.c_str(), append ? "a" : "w");
      if (!file) exit(3);
      switch (r.Below(3)) {
        case 0: break;
        case 1: setvbuf(file, nullptr, r.Chance(1, 2) ? _IOLBF : _IONBF, 16); break;
        default: setvbuf(file, nullptr, _IOFBF, 100000); break;
      }
      owned = r.Chance(1, 2);
      if (owned && r.Chance(1, 2)) sink = std::make_unique<FilePtrSink>(file);
      else sink = std::make_unique<FilePtrSink>(file, FilePtrSink::ShouldClose(owned));
      break;
    }
    case 2: {
      cookie_io_functions_t io{nullptr, CookieWrite, nullptr, CookieClose};
      file = fopencookie(&cookie, "w", io);
      if (!file) exit(3);
      if (r.Chance(1, 2)) setvbuf(file, nullptr, _IOFBF, 1 + r.Below(300));
      owned = r.Chance(1, 2);
      if (owned && r.Chance(1, 2)) sink = std::make_unique<FilePtrSink>(file);
      else sink = std::make_unique<FilePtrSink>(file, FilePtrSink::ShouldClose(owned));
      break;
    }
    default: sink = std::make_unique<MemSink>(&rec); break;
  }
  std::vector<std::string> want;
  std::string log;
  auto Content = [&] { return kind == 2 ? cookie.data : Slurp(path); };
  auto Check = [&](const char* what) {
    if (kind >= 3) {
      VH_CHECK(rec.lines == want, "C17.lines", "after %s the sink has %zu lines instead of %zu, the last '%s' instead of '%s'; %s", what, rec.lines.size(),
               want.size(), rec.lines.empty() ? "" : Esc(rec.lines.back(), 100).c_str(), want.empty() ? "" : Esc(want.back(), 100).c_str(), log.c_str());
      return;
    }
    std::string all = head;
    for (auto& l : want) all += l + "\n";
    const std::string got = Content();
    VH_CHECK(got == all, "C17.file", "after %s the file has %zu bytes instead of %zu, ending in '%s' instead of '%s'; %s", what, got.size(), all.size(),
             Esc(got.size() > 80 ? got.substr(got.size() - 80) : got).c_str(), Esc(all.size() > 80 ? all.substr(all.size() - 80) : all).c_str(), log.c_str());
  };
  Record other_rec;
  auto other = std::make_unique<Logger>(NotNull<std::unique_ptr<Sink>>(std::make_unique<MemSink>(&other_rec)));
  size_t other_want = 0;
  auto* raw = sink.get();
  auto logger = std::make_unique<Logger>(NotNull<std::unique_ptr<Sink>>(std::move(sink)));
  Logger::SetGlobalLogger(logger.get());
  Check("construction");
  Level level = Level::kAll;
  bool died = false;
  for (uint64_t n = r.Below(20) + 1; n > 0; n--) {
    switch (r.Below(10)) {
      case 0:
        level = static_cast<Level>(r.Below(7));
        logger->set_level(level);
        log += Fmt("level %s ", kLevelNames[static_cast<int>(level)]);
        break;
      case 1: {  // the other logger for a while
        Logger::SetGlobalLogger(other.get());
        Logger::Log(Level::kInfo, "f", 1, "elsewhere");
        other_want++;
        Logger::SetGlobalLogger(logger.get());
        VH_CHECK(other_rec.lines.size() == other_want, "C17.lines", "the other logger has %zu lines instead of %zu", other_rec.lines.size(), other_want);
        break;
      }
      case 2: {  // the sink itself
        const std::string m = GenMsg(r, "");
        raw->Log(m);
        want.push_back(m);
        log += "sink ";
        break;
      }
      case 3: {  // the macros
        const std::string m = GenMsg(r, "");
        int line = 0;
        const auto l = 1 + r.Below(4);
        if (l == 1) { RST_LOG_DEBUG(m); line = __LINE__; }
        else if (l == 2) { RST_LOG_INFO(m); line = __LINE__; }
        else if (l == 3) { RST_LOG_WARNING(m); line = __LINE__; }
        else { RST_LOG_ERROR(m); line = __LINE__; }
        if (static_cast<Level>(l) >= level) want.push_back(Line(static_cast<Level>(l), __FILE__, line, m));
        log += "macro ";
        break;
      }
      case 4: {  // the macros of debug builds
        const std::string m = GenMsg(r, "");
        int evaluated = 0;
        auto f = [&] { evaluated++; return std::string_view(m); };
        (void)f;
        int line = 0;
        const auto l = 1 + r.Below(4);
        if (l == 1) { RST_DLOG_DEBUG(f()); line = __LINE__; }
        else if (l == 2) { RST_DLOG_INFO(f()); line = __LINE__; }
        else if (l == 3) { RST_DLOG_WARNING(f()); line = __LINE__; }
        else { RST_DLOG_ERROR(f()); line = __LINE__; }
        VH_CHECK(evaluated == kDebug, "C17.dlog", "a debug log call evaluated its argument %d times", evaluated);
        if (kDebug && static_cast<Level>(l) >= level) want.push_back(Line(static_cast<Level>(l), __FILE__, line, m));
        break;
      }
      default: {
        const auto l = static_cast<Level>(1 + r.Below(4));
        const std::string f = GenFile(r), m = GenMsg(r, "");
        const int line = GenLine(r);
        std::unique_ptr<char[]> p(new char[m.size()]);
        memcpy(p.get(), m.data(), m.size());
        Logger::Log(l, f.c_str(), line, std::string_view(p.get(), m.size()));
        // Now and then the very same call many times in a row.
        const uint64_t times = r.Chance(1, 60) ? 20 + r.Below(kind == 0 || kind == 1 ? 90 : 300) : 1;
        for (uint64_t t = 1; t < times; t++) Logger::Log(l, f.c_str(), line, std::string_view(p.get(), m.size()));
        if (l >= level) want.insert(want.end(), times, Line(l, f, line, m));
        if (times > 1) Stat("repeated_calls", times);
        log += Fmt("%s(%zu)x%d ", kLevelNames[static_cast<int>(l)], m.size(), static_cast<int>(times));
        Stat(l >= level ? "logged" : "suppressed");
      }
    }
    Check("a call");
  }
  if (r.Chance(1, 3) && level != Level::kOff) {
    const std::string m = GenMsg(r, "bye");
    died = Rejects([&] { Logger::Log(Level::kFatal, "fatal.cc", 7, m); });
    VH_CHECK(died, "C17.fatal", "a fatal message did not end the process");
    want.push_back(Line(Level::kFatal, "fatal.cc", 7, m));
    Check("a fatal message");
    Stat("fatal");
  }
  const size_t others = other_rec.lines.size();
  logger.reset();
  if (kind >= 3) VH_CHECK(rec.destroyed, "C17.close", "the sink outlives its logger");
  if (kind == 2) {
    VH_CHECK(cookie.closes == (owned ? 1 : 0), "C17.close", "a file %s by the sink was closed %d times", owned ? "owned" : "not owned", cookie.closes);
    if (!owned) {
      VH_CHECK(fputs("after", file) >= 0 && fclose(file) == 0 && cookie.closes == 1, "C17.close", "a file that was not owned is unusable");
      VH_CHECK(cookie.data.size() >= 5 && cookie.data.compare(cookie.data.size() - 5, 5, "after") == 0, "C17.close", "a file that was not owned is unusable");
      cookie.data.resize(cookie.data.size() - 5);
    }
    Check("the end");
  } else if (kind <= 1) {
    Check("the end");
    if (kind == 1 && !owned) {
      VH_CHECK(CountFds() == fds + 1, "C17.close", "a file that is not owned was closed");
      VH_CHECK(fclose(file) == 0, "C17.close", "a file that was not owned is unusable");
    }
  }
  VH_CHECK(CountFds() == fds, "C17.close", "%d handles left open", CountFds() - fds);
  VH_CHECK(other_rec.lines.size() == others, "C17.lines", "a line went to another logger");
  Logger::SetGlobalLogger(other.get());
  unlink(path.c_str());
  Distinct(HashStr(log, kind));
  std::string obs;
  if (kind >= 3) for (auto& l : want) obs += l.substr(0, 40);
  if (index % 2000 == 0) Sample(Fmt("sink kind %d: %s", static_cast<int>(kind), log.substr(0, 300).c_str()));
}

void OpenFailures(Rng& r) {
  const int fds = CountFds();
  static const std::vector<std::string> bad = {"/missing/dir/file", "", "/", std::string(5000, 'x')};
  const std::string p = r.Chance(1, 5) ? opt.scratch : r.Pick(bad);
  auto s = FileNameSink::Create(p.c_str());
  VH_CHECK(s.err(), "C17.open", "opening '%s' is reported as a success", Esc(p, 60).c_str());
  auto st = std::move(s).TakeStatus();
  VH_CHECK(st.err() && rst::dyn_cast<rst::LogError>(st.GetError()) != nullptr, "C17.open", "the error is no LogError");
  VH_CHECK(CountFds() == fds, "C17.close", "%d handles left open", CountFds() - fds);
  Stat("open_failures");
}

// ------------------------------------------------- threads
struct Plan {
  int threads;
  int kind;
  std::vector<std::vector<std::pair<Level, std::string>>> lines;
};

void Concurrent(uint64_t index, Rng& r) {
  const std::string path = opt.scratch + Fmt("/c%llu", static_cast<unsigned long long>(index));
#ifdef VH_VS
  const int threads = static_cast<int>(r.In(2, 4)), each = static_cast<int>(r.In(1, 5));
#else
  const int threads = static_cast<int>(r.In(2, 8)), each = static_cast<int>(r.In(1, 60));
#endif
  const auto kind = r.Below(3);
  const auto level = static_cast<Level>(r.Below(4));
  Cookie cookie;
  FILE* file = nullptr;
  std::unique_ptr<Sink> sink;
  if (kind == 0) {
    auto s = FileNameSink::Create(path.c_str());
    VH_CHECK(!s.err(), "C17.open", "a log file could not be opened");
    sink = std::move(*s).Take();
  } else if (kind == 1) {
    file = fopen(path.c_str(), "w");
    if (!file) exit(3);
    if (r.Chance(1, 2)) setvbuf(file, nullptr, r.Chance(1, 2) ? _IOLBF : _IONBF, 16);
    sink = std::make_unique<FilePtrSink>(file);
  } else {
    cookie_io_functions_t io{nullptr, CookieWrite, nullptr, CookieClose};
    file = fopencookie(&cookie, "w", io);
    if (!file) exit(3);
    setvbuf(file, nullptr, _IOFBF, 8 + r.Below(200));
    sink = std::make_unique<FilePtrSink>(file);
  }
  std::vector<std::vector<std::pair<Level, std::string>>> msgs(static_cast<size_t>(threads));
  std::vector<std::vector<std::string>> want(static_cast<size_t>(threads));
  const bool direct = r.Chance(1, 3);
  Sink* raw = sink.get();
  for (int t = 0; t < threads; t++)
    for (int i = 0; i < each; i++) {
      const auto l = static_cast<Level>(1 + r.Below(4));
      std::string m = GenMsg(r, Fmt("<%d.%d>", t, i));
      if (m.size() > 400) m.resize(400);
      msgs[static_cast<size_t>(t)].push_back({l, m});
      if (direct || l >= level) want[static_cast<size_t>(t)].push_back((direct ? m : Line(l, "t.cc", 1 + i, m)) + "\n");
    }
  auto logger = std::make_unique<Logger>(NotNull<std::unique_ptr<Sink>>(std::move(sink)));
  logger->set_level(level);
  Logger::SetGlobalLogger(logger.get());
  std::atomic<uint64_t> missing{0};
  std::string missed;
  std::mutex mm;
  auto Content = [&] { return kind == 2 ? cookie.data : Slurp(path); };
  auto body = [&](size_t t) {
    size_t k = 0;
    for (size_t i = 0; i < msgs[t].size(); i++) {
      const auto& [l, m] = msgs[t][i];
      if (direct) raw->Log(m);
      else Logger::Log(l, "t.cc", 1 + static_cast<int>(i), m);
      if (!direct && l < level) continue;
      const std::string& rec = want[t][k++];
#ifndef VH_VS
      if (kind == 2) continue;  // the bytes in memory are being changed
      if (i % 8) continue;
#endif
      if (Content().find(rec) == std::string::npos) {
        std::lock_guard lock(mm);
        missing++;
        missed = rec;
      }
    }
  };
  uint64_t h = index;
#ifdef VH_VS
  vs::Config cfg;
  cfg.seed = r.U64();
  cfg.fine = r.Chance(1, 2);
  cfg.on_stuck = [&](const std::string& why) { Fail("C17.hang", why); };
  const vs::Result res = vs::Run(cfg, [&] {
    std::vector<std::thread> th;
    for (size_t i = 1; i < static_cast<size_t>(threads); i++) th.emplace_back(body, i);
    body(0);
    for (auto& t : th) t.join();
  });
  h = res.trace_hash;
  Stat("switches", res.switches);
#else
  std::vector<std::thread> th;
  std::atomic<int> ready{0};
  for (size_t i = 0; i < static_cast<size_t>(threads); i++)
    th.emplace_back([&, i] {
      ready++;
      while (ready.load() < threads) {}
      body(i);
    });
  for (auto& t : th) t.join();
#endif
  const std::string got = Content();
  logger.reset();
  const std::string end = Content();
  VH_CHECK(end == got, "C17.flush", "%zu bytes arrive only when the sink is destroyed", end.size() - got.size());
  VH_CHECK(missing.load() == 0, "C17.flush", "'%s' is not in the file when the call returns", Esc(missed).c_str());
  if (kind == 2) VH_CHECK(cookie.closes == 1, "C17.close", "closed %d times", cookie.closes);
  // The file is a merge of the threads' lines.
  std::vector<size_t> next(static_cast<size_t>(threads), 0);
  size_t at = 0, runs = 0;
  int last = -1;
  while (at < got.size()) {
    int found = -1;
    for (int t = 0; t < threads; t++) {
      auto& w = want[static_cast<size_t>(t)];
      auto& k = next[static_cast<size_t>(t)];
      if (k < w.size() && got.compare(at, w[k].size(), w[k]) == 0) { found = t; at += w[k].size(); k++; break; }
    }
    VH_CHECK(found >= 0, "C17.merge", "no thread's next line is at byte %zu: '%s' (%d threads)", at, Esc(got.substr(at, 120)).c_str(), threads);
    if (found != last) runs++;
    last = found;
  }
  for (int t = 0; t < threads; t++)
    VH_CHECK(next[static_cast<size_t>(t)] == want[static_cast<size_t>(t)].size(), "C17.merge", "thread %d wrote %zu of %zu lines", t,
             next[static_cast<size_t>(t)], want[static_cast<size_t>(t)].size());
  unlink(path.c_str());
  Stat("concurrent_lines", static_cast<uint64_t>(threads) * static_cast<uint64_t>(each));
  Stat("line_runs", runs);
  if (runs > static_cast<size_t>(threads)) Stat("interleaved_cases");
  Distinct(Mix(h));
  if (index % 2000 == 1) Sample(Fmt("%d threads, %d lines each: %zu alternations", threads, each, runs));
}

}  // namespace

int main(int argc, char** argv) {
  Init(argc, argv);
  if (opt.scratch.empty()) { fprintf(stderr, "needs --scratch\n"); return 3; }
  const bool conc = opt.mode == "conc";
  ForCases([&](uint64_t i, Rng& r) {
    if (conc) Concurrent(i, r);
    else if (i % 10 == 9) OpenFailures(r);
    else Sequential(i, r);
  }, conc ? 217 : 117);
  Flush();
}
