// Common support for the monitors: seeded random numbers, failure reports,
// counters, death oracle.  Header only; each harness is one translation unit.
#ifndef VERIF_LIB_VH_H_
#define VERIF_LIB_VH_H_

#include <setjmp.h>
#include <signal.h>
#include <unistd.h>

#include <cinttypes>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <string>
#include <string_view>
#include <unordered_set>
#include <vector>

#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define VH_ASAN 1
#endif
#endif
#if defined(__SANITIZE_ADDRESS__)
#define VH_ASAN 1
#endif

extern "C" void __sanitizer_set_death_callback(void (*)(void)) __attribute__((weak));
extern "C" void __lsan_disable(void) __attribute__((weak));
extern "C" void __lsan_enable(void) __attribute__((weak));

namespace vh {

// ---------------------------------------------------------------- random
inline uint64_t Mix(uint64_t x) {
  x += 0x9e3779b97f4a7c15ULL;
  x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL;
  x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL;
  return x ^ (x >> 31);
}

class Rng {
 public:
  explicit Rng(uint64_t seed = 1) : s_(Mix(seed)) {}
  uint64_t U64() { s_ += 0x9e3779b97f4a7c15ULL; uint64_t x = s_;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL;
    return x ^ (x >> 31); }
  // Uniform in [0, n).
  uint64_t Below(uint64_t n) { return n == 0 ? 0 : U64() % n; }
  // Uniform in [lo, hi].
  int64_t In(int64_t lo, int64_t hi) {
    return lo + static_cast<int64_t>(Below(static_cast<uint64_t>(hi - lo) + 1));
  }
  bool Chance(int num, int den) { return Below(static_cast<uint64_t>(den)) < static_cast<uint64_t>(num); }
  double Unit() { return static_cast<double>(U64() >> 11) * 0x1.0p-53; }
  template <class T>
  const T& Pick(const std::vector<T>& v) { return v[Below(v.size())]; }
  using result_type = uint64_t;
  static constexpr uint64_t min() { return 0; }
  static constexpr uint64_t max() { return ~uint64_t{0}; }
  uint64_t operator()() { return U64(); }

 private:
  uint64_t s_;
};

// ---------------------------------------------------------------- options
struct Options {
  uint64_t seed = 1;
  uint64_t shard = 0, shards = 1;
  uint64_t cases = 1000;
  int64_t only = -1;           // replay exactly this case
  uint64_t from = 0;           // skip the cases before this one
  std::string mode;            // harness specific
  std::string scratch;         // scratch directory (exists, is ours)
  std::string hashes;          // file for distinct-case hashes
  std::string transcript;      // file for the transcript (C23)
  int verbose = 0;
  bool same = false;           // the same steps in debug and release builds (C23)
};
inline Options opt;
inline volatile int64_t g_case = -1;
inline const char* volatile g_where = "";

inline void PrintDeath() {
  char b[160];
  const int n = snprintf(b, sizeof b, "\n@DIED case=%lld where=%s\n",
                         static_cast<long long>(g_case), g_where);
  if (n > 0) (void)!write(1, b, static_cast<size_t>(n));
}

// ---------------------------------------------------------------- counters
inline std::map<std::string, uint64_t> stats;
inline std::unordered_set<uint64_t> distinct;
inline std::vector<std::string> samples;
inline uint64_t transcript_hash = 1469598103934665603ULL;
inline FILE* transcript_file = nullptr;

inline void Stat(const char* name, uint64_t n = 1) { stats[name] += n; }
inline uint64_t HashBytes(const void* p, size_t n, uint64_t h = 1469598103934665603ULL) {
  auto c = static_cast<const unsigned char*>(p);
  for (size_t i = 0; i < n; i++) h = (h ^ c[i]) * 1099511628211ULL;
  return h;
}
inline uint64_t HashStr(std::string_view s, uint64_t h = 1469598103934665603ULL) {
  return HashBytes(s.data(), s.size(), h);
}
inline void Distinct(uint64_t h) { if (distinct.size() < 400000) distinct.insert(Mix(h)); }

inline std::string Esc(std::string_view s, size_t max = 400) {
  std::string r;
  for (unsigned char c : s) {
    if (r.size() >= max) { r += "..."; break; }
    if (c >= 32 && c < 127 && c != '\\') r += static_cast<char>(c);
    else { char b[8]; snprintf(b, sizeof b, "\\x%02x", c); r += b; }
  }
  return r;
}

// A text that programs like to treat specially.
inline std::string SpecialText(Rng& r) {
  static const std::vector<std::string> v = {
      "\xef\xbb\xbf", "\xff\xfe", "\xfe\xff", "\r\n", "\n", "\r", "\x1a", "\x04", std::string(1, '\0'), std::string(4, '\0'), " ", "\t", "  x  ", "#!/bin/sh\n",
      "\x1f\x8b", "PK\x03\x04", "null", "true", "false", "nan", "-nan", "inf", "0", "-0", "00", "1", "-1", "1e5", "0x10", "undefined", "None",
      "\"", "\"x\"", "'", "\\", "\\n", "\\0", "/", "//", ".", "..", "...", "../x", "~", "$HOME", "%s%n", "%%", "%d", "{}", "{0}", "{{", "}}", "{", "}", "[]", "[", "<>", "<!--", "&amp;",
      "\x1b[31mred\x1b[0m", "\x7f", "\x80", "\xc0\x80", "\xed\xa0\x80", "\xf4\x90\x80\x80", "\xf0\x9f\x98\x80", "\xe2\x80\x8b", "\xc2\xa0", "\xc2\xad",
      "e\xcc\x81", "\xc3\x9f", "\xef\xbf\xbd", "DROP TABLE", "EOF", "ERROR", "FATAL", "password=secret", "a\n\nb", ",", ";", "a,b", "=", "|", "*", "?", "__proto__", "id", "key", "value"};
  return v[r.Below(v.size())];
}
// |s| with such texts at its start, end or in its place.
inline std::string WithSpecial(Rng& r, std::string s) {
  switch (r.Below(5)) {
    case 0: return SpecialText(r) + s;
    case 1: return s + SpecialText(r);
    case 2: return SpecialText(r);
    case 3: return SpecialText(r) + s + SpecialText(r);
    default: return SpecialText(r) + SpecialText(r);
  }
}
inline std::string Fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));
inline std::string Fmt(const char* f, ...) {
  va_list ap; va_start(ap, f);
  char* p = nullptr;
  const int n = vasprintf(&p, f, ap);
  va_end(ap);
  std::string r(p, n < 0 ? 0 : static_cast<size_t>(n));
  free(p);
  return r;
}

inline void Sample(const std::string& s) {
  if (samples.size() < 4) samples.push_back(s);
}
// Adds a line to the transcript of observable results (compared between builds).
inline void Obs(std::string_view s) {
  transcript_hash = HashStr(s, transcript_hash) * 1099511628211ULL + 7;
  if (transcript_file) {
    fprintf(transcript_file, "%lld %s\n", static_cast<long long>(g_case), Esc(s, 2000).c_str());
  }
}

inline void Flush() {
  for (const auto& [k, v] : stats) printf("@STAT %s %" PRIu64 "\n", k.c_str(), v);
  for (const auto& s : samples) printf("@SAMPLE %s\n", Esc(s, 1500).c_str());
  printf("@DISTINCT %zu\n", distinct.size());
  printf("@TRANSCRIPT %016" PRIx64 "\n", transcript_hash);
  fflush(stdout);
  if (!opt.hashes.empty()) {
    if (FILE* f = fopen(opt.hashes.c_str(), "wb")) {
      for (uint64_t h : distinct) fwrite(&h, 8, 1, f);
      fclose(f);
    }
  }
  if (transcript_file) fflush(transcript_file);
}

// Reports a violation and ends the process.
[[noreturn]] inline void Fail(const char* key, const std::string& msg) {
  if (opt.only < 0) Flush();
  std::string s = Fmt("\n@FAIL key=%s case=%lld seed=%llu msg=%s\n", key,
                      static_cast<long long>(g_case),
                      static_cast<unsigned long long>(opt.seed), Esc(msg, 6000).c_str());
  (void)!write(1, s.data(), s.size());
  _exit(1);
}
#define VH_CHECK(cond, key, ...) \
  do { if (__builtin_expect(!(cond), 0)) ::vh::Fail(key, ::vh::Fmt(__VA_ARGS__)); } while (0)

// ---------------------------------------------------------------- death oracle
// Dies(f) runs f and tells whether it was stopped by an assertion failure,
// abort or trap.  Frames between are skipped without running destructors.
inline thread_local sigjmp_buf* t_jump = nullptr;
inline void DeathHandler(int sig) {
  if (t_jump) { sigjmp_buf* j = t_jump; t_jump = nullptr; siglongjmp(*j, 1); }
  PrintDeath();
  signal(sig, SIG_DFL);
  raise(sig);
}
inline void TermHandler(int) {
  char b[160];
  const int n = snprintf(b, sizeof b, "\n@HANG case=%lld where=%s\n", static_cast<long long>(g_case), g_where);
  if (n > 0) (void)!write(1, b, static_cast<size_t>(n));
  _exit(97);
}
inline void InstallDeathHandlers() {
  signal(SIGTERM, TermHandler);
  for (int s : {SIGABRT, SIGILL, SIGTRAP}) {
    struct sigaction sa;
    memset(&sa, 0, sizeof sa);
    sa.sa_handler = DeathHandler;
    sa.sa_flags = SA_NODEFER;
    sigaction(s, &sa, nullptr);
  }
}
template <class F>
__attribute__((noinline)) bool Dies(F&& f) {
  sigjmp_buf j;
  if (sigsetjmp(j, 1)) return true;
  t_jump = &j;
  f();
  t_jump = nullptr;
  return false;
}

#ifndef NDEBUG
constexpr bool kDebug = true;
#else
constexpr bool kDebug = false;
#endif
// Whether the preconditions that only debug builds check are kept.
inline bool Strict() { return kDebug || opt.same; }
// Whether violations of them are provoked.
inline bool Violating() { return kDebug && !opt.same; }
// Dies() without leak reports for what the skipped frames owned.
template <class F>
bool Rejects(F&& f) {
  if (__lsan_disable) __lsan_disable();
  const bool d = Dies(f);
  if (__lsan_enable) __lsan_enable();
  return d;
}

// ---------------------------------------------------------------- main
inline void Init(int argc, char** argv) {
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto next = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
    if (a == "--seed") opt.seed = strtoull(next().c_str(), nullptr, 10);
    else if (a == "--shard") opt.shard = strtoull(next().c_str(), nullptr, 10);
    else if (a == "--shards") opt.shards = strtoull(next().c_str(), nullptr, 10);
    else if (a == "--cases") opt.cases = strtoull(next().c_str(), nullptr, 10);
    else if (a == "--from") opt.from = strtoull(next().c_str(), nullptr, 10);
    else if (a == "--only") opt.only = strtoll(next().c_str(), nullptr, 10);
    else if (a == "--mode") opt.mode = next();
    else if (a == "--scratch") opt.scratch = next();
    else if (a == "--hashes") opt.hashes = next();
    else if (a == "--transcript") opt.transcript = next();
    else if (a == "--same") opt.same = true;
    else if (a == "-v") opt.verbose++;
    else { fprintf(stderr, "bad option %s\n", a.c_str()); exit(2); }
  }
  if (__sanitizer_set_death_callback) __sanitizer_set_death_callback(PrintDeath);
  if (!opt.transcript.empty()) transcript_file = fopen(opt.transcript.c_str(), "w");
  InstallDeathHandlers();
  setvbuf(stdout, nullptr, _IOFBF, 1 << 16);
}
// Runs |f(case index, rng)| for all cases of this shard.
template <class F>
void ForCases(F&& f, uint64_t salt = 0) {
  for (uint64_t i = opt.shard; i < opt.cases; i += opt.shards) {
    if (i < opt.from) continue;
    if (opt.only >= 0 && static_cast<uint64_t>(opt.only) != i) continue;
    g_case = static_cast<int64_t>(i);
    Rng r(Mix(opt.seed * 1000003 + salt) ^ Mix(i + 17));
    f(i, r);
    Stat("cases");
  }
  g_case = -1;
}

}  // namespace vh

// Assertion failures go straight to the oracle when one is armed.
#ifdef VH_DEFINE_ASSERT
extern "C" [[noreturn]] void __assert_fail(const char* expr, const char* file,
                                           unsigned line, const char* func) noexcept {
  if (vh::t_jump) { sigjmp_buf* j = vh::t_jump; vh::t_jump = nullptr; siglongjmp(*j, 1); }
  fprintf(stderr, "%s:%u: %s: Assertion `%s' failed.\n", file, line, func, expr);
  fflush(stderr);
  abort();
}
#endif

#endif  // VERIF_LIB_VH_H_
