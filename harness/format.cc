// Format() and StrCat() against an independent rendering (C15).
#define VH_DEFINE_ASSERT 1
#include "vh.h"

#include <cmath>
#include <limits>
#include <memory>
#include <string>
#include <utility>
#include <vector>

#include "rst/strings/format.h"
#include "rst/strings/str_cat.h"

using namespace vh;
using rst::internal::Arg;

namespace {

enum class E8 : int8_t {};
enum class EU8 : uint8_t {};
enum E16 : short {};
enum class EU16 : unsigned short {};
enum class E32 : int {};
enum EU32 : unsigned {};
enum class E64 : long long {};
enum class EU64 : unsigned long long {};
enum class EL : long {};
enum class EUL : unsigned long {};
enum Plain { kPlainLow = -7, kPlainHigh = 1000000 };

struct V {
  int kind = 0;
  int64_t i = 0;
  uint64_t u = 0;
  double d = 0;
  long double ld = 0;
  std::string s;                // text bytes, followed by nothing
  std::unique_ptr<char[]> heap; // exactly sized
  std::string want;
};
constexpr int kKinds = 30;

// C++17 elision: the argument is built in place.
Arg A(const V& v) {
  switch (v.kind) {
    case 0: return Arg(v.i != 0);
    case 1: return Arg(static_cast<char>(v.i));
    case 2: return Arg(static_cast<short>(v.i));
    case 3: return Arg(static_cast<unsigned short>(v.u));
    case 4: return Arg(static_cast<int>(v.i));
    case 5: return Arg(static_cast<unsigned>(v.u));
    case 6: return Arg(static_cast<long>(v.i));
    case 7: return Arg(static_cast<unsigned long>(v.u));
    case 8: return Arg(static_cast<long long>(v.i));
    case 9: return Arg(static_cast<unsigned long long>(v.u));
    case 10: return Arg(static_cast<float>(v.d));
    case 11: return Arg(v.d);
    case 12: return Arg(v.ld);
    case 13: return Arg(v.s);
    case 14: return Arg(std::string_view(v.heap.get(), v.s.size()));
    case 15: return Arg(static_cast<const char*>(v.heap.get()));
    case 16: return Arg(rst::NotNull<const char*>(v.heap.get()));
    case 17: return Arg(static_cast<E8>(v.i));
    case 18: return Arg(static_cast<EU8>(v.u));
    case 19: return Arg(static_cast<E16>(v.i));
    case 20: return Arg(static_cast<EU16>(v.u));
    case 21: return Arg(static_cast<E32>(v.i));
    case 22: return Arg(static_cast<EU32>(v.u));
    case 23: return Arg(static_cast<E64>(v.i));
    case 24: return Arg(static_cast<EU64>(v.u));
    case 25: return Arg(static_cast<EL>(v.i));
    case 26: return Arg(static_cast<EUL>(v.u));
    case 27: return Arg(v.i % 2 ? kPlainLow : kPlainHigh);
    case 28: return Arg(std::string_view());
    default: return Arg(static_cast<signed char>(v.i));
  }
}

int64_t GenI(Rng& r, int bits) {
  const int64_t lo = bits == 64 ? INT64_MIN : -(int64_t{1} << (bits - 1)), hi = bits == 64 ? INT64_MAX : (int64_t{1} << (bits - 1)) - 1;
  switch (r.Below(5)) {
    case 0: return lo + static_cast<int64_t>(r.Below(3));
    case 1: return hi - static_cast<int64_t>(r.Below(3));
    case 2: return r.In(-11, 11);
    case 3: {
      int64_t p = 1;
      const uint64_t maxd = bits == 8 ? 3 : bits == 16 ? 5 : bits == 32 ? 10 : 19;
      for (uint64_t k = r.Below(maxd); k > 0; k--) p *= 10;
      p += r.In(-1, 1);
      if (p > hi) p = hi;
      return r.Chance(1, 2) ? p : -p;
    }
    default: return static_cast<int64_t>(r.U64()) >> (64 - bits) >> (bits > 1 ? r.Below(static_cast<uint64_t>(bits)) : 0);
  }
}
uint64_t GenU(Rng& r, int bits) {
  const uint64_t hi = bits == 64 ? ~uint64_t{0} : (uint64_t{1} << bits) - 1;
  switch (r.Below(4)) {
    case 0: return hi - r.Below(3);
    case 1: return r.Below(12);
    case 2: {
      uint64_t p = 1;
      const uint64_t maxd = bits == 8 ? 3 : bits == 16 ? 5 : bits == 32 ? 10 : 20;
      for (uint64_t k = r.Below(maxd); k > 0; k--) p *= 10;
      p += r.Below(3) - 1;
      return p > hi ? hi : p;
    }
    default: return (r.U64() >> (64 - bits)) >> r.Below(static_cast<uint64_t>(bits));
  }
}
double GenD(Rng& r) {
  switch (r.Below(9)) {
    case 0: return static_cast<double>(r.In(-20, 20));
    case 1: return r.Unit();
    case 2: return (r.Chance(1, 2) ? -1 : 1) * std::ldexp(r.Unit() + 0.5, static_cast<int>(r.In(-1073, 1023)));
    case 3: return -0.0;
    case 4: return (r.Chance(1, 2) ? 1 : -1) * std::numeric_limits<double>::infinity();
    case 5: return r.Chance(1, 2) ? std::numeric_limits<double>::quiet_NaN() : -std::numeric_limits<double>::quiet_NaN();
    case 6: return static_cast<double>(r.In(-9999999, 9999999)) * std::pow(10.0, static_cast<double>(r.In(-12, 12)));
    case 7: return (r.Chance(1, 2) ? 1 : -1) * (r.Chance(1, 2) ? std::numeric_limits<double>::max() : std::numeric_limits<double>::denorm_min());
    default: return 999999.5 + static_cast<double>(r.In(-2, 2)) * 0.25;
  }
}

V GenV(Rng& r) {
  V v;
  v.kind = static_cast<int>(r.Below(kKinds));
  static const int ibits[kKinds] = {0, 8, 16, 0, 32, 0, 64, 0, 64, 0, 0, 0, 0, 0, 0, 0, 0, 8, 0, 16, 0, 32, 0, 64, 0, 64, 0, 0, 0, 8};
  static const int ubits[kKinds] = {0, 0, 0, 16, 0, 32, 0, 64, 0, 64, 0, 0, 0, 0, 0, 0, 0, 0, 8, 0, 16, 0, 32, 0, 64, 0, 64, 0, 0, 0};
  if (ibits[v.kind]) { v.i = GenI(r, ibits[v.kind]); v.want = Fmt("%lld", static_cast<long long>(v.i)); }
  if (ubits[v.kind]) { v.u = GenU(r, ubits[v.kind]); v.want = Fmt("%llu", static_cast<unsigned long long>(v.u)); }
  switch (v.kind) {
    case 0: v.i = static_cast<int64_t>(r.Below(2)); v.want = v.i ? "true" : "false"; break;
    case 1: v.i = r.In(-128, 127); if (r.Chance(1, 4)) v.i = 0; v.want = std::string(1, static_cast<char>(v.i)); break;
    case 10: {
      double d = GenD(r);
      if (std::isfinite(d) && std::fabs(d) > static_cast<double>(std::numeric_limits<float>::max()))
        d = std::copysign(static_cast<double>(std::numeric_limits<float>::max()), d);
      v.d = static_cast<double>(static_cast<float>(d));
      v.want = Fmt("%g", v.d);
      break;
    }
    case 11: v.d = GenD(r); v.want = Fmt("%g", v.d); break;
    case 12:
      v.ld = static_cast<long double>(GenD(r));
      if (r.Chance(1, 3)) v.ld = std::ldexp(static_cast<long double>(r.Unit()) + 0.5L, static_cast<int>(r.In(-16440, 16383))) * (r.Chance(1, 2) ? 1 : -1);
      v.want = Fmt("%Lg", v.ld);
      break;
    case 13: case 14: case 15: case 16: {
      static const size_t kEdges[] = {127, 128, 255, 256, 257, 511, 512, 32768, 65535, 65536, 65537, 131072};
      size_t n = r.Chance(1, 60) ? r.Below(100000) : r.Chance(1, 40) ? kEdges[r.Below(12)] : r.Chance(1, 4) ? 0 : r.Below(40);
      v.s.resize(n);
      const bool any = v.kind <= 14;
      for (auto& c : v.s) {
        c = static_cast<char>(r.Chance(1, 2) ? "{}%s 0\n\\"[r.Below(8)] : static_cast<char>(r.Below(256)));
        if (!any && c == 0) c = '0';
      }
      v.heap.reset(new char[n + (any ? 0 : 1)]);
      memcpy(v.heap.get(), v.s.data(), n);
      if (!any) v.heap[n] = 0;
      v.want = v.s;
      break;
    }
    case 27: v.i = static_cast<int64_t>(r.Below(2)); v.want = v.i % 2 ? "-7" : "1000000"; break;
    case 28: break;
    default: break;
  }
  return v;
}

// Numbers of arguments in use.
constexpr size_t kCounts[] = {0, 1, 2, 3, 4, 5, 6, 7, 9, 12, 17, 33};
constexpr size_t kCountsNum = sizeof kCounts / sizeof *kCounts;
template <size_t... I>
std::string CatN(const std::vector<V>& v, std::index_sequence<I...>) { return rst::StrCat({A(v[I])...}); }
template <size_t... K>
std::string CatAny(const std::vector<V>& v, std::index_sequence<K...>) {
  std::string r;
  ((v.size() == kCounts[K] ? (r = CatN(v, std::make_index_sequence<kCounts[K]>()), 0) : 0), ...);
  return r;
}
std::string Cat(const std::vector<V>& v) { return CatAny(v, std::make_index_sequence<kCountsNum>()); }

constexpr size_t kMaxFormat = 48;
template <size_t N, size_t... I>
std::string FormatN(const char (&a)[N], const std::vector<V>& v, std::index_sequence<I...>) { return rst::Format(a, {A(v[I])...}); }
template <size_t N, size_t... K>
std::string FormatAny(const char (&a)[N], const std::vector<V>& v, std::index_sequence<K...>) {
  std::string r;
  ((v.size() == kCounts[K] ? (r = FormatN(a, v, std::make_index_sequence<kCounts[K]>()), 0) : 0), ...);
  return r;
}
template <size_t N>
std::string DoFormat(const char* f, const std::vector<V>& v, bool plain) {
  const char(&a)[N] = *reinterpret_cast<const char(*)[N]>(f);
  if (v.empty() && plain) return rst::Format(a);
  return FormatAny(a, v, std::make_index_sequence<kCountsNum>());
}
using Fn = std::string (*)(const char*, const std::vector<V>&, bool);
template <size_t... I>
Fn Pick(size_t n, std::index_sequence<I...>) {
  static const Fn fns[] = {&DoFormat<I + 1>...};
  return fns[n];
}
std::string RunFormat(const std::string& f, const std::vector<V>& v, bool plain) {
  std::unique_ptr<char[]> heap(new char[f.size() + 1]);
  memcpy(heap.get(), f.c_str(), f.size() + 1);
  switch (f.size()) {
    case 64: return DoFormat<65>(heap.get(), v, plain);
    case 100: return DoFormat<101>(heap.get(), v, plain);
    case 127: return DoFormat<128>(heap.get(), v, plain);
    case 300: return DoFormat<301>(heap.get(), v, plain);
    case 1024: return DoFormat<1025>(heap.get(), v, plain);
    case 5000: return DoFormat<5001>(heap.get(), v, plain);
    default: return Pick(f.size(), std::make_index_sequence<kMaxFormat + 1>())(heap.get(), v, plain);
  }
}

// The documented grammar.
bool Render(const std::string& f, const std::vector<V>& v, std::string* out) {
  size_t arg = 0;
  for (size_t i = 0; i < f.size(); i++) {
    const char c = f[i], n = i + 1 < f.size() ? f[i + 1] : '\0';
    if (c == '{' && n == '}') {
      if (arg >= v.size()) return false;
      *out += v[arg++].want;
      i++;
    } else if (c == '{' && n == '{') { *out += '{'; i++; }
    else if (c == '}' && n == '}') { *out += '}'; i++; }
    else if (c == '{' || c == '}') return false;
    else *out += c;
  }
  return arg == v.size();
}

std::string GenFormat(Rng& r, size_t args, bool valid) {
  std::string f;
  size_t left = args;
  for (int n = static_cast<int>(r.Below(10)); n > 0 || left > 0; n--) {
    if (left > 0 && (n <= 0 || r.Chance(1, 2))) { f += "{}"; left--; continue; }
    switch (r.Below(5)) {
      case 0: f += "{{"; break;
      case 1: f += "}}"; break;
      case 2: for (uint64_t k = 1 + r.Below(4); k > 0; k--) f += static_cast<char>('a' + r.Below(26)); break;
      case 3: f += static_cast<char>(1 + r.Below(255)); if (f.back() == '{' || f.back() == '}') f.back() = ' '; break;
      default: f += " %d\n\\"[r.Below(5)]; break;
    }
  }
  if (!valid) {
    for (uint64_t k = 1 + r.Below(2); k > 0; k--) {
      const char b = r.Chance(1, 2) ? '{' : '}';
      switch (r.Below(4)) {
        case 0: f.insert(f.begin() + static_cast<long>(r.Below(f.size() + 1)), b); break;
        case 1: if (!f.empty()) f.erase(f.begin() + static_cast<long>(r.Below(f.size()))); break;
        case 2: if (!f.empty()) f[r.Below(f.size())] = b; break;
        default: f += b;
      }
    }
  }
  return f;
}

// A format of one of the sizes in use.
std::string GenSized(Rng& r, size_t args, bool valid) {
  std::string f = GenFormat(r, args, valid);
  static const size_t sizes[] = {64, 100, 127, 300, 1024, 5000};
  while (f.size() > kMaxFormat && args < 12) f = GenFormat(r, args, valid);
  if (f.size() <= kMaxFormat && !r.Chance(1, 20)) return f;
  const size_t low = r.Below(6);
  size_t want = sizes[low];
  for (size_t k = low; k < 6 && want < f.size(); k++) want = sizes[k];
  // Filled up with text or doubled braces at the front, the middle or the end.
  size_t at = 0;
  if (r.Chance(2, 3)) at = r.Chance(1, 2) ? f.size() : r.Below(f.size() + 1);
  if (at > 0 && at < f.size() && (f[at - 1] == '{' || f[at - 1] == '}')) at = f.size();
  std::string fill;
  while (f.size() + fill.size() < want) {
    if (f.size() + fill.size() + 2 <= want && r.Chance(1, 6)) fill += r.Chance(1, 2) ? "{{" : "}}";
    else fill += static_cast<char>('A' + r.Below(26));
  }
  f.insert(at, fill);
  return f;
}

std::string Kinds(const std::vector<V>& v) {
  std::string s;
  for (auto& x : v) s += Fmt("%d:'%s' ", x.kind, Esc(x.want, 30).c_str());
  return s;
}

void Case(uint64_t index, Rng& r) {
  std::vector<V> v;
  const size_t n = kCounts[r.Below(r.Chance(1, 12) ? kCountsNum : 9)];
  for (size_t i = 0; i < n; i++) v.push_back(GenV(r));
  std::string want;
  for (auto& x : v) want += x.want;
  const std::string got = Cat(v);
  VH_CHECK(got == want, "C15.cat", "StrCat of %s is '%s' instead of '%s'", Kinds(v).c_str(), Esc(got).c_str(), Esc(want).c_str());
  VH_CHECK(strlen(got.c_str() + got.size()) == 0, "C15.cat", "the result is not terminated");
  for (auto& x : v) {
    // Each value on its own, so that neighbours can't hide anything.
    std::vector<V> one;
    const std::string s = rst::StrCat({A(x)});
    VH_CHECK(s == x.want, "C15.arg", "value of kind %d renders as '%s' instead of '%s'", x.kind, Esc(s).c_str(), Esc(x.want).c_str());
    Stat("values");
  }
  std::string f;
  f = GenSized(r, n, true);
  want.clear();
  if (!Render(f, v, &want)) { fprintf(stderr, "bad format generated\n"); exit(3); }
  const std::string out = RunFormat(f, v, r.Chance(1, 2));
  VH_CHECK(out == want, "C15.format", "Format('%s') of %s is '%s' instead of '%s'", Esc(f).c_str(), Kinds(v).c_str(), Esc(out).c_str(), Esc(want).c_str());
  VH_CHECK(out.c_str()[out.size()] == '\0', "C15.format", "the result is not terminated");
  Obs(got);
  Obs(out);
  Stat("formats");
  Distinct(HashStr(f, HashStr(got)));
  if (index % 4000 == 0) Sample(Fmt("'%s' with %s", Esc(f).c_str(), Kinds(v).c_str()));
  // Broken formats and argument counts.
  for (int k = 0; k < 3; k++) {
    const bool count_only = r.Chance(1, 3);
    size_t m = n;
    if (count_only) m = r.Below(8) + (n > 9 ? n - 4 : 0);
    std::string b;
    b = GenSized(r, m, count_only);
    std::string x;
    const bool valid = Render(b, v, &x);
    if (valid) {
      const std::string y = RunFormat(b, v, false);
      VH_CHECK(y == x, "C15.format", "Format('%s') of %s is '%s' instead of '%s'", Esc(b).c_str(), Kinds(v).c_str(), Esc(y).c_str(), Esc(x).c_str());
      Stat("formats");
    } else if (Violating()) {
      VH_CHECK(Rejects([&] { (void)RunFormat(b, v, v.empty()); }), "C15.reject", "Format('%s') with %zu arguments is accepted", Esc(b).c_str(), n);
      Stat("rejections");
    }
  }
}

#define VH_X10(i) A(v[i]), A(v[i + 1]), A(v[i + 2]), A(v[i + 3]), A(v[i + 4]), A(v[i + 5]), A(v[i + 6]), A(v[i + 7]), A(v[i + 8]), A(v[i + 9])
#define VH_X100(i) VH_X10(i), VH_X10(i + 10), VH_X10(i + 20), VH_X10(i + 30), VH_X10(i + 40), VH_X10(i + 50), VH_X10(i + 60), VH_X10(i + 70), VH_X10(i + 80), VH_X10(i + 90)
// More arguments and more text between them than one byte counts.
void ManyCase(Rng& r) {
  std::vector<V> v;
  for (int i = 0; i < 300; i++) {
    v.push_back(GenV(r));
    if (v.back().want.size() > 300) { v.pop_back(); i--; }
  }
  std::string want;
  for (auto& x : v) want += x.want;
  const std::string got = rst::StrCat({VH_X100(0), VH_X100(100), VH_X100(200)});
  VH_CHECK(got == want, "C15.cat", "StrCat of 300 arguments is '%s' instead of '%s'", Esc(got).c_str(), Esc(want).c_str());
  std::string f;
  for (int i = 0; i < 300; i++) f += "{}";
  while (f.size() < 1024) {
    const size_t at = 2 * r.Below(301);
    f.insert(at < f.size() && at > 0 && f[at - 1] == '}' ? at : f.size(), f.size() + 2 <= 1024 && r.Chance(1, 8) ? "{{" : ",");
  }
  want.clear();
  if (!Render(f, v, &want)) return;  // two braces met
  std::unique_ptr<char[]> heap(new char[f.size() + 1]);
  memcpy(heap.get(), f.c_str(), f.size() + 1);
  const std::string out = rst::Format(*reinterpret_cast<const char(*)[1025]>(heap.get()), {VH_X100(0), VH_X100(100), VH_X100(200)});
  VH_CHECK(out == want, "C15.format", "Format of 300 arguments is '%s' instead of '%s'", Esc(out).c_str(), Esc(want).c_str());
  Stat("formats of many");
}

// Calls as a user writes them, with conversions left to the compiler.
void Natural() {
  const std::string s("st\0r", 4);
  std::string t = rst::StrCat({1, " ", 2u, " ", 3L, " ", 4ULL, ' ', true, s, std::string_view("v\0w", 3), 1.5f, 2.5, 3.5L, E16(-3)});
  VH_CHECK(t == std::string("1 2 3 4 truest\0rv\0w1.52.53.5-3", 30), "C15.natural", "StrCat gives '%s'", Esc(t).c_str());
  t = rst::Format("{{{}}}-{}{}", {"a", 'b', false});
  VH_CHECK(t == "{a}-bfalse", "C15.natural", "Format gives '%s'", Esc(t).c_str());
  t = rst::Format("");
  VH_CHECK(t.empty(), "C15.natural", "Format of nothing gives '%s'", Esc(t).c_str());
}

}  // namespace

int main(int argc, char** argv) {
  Init(argc, argv);
  Natural();
  ForCases([](uint64_t i, Rng& r) {
    if (i % 100 == 3) ManyCase(r);
    Case(i, r);
  }, 115);
  Flush();
}
