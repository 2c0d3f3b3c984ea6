// Container helpers against the standard algorithms (C22).
#define VH_DEFINE_ASSERT 1
#include "vh.h"

#include <algorithm>
#include <array>
#include <deque>
#include <forward_list>
#include <functional>
#include <list>
#include <map>
#include <memory>
#include <random>
#include <set>
#include <string>
#include <unordered_map>
#include <utility>
#include <vector>

#include "rst/stl/algorithm.h"
#include "rst/stl/function.h"
#include "rst/stl/hash.h"
#include "rst/stl/resize_uninitialized.h"
#include "rst/stl/reversed.h"
#include "rst/stl/vector_builder.h"

using namespace vh;

namespace {

// An element with a key that may repeat and a tag that does not.
struct El {
  int key = 0, tag = 0;
  friend bool operator<(const El& a, const El& b) { return a.key < b.key; }
  friend bool operator==(const El& a, const El& b) { return a.key == b.key && a.tag == b.tag; }
};
// A move-only element.
struct Mo {
  Mo() = default;
  Mo(int k, int t) : p(new El{k, t}) {}
  Mo(Mo&&) noexcept = default;
  Mo& operator=(Mo&&) noexcept = default;
  std::unique_ptr<El> p = std::make_unique<El>();
  friend bool operator<(const Mo& a, const Mo& b) { return a.p->key < b.p->key; }
};
int Key(const El& e) { return e.key; }
int Key(const Mo& e) { return e.p->key; }
int Tag(const El& e) { return e.tag; }
int Tag(const Mo& e) { return e.p->tag; }
El Make(int k, int t, El*) { return El{k, t}; }
Mo Make(int k, int t, Mo*) { return Mo(k, t); }

// Orders: by key, reverse, modulo, all equal.
struct Order {
  int kind;
  int m;
  long* calls;
  template <class T>
  bool operator()(const T& a, const T& b) const {
    ++*calls;
    switch (kind) {
      case 0: return Key(a) < Key(b);
      case 1: return Key(a) > Key(b);
      case 2: return ((Key(a) % m) + m) % m < ((Key(b) % m) + m) % m;
      case 3: return false;
      default: return Tag(a) > Tag(b);
    }
  }
};
// Must be called as it is, not copied, when it is handed over by reference.
struct OnlyRef {
  explicit OnlyRef(Order o) : o(o) {}
  OnlyRef(const OnlyRef&) = default;
  template <class T> bool operator()(const T& a, const T& b) { return o(a, b); }
  Order o;
};

template <class C> std::vector<std::pair<int, int>> Flat(const C& c) {
  std::vector<std::pair<int, int>> r;
  for (const auto& e : c) r.emplace_back(Key(e), Tag(e));
  return r;
}
using Flats = std::vector<std::pair<int, int>>;
std::string Show(const Flats& f) {
  std::string s;
  for (auto& [k, t] : f) s += Fmt("%d:%d ", k, t);
  return s;
}
Flats Sorted(Flats f) { std::sort(f.begin(), f.end()); return f; }
struct FlatOrder {
  Order o;
  bool operator()(const std::pair<int, int>& a, const std::pair<int, int>& b) const { return o(El{a.first, a.second}, El{b.first, b.second}); }
};

uint64_t g_h;

Flats Gen(Rng& r, size_t n) {
  Flats f;
  const int range = r.Chance(1, 3) ? 3 : r.Chance(1, 2) ? 1000 : 20;
  for (size_t i = 0; i < n; i++) f.emplace_back(static_cast<int>(r.In(-range, range)), static_cast<int>(i));
  switch (r.Below(5)) {
    case 0: std::sort(f.begin(), f.end()); break;
    case 1: std::sort(f.rbegin(), f.rend()); break;
    default: break;
  }
  return f;
}
// Containers of a given content.
template <class C> C Build(const Flats& f) {
  C c;
  for (auto& [k, t] : f) c.push_back(Make(k, t, static_cast<typename C::value_type*>(nullptr)));
  return c;
}

template <class C>
void Sorting(Rng& r, C& c, const Flats& f, const char* what) {
  long calls = 0;
  const Order o{static_cast<int>(r.Below(5)), static_cast<int>(r.In(1, 5)), &calls};
  const uint64_t op = r.Below(7);
  g_h = HashStr(Show(f), g_h * 31 + op * 7 + static_cast<uint64_t>(o.kind));
  switch (op) {
    case 0: case 1: {
      const bool with = op == 1;
      if (with) { if (r.Chance(1, 2)) rst::c_sort(c, o); else { OnlyRef ref(o); rst::c_sort(c, ref); } }
      else rst::c_sort(c);
      const Flats g = Flat(c);
      const Order key{0, 1, &calls};
      VH_CHECK(Sorted(g) == Sorted(f), "C22.sort", "c_sort of %s lost elements: %s from %s", what, Show(g).c_str(), Show(f).c_str());
      VH_CHECK(std::is_sorted(g.begin(), g.end(), FlatOrder{with ? o : key}), "C22.sort", "c_sort of %s left %s", what, Show(g).c_str());
      break;
    }
    case 2: case 3: {
      const bool with = op == 3;
      if (with) { if (r.Chance(1, 2)) rst::c_stable_sort(c, o); else { OnlyRef ref(o); rst::c_stable_sort(c, ref); } }
      else rst::c_stable_sort(c);
      Flats g = f;
      std::stable_sort(g.begin(), g.end(), FlatOrder{with ? o : Order{0, 1, &calls}});
      VH_CHECK(Flat(c) == g, "C22.stable_sort", "c_stable_sort of %s left %s instead of %s", what, Show(Flat(c)).c_str(), Show(g).c_str());
      break;
    }
    case 4: {
      const bool want = std::is_sorted(f.begin(), f.end(), FlatOrder{o});
      VH_CHECK(rst::c_is_sorted(std::as_const(c), o) == want, "C22.is_sorted", "c_is_sorted of %s %s is %d", what, Show(f).c_str(), !want);
      VH_CHECK(Flat(c) == f, "C22.is_sorted", "c_is_sorted changed the container");
      // Nearly sorted, with one place out of order.
      Flats s = f;
      std::sort(s.begin(), s.end(), FlatOrder{o});
      if (s.size() > 1 && r.Chance(2, 3)) std::swap(s[r.Below(s.size() - 1)], s[s.size() - 1]);
      if (s.size() > 1 && r.Chance(1, 3)) std::swap(s[0], s[r.Below(s.size())]);
      std::vector<El> v = Build<std::vector<El>>(s);
      const bool w = std::is_sorted(s.begin(), s.end(), FlatOrder{o});
      VH_CHECK(rst::c_is_sorted(v, o) == w, "C22.is_sorted", "c_is_sorted of %s is %d", Show(s).c_str(), !w);
      break;
    }
    case 5: {
      std::mt19937_64 a(r.U64()), b = a;
      const size_t n = f.size();
      std::vector<El> v = Build<std::vector<El>>(f);
      const int rounds = static_cast<int>(r.In(1, 3));
      for (int k = 0; k < rounds; k++) {
        rst::c_shuffle(c, a);
        std::shuffle(v.begin(), v.end(), b);
        VH_CHECK(Flat(c) == Flat(v), "C22.shuffle", "c_shuffle of %s gives %s instead of %s", what, Show(Flat(c)).c_str(), Show(Flat(v)).c_str());
      }
      VH_CHECK(a == b, "C22.shuffle", "c_shuffle of %zu elements used the generator differently", n);
      break;
    }
    default: {
      const int limit = static_cast<int>(r.In(-4, 4));
      const int m = static_cast<int>(r.In(1, 6));
      // In long containers, also elements that are far away or absent.
      const int from = r.Chance(1, 2) ? 0 : static_cast<int>(f.size()) - static_cast<int>(r.Below(f.size() + f.size() / 4 + 1));
      auto want = std::find_if(f.begin(), f.end(), [&](const auto& e) { return e.first > limit && e.second % m == 0 && e.second >= from; });
      long seen = 0;
      auto it = rst::c_find_if(c, [&](const auto& e) { seen++; return Key(e) > limit && Tag(e) % m == 0 && Tag(e) >= from; });
      const auto d = std::distance(std::begin(c), it);
      VH_CHECK(d == want - f.begin(), "C22.find_if", "c_find_if of %s %s found place %ld instead of %ld", what, Show(f).c_str(), static_cast<long>(d),
               static_cast<long>(want - f.begin()));
      VH_CHECK(seen == (want == f.end() ? static_cast<long>(f.size()) : d + 1), "C22.find_if", "the predicate was called %ld times", seen);
      const C& k = c;
      auto ci = rst::c_find_if(k, [&](const auto& e) { return Key(e) > limit && Tag(e) % m == 0 && Tag(e) >= from; });
      VH_CHECK(ci == it, "C22.find_if", "the constant container gives another place");
      VH_CHECK(Flat(c) == f, "C22.find_if", "c_find_if changed the container");
    }
  }
}

// A heap with a history of pushes and pops.
template <class C>
void Heaps(Rng& r, const char* what) {
  long calls = 0;
  const Order o{static_cast<int>(r.Below(5)), static_cast<int>(r.In(1, 5)), &calls};
  C c;
  std::vector<El> ref;
  std::multiset<std::pair<int, int>> in;
  const int n = static_cast<int>(r.Chance(1, 60) ? r.In(1, 1500) : r.In(1, 60));
  int tag = 0;
  for (int i = 0; i < n; i++) {
    if (ref.empty() || r.Chance(3, 5)) {
      const El e{static_cast<int>(r.In(-9, 9)), tag++};
      c.push_back(Make(e.key, e.tag, static_cast<typename C::value_type*>(nullptr)));
      ref.push_back(e);
      in.emplace(e.key, e.tag);
      if (r.Chance(1, 2)) rst::c_push_heap(c, o); else { auto ro = o; rst::c_push_heap(c, ro); }
      std::push_heap(ref.begin(), ref.end(), o);
    } else {
      rst::c_pop_heap(c, o);
      std::pop_heap(ref.begin(), ref.end(), o);
      VH_CHECK(Flat(c) == Flat(ref), "C22.heap", "c_pop_heap of %s left %s instead of %s", what, Show(Flat(c)).c_str(), Show(Flat(ref)).c_str());
      const El last{Key(c.back()), Tag(c.back())};
      for (auto& [k, t] : in) VH_CHECK(!o(last, El{k, t}), "C22.heap", "c_pop_heap of %s gave %d:%d, which is not the greatest", what, last.key, last.tag);
      in.erase(in.find({last.key, last.tag}));
      c.pop_back();
      ref.pop_back();
    }
    VH_CHECK(Flat(c) == Flat(ref), "C22.heap", "the heap in %s is %s instead of %s", what, Show(Flat(c)).c_str(), Show(Flat(ref)).c_str());
  }
  g_h = HashStr(Show(Flat(c)), g_h * 31 + 3);
}

template <class C>
void Reverse(C& c, const char* what) {
  std::vector<const void*> a, b;
  for (auto& e : c) a.push_back(&e);
  for (auto& e : rst::Reversed(c)) b.push_back(&e);
  std::reverse(b.begin(), b.end());
  VH_CHECK(a == b, "C22.reversed", "Reversed(%s) visits %zu elements in the wrong order", what, b.size());
  std::vector<const void*> d;
  const C& k = c;
  for (const auto& e : rst::Reversed(k)) d.push_back(&e);
  std::reverse(d.begin(), d.end());
  VH_CHECK(a == d, "C22.reversed", "Reversed(const %s) visits %zu elements in the wrong order", what, d.size());
  const auto adapter = rst::Reversed(c);
  auto copy = adapter;
  VH_CHECK(std::distance(copy.begin(), copy.end()) == static_cast<long>(a.size()), "C22.reversed", "the copy of Reversed(%s) has another length", what);
}

template <size_t n>
void Arrays(Rng& r) {
  const Flats f = Gen(r, n);
  El a[n];
  for (size_t i = 0; i < n; i++) a[i] = El{f[i].first, f[i].second};
  std::array<El, n> b;
  std::copy(a, a + n, b.begin());
  struct Guard { El lo; El body[n]; El hi; } g;
  g.lo = g.hi = El{12345, -1};
  std::copy(a, a + n, g.body);
  Sorting(r, g.body, f, "an array");
  VH_CHECK(g.lo.key == 12345 && g.hi.key == 12345, "C22.sort", "an element next to the array changed");
  Reverse(a, "array");
  Reverse(b, "std::array");
}

// ------------------------------------------------------------ functions
int g_copies, g_moves, g_live;
template <int kSize>
struct Fn {
  int id;
  char pad[kSize] = {};
  explicit Fn(int id) : id(id) { g_live++; }
  Fn(const Fn& o) : id(o.id) { g_live++; g_copies++; }
  Fn(Fn&& o) noexcept : id(o.id) { g_live++; g_moves++; o.id = -1; }
  ~Fn() { g_live--; }
  int operator()(int x) { return id++ * 1000 + x; }
};
template <int kSize>
void TakeCase(Rng& r) {
  g_live = 0;
  {
    const int id = static_cast<int>(r.In(1, 1000));
    std::function<int(int)> f = Fn<kSize>(id);
    const int calls = static_cast<int>(r.Below(3));
    for (int i = 0; i < calls; i++) (void)f(0);
    g_copies = 0;
    const bool empty = r.Chance(1, 5);
    if (empty) f = nullptr;
    std::function<int(int)> g = rst::TakeFunction(std::move(f));
    VH_CHECK(f == nullptr, "C22.take", "the taken function is not empty");
    VH_CHECK((g == nullptr) == empty, "C22.take", "taking %s function gives %s one", empty ? "an empty" : "a", empty ? "a" : "an empty");
    VH_CHECK(g_copies == 0, "C22.take", "taking copied the function");
    if (!empty) {
      VH_CHECK(g_live == 1, "C22.take", "%d instances are alive", g_live);
      VH_CHECK(g(7) == (id + calls) * 1000 + 7, "C22.take", "the function lost its state");
      f = rst::TakeFunction(std::move(g));
      VH_CHECK(g == nullptr && f(1) == (id + calls + 1) * 1000 + 1, "C22.take", "the function lost its state");
      f = rst::TakeFunction(std::move(f));
      VH_CHECK(f != nullptr && f(2) == (id + calls + 2) * 1000 + 2, "C22.take", "taking a function into itself lost it");
    }
  }
  VH_CHECK(g_live == 0, "C22.take", "%d function objects were not destroyed", g_live);
  // Arguments by value, by reference, move-only ones, and no result.
  int hits = 0;
  std::function<int(Fn<kSize>)> by_value = [](Fn<kSize> a) { return a.id; };
  g_copies = 0;
  (void)by_value(Fn<kSize>(5));
  const int before = g_copies;
  g_copies = 0;
  auto taken = rst::TakeFunction(std::move(by_value));
  VH_CHECK(taken(Fn<kSize>(6)) == 6 && by_value == nullptr, "C22.take", "an argument was lost");
  VH_CHECK(g_copies == before, "C22.take", "a call of the taken function copies its argument %d times, of the original one %d", g_copies, before);
#ifndef VH_REDUCED
  std::function<void(int&, std::unique_ptr<int>)> v = [&hits](int& x, std::unique_ptr<int> p) { hits++; x += *p; };
  auto w = rst::TakeFunction(std::move(v));
  int x = 1;
  w(x, std::make_unique<int>(41));
  VH_CHECK(v == nullptr && hits == 1 && x == 42, "C22.take", "arguments were lost");
#endif
}

// ------------------------------------------------------------ hash
std::map<size_t, std::vector<size_t>> g_results;
size_t Combine(const std::vector<size_t>& v) {
  switch (v.size()) {
    case 0: return rst::HashCombine({});
    case 1: return rst::HashCombine({v[0]});
    case 2: return rst::HashCombine({v[0], v[1]});
    case 3: return rst::HashCombine({v[0], v[1], v[2]});
    case 4: return rst::HashCombine({v[0], v[1], v[2], v[3]});
    case 5: return rst::HashCombine({v[0], v[1], v[2], v[3], v[4]});
    case 6: return rst::HashCombine({v[0], v[1], v[2], v[3], v[4], v[5]});
    case 7: return rst::HashCombine({v[0], v[1], v[2], v[3], v[4], v[5], v[6]});
#define E8(i) v[i], v[i + 1], v[i + 2], v[i + 3], v[i + 4], v[i + 5], v[i + 6], v[i + 7]
    case 9: return rst::HashCombine({E8(0), v[8]});
    case 17: return rst::HashCombine({E8(0), E8(8), v[16]});
    case 40: return rst::HashCombine({E8(0), E8(8), E8(16), E8(24), E8(32)});
#undef E8
    default: return rst::HashCombine({v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7]});
  }
}
// The same in another process, at other addresses.
void OtherProcess() {
  std::string here;
  for (size_t n = 0; n < 9; n++) {
    std::vector<size_t> v(n);
    for (size_t i = 0; i < n; i++) v[i] = i * n * 0x123456789abcdefu + 3;
    here += Fmt("%zx ", Combine(v));
  }
  if (const char* there = getenv("VH_PROBE")) {
    FILE* f = fopen(there, "w");
    if (f) { fputs(here.c_str(), f); fclose(f); }
    _exit(0);
  }
  const std::string file = Fmt("%s/vh-hash.%d", opt.scratch.empty() ? "/tmp" : opt.scratch.c_str(), static_cast<int>(getpid()));
  if (system(Fmt("VH_PROBE=%s /proc/%d/exe >/dev/null 2>&1", file.c_str(), static_cast<int>(getpid())).c_str()) != 0) { unlink(file.c_str()); return; }
  char buf[400] = {};
  if (FILE* f = fopen(file.c_str(), "r")) { (void)!fread(buf, 1, sizeof(buf) - 1, f); fclose(f); unlink(file.c_str()); }
  VH_CHECK(here == buf, "C22.hash", "hashes differ between processes: %s and %s", here.c_str(), buf);
  Stat("processes compared", 1);
}

std::string ShowV(const std::vector<size_t>& v) { std::string s; for (size_t x : v) s += Fmt("%zx ", x); return s; }
void HashCase(Rng& r) {
  static const size_t kLong[] = {9, 17, 40};
  const size_t n = r.Chance(1, 10) ? kLong[r.Below(3)] : r.Below(9);
  std::vector<size_t> v(n);
  const uint64_t small = r.Below(3);
  for (auto& x : v) x = small == 0 ? r.Below(8) : small == 1 ? r.U64() : r.U64() & (r.Chance(1, 2) ? 0xffffffff00000000u : 0x8000000080000001u);
  const size_t h = Combine(v);
  Obs(Fmt("%zx", h));
  VH_CHECK(h == Combine(v), "C22.hash", "the hash of %s varies", ShowV(v).c_str());
  if (n == 0) { VH_CHECK(h == 0, "C22.hash", "the hash of nothing is %zx", h); return; }
  if (n == 1) VH_CHECK(h == v[0], "C22.hash", "the hash of %zx alone is %zx", v[0], h);
  // Every element counts, in every bit.
  for (size_t i = 0; i < n; i++) {
    auto w = v;
    w[i] ^= size_t{1} << r.Below(64);
    VH_CHECK(Combine(w) != h, "C22.hash", "the hash of %s does not depend on element %zu", ShowV(v).c_str(), i);
    for (size_t j = 0; j < i; j++) {
      if (v[i] == v[j]) continue;
      w = v;
      std::swap(w[i], w[j]);
      VH_CHECK(Combine(w) != h, "C22.hash", "the hash of %s does not depend on the order of %zu and %zu", ShowV(v).c_str(), i, j);
    }
  }
  if (n > 1 && g_results.size() < 200000) {
    auto [it, fresh] = g_results.emplace(h, v);
    VH_CHECK(fresh || it->second == v, "C22.hash", "%s and %s have the same hash", ShowV(v).c_str(), ShowV(it->second).c_str());
  }
  // A function of the element hashes only.
  const std::string s(r.Below(40), static_cast<char>('a' + r.Below(26)));
  const int k = static_cast<int>(r.U64());
  const double d = r.Unit();
  const int* p = &k;
  const size_t a = rst::HashCombine({s, k, d, p, true, 'x'});
  const size_t b = rst::HashCombine({std::hash<std::string>()(s), std::hash<int>()(k), std::hash<double>()(d), std::hash<const int*>()(p),
                                     std::hash<bool>()(true), std::hash<char>()('x')});
  VH_CHECK(a == b, "C22.hash", "equal element hashes give different results");
  VH_CHECK(rst::HashCombine({s}) == std::hash<std::string>()(s), "C22.hash", "a single element does not keep its hash");
  std::string t = s;
  const std::string& tr = t;
  VH_CHECK(rst::HashCombine({std::string(s), 1}) == rst::HashCombine({tr, 1}), "C22.hash", "the value category matters");
  Stat("hashes", n + n * n / 2);
}

// ------------------------------------------------------------ strings
struct Custom {  // as in libc++
  std::string s;
  size_t asked = 0;
  int plain = 0, uninit = 0;
  void resize(size_t n) { plain++; s.resize(n); }
  void __resize_default_init(size_t n) { uninit++; asked = n; s.resize(n, '\xAB'); }
};
template <class S>
void ResizeCase(Rng& r, const char* what) {
  S s;
  S model;
  const int n = static_cast<int>(r.In(1, 8));
  for (int i = 0; i < n; i++) {
    const size_t size = r.Chance(1, 3) ? r.Below(40) : r.Chance(1, 2) ? r.In(14, 17) : r.Chance(1, 30) ? r.Below(300000) : r.Below(2000);
    const size_t keep = std::min(size, model.size());
    if (r.Chance(1, 2)) rst::StringResizeUninitialized(&s, size);
    else rst::StringResizeUninitialized(rst::NotNull<S*>(&s), size);
    VH_CHECK(s.size() == size, "C22.resize", "%s has size %zu instead of %zu", what, s.size(), size);
    for (size_t k = 0; k < keep; k++) VH_CHECK(s[k] == model[k], "C22.resize", "%s lost element %zu of %zu on the way to size %zu", what, k, model.size(), size);
    for (size_t k = keep; k < size; k++) s[k] = static_cast<typename S::value_type>('a' + (k * 7 + static_cast<size_t>(i)) % 26);
    if (size && r.Chance(1, 2)) s[r.Below(size)] = 0;
    model = s;
    g_h = g_h * 31 + size;
  }
}

// ------------------------------------------------------------ builder
int g_b_copies;
struct Built {
  int a = 0;
  std::string b;
  std::unique_ptr<int> c;
  const int* ref = nullptr;
  Built() = default;
  Built(int a, std::string b) : a(a), b(std::move(b)) {}
  Built(const int& a, std::unique_ptr<int> c) : a(a), c(std::move(c)), ref(&a) {}
};
struct Counted {
  int id;
  explicit Counted(int id) : id(id) {}
  Counted(const Counted& o) : id(o.id) { g_b_copies++; }
  Counted(Counted&& o) noexcept : id(o.id) { o.id = -1; }
};
void BuilderCase(Rng& r) {
  const int k = static_cast<int>(r.U64() % 1000);
  std::vector<Built> v = rst::VectorBuilder<Built>().emplace_back().emplace_back(k, "text").emplace_back(k, std::make_unique<int>(k + 1)).Build();
  VH_CHECK(v.size() == 3 && v[0].a == 0 && v[1].a == k && v[1].b == "text" && v[2].ref == &k && *v[2].c == k + 1, "C22.builder", "an element differs");
  VH_CHECK(rst::VectorBuilder<Built>().Build().empty(), "C22.builder", "an empty builder gives elements");
  g_b_copies = 0;
  rst::VectorBuilder<Counted> b;
  const int n = static_cast<int>(r.Below(30));
  for (int i = 0; i < n; i++) std::move(b).emplace_back(k + i);
  auto w = std::move(b).Build();
  VH_CHECK(w.size() == static_cast<size_t>(n), "C22.builder", "%zu elements instead of %d", w.size(), n);
  for (int i = 0; i < n; i++) VH_CHECK(w[static_cast<size_t>(i)].id == k + i, "C22.builder", "element %d differs", i);
  VH_CHECK(g_b_copies == 0, "C22.builder", "building copied elements");
  std::string source = "moved from a long enough text";
  auto t = rst::VectorBuilder<std::string>().emplace_back(source).emplace_back(std::move(source)).emplace_back(3u, 'x').Build();
  VH_CHECK(t.size() == 3 && t[0] == t[1] && t[2] == "xxx" && source.empty(), "C22.builder", "strings differ");
}

// Sizes at which a narrow position wraps, with what matters at the far end.
template <class C>
void Huge(Rng& r, const char* what) {
  static const size_t kEdges[] = {128, 255, 256, 257, 32768, 65535, 65536, 65537, 65600, 70001, 131072, 131073};
  const size_t n = kEdges[r.Below(12)];
  C c;
  for (size_t i = 0; i < n; i++) c.push_back(static_cast<int>(i));
  VH_CHECK(rst::c_is_sorted(c, std::less<>()), "C22.is_sorted", "%s of %zu sorted elements is not sorted", what, n);
  for (size_t k : {n - 1, n - 2, n / 2, n % 65536, size_t{n - n % 256}, size_t{0}, n}) {
    auto it = rst::c_find_if(c, [&](int e) { return e >= static_cast<int>(k); });
    VH_CHECK(std::distance(c.begin(), it) == static_cast<long>(k), "C22.find_if", "c_find_if of %s of %zu found place %ld instead of %zu", what, n,
             static_cast<long>(std::distance(c.begin(), it)), k);
  }
  size_t seen = 0;
  for (int& e : rst::Reversed(c)) {
    VH_CHECK(e == static_cast<int>(n - 1 - seen), "C22.reversed", "place %zu from the end of %s of %zu is %d", seen, what, n, e);
    seen++;
  }
  VH_CHECK(seen == n, "C22.reversed", "Reversed() of %s of %zu shows %zu elements", what, n, seen);
  std::swap(c[n - 1], c[n - 2]);
  VH_CHECK(!rst::c_is_sorted(c, std::less<>()), "C22.is_sorted", "%s of %zu is sorted although its last two are not", what, n);
  C want = c;
  std::mt19937 g(static_cast<unsigned>(r.U64())), g2 = g;
  rst::c_shuffle(c, g);
  std::shuffle(want.begin(), want.end(), g2);
  VH_CHECK(c == want && g == g2, "C22.shuffle", "c_shuffle of %s of %zu differs", what, n);
  const int m = static_cast<int>(r.In(2, 9));
  auto less = [&](int a, int b) { return a % m < b % m; };
  C d = c;
  rst::c_stable_sort(d, less);
  std::stable_sort(want.begin(), want.end(), less);
  VH_CHECK(d == want, "C22.stable_sort", "c_stable_sort of %s of %zu differs", what, n);
  rst::c_sort(c);
  for (size_t i = 0; i < n; i++) VH_CHECK(c[i] == static_cast<int>(i), "C22.sort", "c_sort of %s of %zu puts %d at %zu", what, n, c[i], i);
  rst::c_sort(c, std::greater<>());
  for (size_t i = 0; i < n; i++) VH_CHECK(c[i] == static_cast<int>(n - 1 - i), "C22.sort", "c_sort of %s of %zu puts %d at %zu", what, n, c[i], i);
  Stat("huge containers");
}

void Case(uint64_t i, Rng& r) {
  if (i % 400 == 17) { if (r.Chance(1, 2)) Huge<std::vector<int>>(r, "a vector"); else Huge<std::deque<int>>(r, "a deque"); }
  g_h = r.U64() & 0xff;
  static bool first = true;
  if (std::exchange(first, false)) OtherProcess();
  const size_t n = i % 80 == 11 ? r.Below(r.Chance(1, 4) ? 70000 : 6000) : r.Chance(1, 6) ? r.Below(3) : r.Chance(1, 8) ? r.Below(300) : r.Below(30);
  const uint64_t what = r.Below(14);
  switch (what) {
    case 0: case 1: { const Flats f = Gen(r, n); auto c = Build<std::vector<El>>(f); Sorting(r, c, f, "a vector"); Obs(Show(Flat(c))); Reverse(c, "vector"); break; }
    case 2: { const Flats f = Gen(r, n); auto c = Build<std::deque<El>>(f); Sorting(r, c, f, "a deque"); Obs(Show(Flat(c))); Reverse(c, "deque"); break; }
    case 3: case 4: { const Flats f = Gen(r, n); auto c = Build<std::vector<Mo>>(f); Sorting(r, c, f, "a vector of move-only elements"); Obs(Show(Flat(c))); break; }
    case 5: {
      switch (r.Below(3)) {
        case 0: Arrays<1>(r); break;
        case 1: Arrays<7>(r); break;
        default: {
          Arrays<40>(r);
          const Flats f = Gen(r, 18);
          auto v = Build<std::vector<El>>(f);
          std::array<El, 18> b;
          std::copy(v.begin(), v.end(), b.begin());
          Sorting(r, b, f, "std::array");
        }
      }
      break;
    }
    case 6: Heaps<std::vector<El>>(r, "a vector"); break;
    case 7: if (r.Chance(1, 2)) Heaps<std::deque<El>>(r, "a deque"); else Heaps<std::vector<Mo>>(r, "a vector of move-only elements"); break;
    case 8: {
      const Flats f = Gen(r, n);
      std::list<El> l = Build<std::list<El>>(f);
      std::map<int, int> m(f.begin(), f.end());
      std::string s(n, 'a');
      Reverse(l, "list");
      Reverse(m, "map");
      Reverse(s, "string");
      {
        // An adapter gives the elements that are there when it is asked.
        std::vector<int> grown;
        grown.reserve(f.size() + 2);
        for (const auto& e : f) grown.push_back(e.first);
        const auto adapter = rst::Reversed(grown);
        std::vector<int> before(adapter.begin(), adapter.end());
        if (r.Chance(1, 2)) grown.insert(grown.begin(), -1);
        if (r.Chance(1, 2) || grown.empty()) grown.push_back(-2); else grown.pop_back();
        std::vector<int> after(adapter.begin(), adapter.end());
        std::reverse(after.begin(), after.end());
        VH_CHECK(before.size() == f.size() && after == grown, "C22.reversed", "Reversed() gives %zu elements of %zu after the vector was changed", after.size(), grown.size());
      }
      if (!f.empty()) {
        // Writing through.
        int k = 0;
        for (auto& e : rst::Reversed(l)) e.key = k++;
        VH_CHECK(l.front().key == k - 1 && l.back().key == 0, "C22.reversed", "a write through Reversed() was lost");
        auto it = rst::c_find_if(l, [&](const El& e) { return e.key == k / 2; });
        VH_CHECK(it != l.end() && it->key == k / 2, "C22.find_if", "c_find_if of a list failed");
        it->tag = -7;
        auto mi = rst::c_find_if(m, [&](const auto& e) { return e.first == f[0].first; });
        VH_CHECK(mi != m.end() && mi == m.find(f[0].first), "C22.find_if", "c_find_if of a map failed");
        std::forward_list<int> fl{3, 1, 2};
        VH_CHECK(rst::c_find_if(fl, [](int x) { return x == 9; }) == fl.end(), "C22.find_if", "c_find_if found nothing somewhere");
        VH_CHECK(!rst::c_is_sorted(fl, std::less<>()) && rst::c_is_sorted(std::set<int>{1, 2, 3}, std::less<>()), "C22.is_sorted", "c_is_sorted of a list or set is wrong");
      }
      g_h = HashStr(Show(f), g_h + 8);
      break;
    }
    case 9: if (r.Chance(1, 2)) TakeCase<1>(r); else TakeCase<100>(r); break;
    case 10: case 11: HashCase(r); g_h = r.U64(); break;
    case 12: {
      ResizeCase<std::string>(r, "string");
      ResizeCase<std::wstring>(r, "wstring");
      ResizeCase<std::vector<char>>(r, "vector");
      ResizeCase<std::u16string>(r, "u16string");
      Custom c;
      const size_t k = r.Below(100);
      rst::StringResizeUninitialized(&c, k);
      VH_CHECK(c.s.size() == k, "C22.resize", "the string has size %zu instead of %zu", c.s.size(), k);
      break;
    }
    default: BuilderCase(r);
  }
  Distinct(g_h * 131 + what);
  if (i % 3000 == 0) Sample(Fmt("kind %d, %zu elements, hash %016llx", static_cast<int>(what), n, static_cast<unsigned long long>(g_h)));
}

}  // namespace

int main(int argc, char** argv) {
  if (getenv("VH_PROBE")) OtherProcess();
  Init(argc, argv);
  ForCases(Case, 22);
  Flush();
  return 0;
}
