// Check macros (C23, mode check), deferred actions and never-destroyed objects
// (C24, mode defer), strong aliases, cloning and wrapping (C26, mode type).
#define VH_DEFINE_ASSERT 1
#include "vh.h"

#include <algorithm>
#include <atomic>
#include <cmath>
#include <functional>
#include <limits>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <thread>
#include <type_traits>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <vector>

#include "rst/bind/bind_helpers.h"
#include "rst/check/check.h"
#include "rst/clone/clone.h"
#include "rst/defer/defer.h"
#include "rst/logger/logger.h"
#include "rst/macros/macros.h"
#include "rst/macros/optimization.h"
#include "rst/memory/memory.h"
#include "rst/no_destructor/no_destructor.h"
#include "rst/not_null/not_null.h"
#include "rst/type/type.h"

using namespace vh;

namespace {

// ------------------------------------------------------------ checks
struct Cond {  // convertible to bool in conditions only
  bool v;
  int* n;
  explicit operator bool() const { ++*n; return v; }
  bool operator!() const { ++*n; return !v; }
};
int g_evals;
template <class T> T Eval(T v) { g_evals++; return v; }

// Runs one check; tells whether it ended the program.
template <class F>
void Verdict(const char* what, bool cond, bool active, int evals_if_active, F&& f) {
  g_evals = 0;
  const bool died = Rejects(f);
  const bool want = active && !cond;
  VH_CHECK(died == want, "C23.check", "%s with a %s condition %s", what, cond ? "true" : "false", died ? "ended the program" : "went on");
  VH_CHECK(g_evals == (active ? evals_if_active : 0), "C23.evals", "%s evaluated its argument %d times", what, g_evals);
  Stat("checks");
}

struct CountingSink : rst::Sink {
  void Log(std::string_view) override { lines++; }
  int lines = 0;
};

void CheckCase(uint64_t, Rng& r) {
  const bool c = r.Chance(1, 2);
  int dummy = 0;
  int x = c ? static_cast<int>(r.In(1, 1000)) : 0;
  const int64_t big = c ? static_cast<int64_t>(r.In(1, 1000)) << 32 : 0;
  const int* p = c ? &dummy : nullptr;
  const double d = c ? r.Unit() + 1e-9 : 0.0;
  const uint64_t k = r.Below(9);
  switch (k) {
    case 0:
      Verdict("RST_CHECK(bool)", c, true, 1, [&] { RST_CHECK(Eval(c)); });
      Verdict("RST_DCHECK(bool)", c, kDebug, 1, [&] { RST_DCHECK(Eval(c)); });
      break;
    case 1:
      Verdict("RST_CHECK(int)", c, true, 1, [&] { RST_CHECK(Eval(x)); });
      Verdict("RST_DCHECK(int)", c, kDebug, 1, [&] { RST_DCHECK(Eval(x)); });
      break;
    case 2:
      Verdict("RST_CHECK(int64_t)", c, true, 1, [&] { RST_CHECK(Eval(big)); });
      Verdict("RST_DCHECK(int64_t)", c, kDebug, 1, [&] { RST_DCHECK(Eval(big)); });
      break;
    case 3:
      Verdict("RST_CHECK(pointer)", c, true, 1, [&] { RST_CHECK(Eval(p)); });
      Verdict("RST_DCHECK(pointer)", c, kDebug, 1, [&] { RST_DCHECK(Eval(p)); });
      break;
    case 4:
      Verdict("RST_CHECK(double)", c, true, 1, [&] { RST_CHECK(Eval(d)); });
      Verdict("RST_DCHECK(double)", c, kDebug, 1, [&] { RST_DCHECK(Eval(d)); });
      break;
    case 5:
      Verdict("RST_CHECK(||)", c, true, 2, [&] { RST_CHECK(Eval(false) || Eval(c)); });
      Verdict("RST_DCHECK(||)", c, kDebug, 2, [&] { RST_DCHECK(Eval(false) || Eval(c)); });
      Verdict("RST_CHECK(== 0)", !c, true, 1, [&] { RST_CHECK(Eval(x) == 0); });
      Verdict("RST_CHECK(?:)", c, true, 1, [&] { RST_CHECK(c ? Eval(true) : Eval(false)); });
      Verdict("RST_DCHECK(?:)", c, kDebug, 1, [&] { RST_DCHECK(c ? Eval(true) : Eval(false)); });
      Verdict("RST_CHECK(< ,)", c, true, 1, [&] { RST_CHECK((std::is_same<int, int>::value && Eval(c))); });
      break;
    case 6: {
      // As the only statement of branches.
      int branch = 0;
      Verdict("RST_CHECK in a branch", c, true, 1, [&] { if (x >= 0) RST_CHECK(Eval(c)); else branch = 1; });
      Verdict("RST_DCHECK in a branch", c, kDebug, 1, [&] { if (x >= 0) RST_DCHECK(Eval(c)); else branch = 1; });
      Verdict("RST_DCHECK in a skipped branch", true, kDebug, 0, [&] { if (x < 0) RST_DCHECK(Eval(false)); else branch += 2; });
      Verdict("RST_CHECK in a skipped branch", true, true, 0, [&] { if (x < 0) RST_CHECK(Eval(false)); else branch += 2; });
      VH_CHECK(branch == 4, "C23.check", "a check took the else of another if (%d)", branch);
      break;
    }
    case 7: {
      g_evals = 0;
      const bool died = Rejects([] { RST_NOTREACHED(); });
      VH_CHECK(died == kDebug, "C23.check", "RST_NOTREACHED() %s", died ? "ended the program" : "went on");
      // What follows a check that holds is run.
      RST_CHECK(Eval(true));
      RST_DCHECK(Eval(true));
      VH_CHECK(g_evals == (kDebug ? 2 : 1), "C23.evals", "%d evaluations", g_evals);
      Verdict("RST_DCHECK with an assignment", true, kDebug, 1, [&] { RST_DCHECK((dummy = Eval(5)) == 5); });
      VH_CHECK(dummy == (kDebug ? 5 : 0), "C23.evals", "the side effect is %d", dummy);
      int n = 0;
      const Cond cond{c, &n};
      const bool gone = Rejects([&] { RST_CHECK(cond); });
      VH_CHECK(gone == !c && n == 1, "C23.check", "RST_CHECK of an object %s after %d evaluations", gone ? "ended the program" : "went on", n);
      VH_CHECK(RST_BUILDFLAG(DCHECK_IS_ON) == kDebug, "C23.check", "RST_BUILDFLAG(DCHECK_IS_ON) is wrong");
      break;
    }
    default: {
      // Debug-only logging.
      auto sink = std::make_unique<CountingSink>();
      CountingSink* const s = sink.get();
      static std::unique_ptr<rst::Logger> old;
      auto logger = std::make_unique<rst::Logger>(rst::NotNull<std::unique_ptr<rst::Sink>>(std::move(sink)));
      logger->set_level(rst::Logger::Level::kAll);
      rst::Logger::SetGlobalLogger(rst::NotNull<rst::Logger*>(logger.get()));
      old = std::move(logger);
      g_evals = 0;
      RST_DLOG_DEBUG((g_evals++, std::string_view("a")));
      RST_DLOG_INFO((g_evals++, std::string_view("b")));
      RST_DLOG_WARNING((g_evals++, std::string_view("c")));
      RST_DLOG_ERROR((g_evals++, std::string_view("d")));
      VH_CHECK(g_evals == (kDebug ? 4 : 0), "C23.dlog", "debug-only log calls evaluated %d arguments", g_evals);
      VH_CHECK(s->lines == g_evals, "C23.dlog", "%d lines were logged", s->lines);
      const bool died = Rejects([] { RST_DLOG_FATAL((g_evals++, std::string_view("e"))); });
      VH_CHECK(died == kDebug && g_evals == (kDebug ? 5 : 0), "C23.dlog", "RST_DLOG_FATAL %s", died ? "ended the program" : "went on");
      g_evals = 0;
      RST_LOG_INFO((g_evals++, std::string_view("f")));
      VH_CHECK(g_evals == 1 && s->lines == (kDebug ? 6 : 1), "C23.dlog", "RST_LOG_INFO evaluated %d arguments, %d lines", g_evals, s->lines);
    }
  }
  // Branch hints do not change the value.
  if (RST_LIKELY(x > 0)) VH_CHECK(c, "C23.hint", "RST_LIKELY changed a condition"); else VH_CHECK(!c, "C23.hint", "RST_LIKELY changed a condition");
  if (RST_UNLIKELY(x > 0)) VH_CHECK(c, "C23.hint", "RST_UNLIKELY changed a condition"); else VH_CHECK(!c, "C23.hint", "RST_UNLIKELY changed a condition");
  const int v = static_cast<int>(r.U64());
  VH_CHECK(RST_LIKELY_EQ(v, 5) == v, "C23.hint", "RST_LIKELY_EQ changed a value");
  Obs(Fmt("%d %d", static_cast<int>(k), c));
  Distinct(Mix(k * 2 + c) ^ static_cast<uint64_t>(x));
}

// ------------------------------------------------------------ defer
std::string g_ev;
void Ev(const char* s, int n) { g_ev += Fmt("%s%d ", s, n); }
struct Loc { int n; explicit Loc(int n) : n(n) { Ev("+", n); } ~Loc() { Ev("-", n); } };

int g_action_copies, g_action_runs, g_action_live;
struct Action {
  int n;
  explicit Action(int n) : n(n) { g_action_live++; }
  Action(const Action& o) : n(o.n) { g_action_live++; g_action_copies++; }
  Action(Action&& o) noexcept : n(o.n) { g_action_live++; }
  ~Action() { g_action_live--; }
  void operator()() const { g_action_runs++; Ev("A", n); }
};
void Plain() { Ev("P", 0); }
struct Mut { void operator()() { Ev("M", n++); } int n = 7; };

// A program of scopes; how[] picks the way out of each.
int Run(const std::vector<int>& how, int depth, std::string* want) {
  // Both run the same decisions; |want| collects what must happen.
  const int h = how[static_cast<size_t>(depth) % how.size()];
  int state = depth;
  Loc a(depth * 10);
  RST_DEFER([&] { Ev("d", state); });
  Loc b(depth * 10 + 1);
  int rc = 0;
  for (int i = 0; i < 3; i++) {
    RST_DEFER(([&state, i] { Ev("l", i); state++; }));
    Loc c(depth * 10 + 2 + i);
    if (h == 1 && i == 1) continue;
    if (h == 2 && i == 1) break;
    RST_DEFER([i] { Ev("m", i); });
    if (h == 3 && i == 2) return 100 + depth;
    if (h == 4 && i == 1) goto out;
    Ev("b", i);
  }
  switch (h) {
    case 5: { RST_DEFER(Plain); Ev("s", 5); break; }
    default: { const auto f = [n = depth] { Ev("f", n); }; RST_DEFER(f); Ev("s", 6); }
  }
  if (depth + 1 < static_cast<int>(how.size())) {
    RST_DEFER(Action(depth));
    rc = Run(how, depth + 1, want);
    if (h == 6) return rc;
    state += 1000;
  }
out:
  Ev("e", h);
  return rc;
}
// The same by hand.
int Model(const std::vector<int>& how, int depth, std::string& w) {
  const int h = how[static_cast<size_t>(depth) % how.size()];
  auto ev = [&w](const char* s, int n) { w += Fmt("%s%d ", s, n); };
  int state = depth;
  ev("+", depth * 10);
  ev("+", depth * 10 + 1);
  auto leave = [&] { ev("-", depth * 10 + 1); ev("d", state); ev("-", depth * 10); };
  bool jumped = false;
  for (int i = 0; i < 3 && !jumped; i++) {
    ev("+", depth * 10 + 2 + i);
    auto end = [&] { ev("-", depth * 10 + 2 + i); ev("l", i); state++; };
    if (h == 1 && i == 1) { end(); continue; }
    if (h == 2 && i == 1) { end(); break; }
    if (h == 3 && i == 2) { ev("m", i); end(); leave(); return 100 + depth; }
    if (h == 4 && i == 1) { ev("m", i); end(); jumped = true; break; }
    ev("b", i);
    ev("m", i);
    end();
  }
  int rc = 0;
  if (!jumped) {
    if (h == 5) { ev("s", 5); ev("P", 0); } else { ev("s", 6); ev("f", depth); }
    if (depth + 1 < static_cast<int>(how.size())) {
      rc = Model(how, depth + 1, w);
      if (h == 6) { ev("A", depth); leave(); return rc; }
      state += 1000;
      ev("A", depth);
    }
  }
  ev("e", h);
  leave();
  return rc;
}

// Actions whose run goes through scopes with such actions itself.
struct Nested {
  int depth, width;
  std::string* out;
  void operator()() const {
    *out += static_cast<char>('a' + depth);
    if (depth > 0) {
      RST_DEFER((Nested{depth - 1, width, out}));
      for (int i = 1; i < width; i++) {
        RST_DEFER((Nested{depth - 1, width, out}));
        *out += '<';
      }
      *out += '>';
    }
    *out += '.';
  }
};
void NestedByHand(int depth, int width, std::string& out) {
  out += static_cast<char>('a' + depth);
  if (depth > 0) {
    for (int i = 1; i < width; i++) {
      out += '<';
      NestedByHand(depth - 1, width, out);
    }
    out += '>';
    NestedByHand(depth - 1, width, out);
  }
  out += '.';
}
void NestedCase(Rng& r) {
  const int width = static_cast<int>(r.In(1, 3));
  const int depth = static_cast<int>(width == 1 ? r.In(0, 20) : r.In(0, 5));
  std::string got, want;
  {
    RST_DEFER((Nested{depth, width, &got}));
    // One lambda that defers itself.
    std::function<void(int)> self = [&](int n) {
      got += Fmt("%d,", n);
      RST_DEFER(([&, n] { if (n > 0) self(n - 1); }));
      got += ';';
    };
    RST_DEFER(([&] { self(depth); }));
    got += '!';
  }
  want = "!";
  for (int n = depth; n >= 0; n--) want += Fmt("%d,;", n);
  NestedByHand(depth, width, want);
  VH_CHECK(got == want, "C24.order", "actions that run scopes with actions: '%s' instead of '%s'", got.substr(0, 300).c_str(), want.substr(0, 300).c_str());
  Stat("nested_actions", want.size());
}

void DeferCase(Rng& r) {
  if (r.Chance(1, 8)) NestedCase(r);
  std::vector<int> how(static_cast<size_t>(r.In(1, 6)));
  for (auto& h : how) h = static_cast<int>(r.Below(8));
  g_ev.clear();
  g_action_copies = g_action_runs = g_action_live = 0;
  const int rc = Run(how, 0, nullptr);
  std::string w;
  const int want = Model(how, 0, w);
  VH_CHECK(g_ev == w, "C24.order", "'%s' instead of '%s'", g_ev.c_str(), w.c_str());
  VH_CHECK(rc == want, "C24.order", "the function returned %d instead of %d", rc, want);
  VH_CHECK(g_action_live == 0, "C24.order", "%d action objects are alive", g_action_live);
  VH_CHECK(g_action_copies == 0, "C24.order", "a temporary action was copied");
  Distinct(HashStr(w));
  Obs(w);
  Sample(w);
  // Objects by reference, std::function, changed after the defer.
  g_ev.clear();
  {
    std::function<void()> f = [] { Ev("old", 1); };
    RST_DEFER(f);
    auto owned = std::make_unique<int>(static_cast<int>(r.Below(100)));
    const int* raw = owned.get();
    RST_DEFER(([p = std::move(owned), raw] { VH_CHECK(p.get() == raw, "C24.order", "a captured object was lost"); Ev("own", 1); }));
    f = [] { Ev("new", 1); };
    g_ev += "body ";
  }
  // The state of |f| when the scope ends is what runs: it was handed over by reference.
  VH_CHECK(g_ev == "body own1 new1 ", "C24.order", "'%s' ran at the end of a scope", g_ev.c_str());
  g_ev.clear();
  {
    Action act(3);
    RST_DEFER(act);
    RST_DEFER(Action(4));
    act.n = 5;
  }
  VH_CHECK(g_ev == "A4 A5 " && g_action_runs == 2 + static_cast<int>(std::count(w.begin(), w.end(), 'A')), "C24.order", "'%s' ran at the end of a scope", g_ev.c_str());
}

// ---- never destroyed
int g_constructed, g_destroyed;
template <size_t kAlign>
struct alignas(kAlign) Thing {
  Thing(int a, std::string b, std::unique_ptr<int> c) : a(a), b(std::move(b)), c(std::move(c)), self(this) { g_constructed++; }
  Thing(const Thing& o) : a(o.a), b(o.b), c(o.c ? new int(*o.c) : nullptr), self(this) { g_constructed++; }
  Thing(Thing&& o) noexcept : a(o.a), b(std::move(o.b)), c(std::move(o.c)), self(this) { g_constructed++; }
  ~Thing() { g_destroyed++; a = -1; }
  bool Good(int n) const {
    return self == this && a == n && b == "thing " + std::to_string(n) && *c == n && reinterpret_cast<uintptr_t>(this) % kAlign == 0;
  }
  int a;
  std::string b;
  std::unique_ptr<int> c;
  const Thing* self;
};
template <size_t kAlign>
Thing<kAlign> MakeThing(int n) { return Thing<kAlign>(n, "thing " + std::to_string(n), std::make_unique<int>(n)); }

template <class N, class T>
void CheckAccess(N& s, const T* where, int n) {
  const N& c = s;
  VH_CHECK(&*s == where && s.operator->().get() == where && s.get().get() == where && &*c == where && c.operator->().get() == where && c.get().get() == where,
           "C24.access", "the accessors give different objects");
  VH_CHECK(s->Good(n), "C24.access", "object %d is damaged", n);
  VH_CHECK(reinterpret_cast<const char*>(where) >= reinterpret_cast<const char*>(&s) &&
               reinterpret_cast<const char*>(where) + sizeof(T) <= reinterpret_cast<const char*>(&s) + sizeof(N),
           "C24.access", "the object is outside of its storage");
}
std::vector<void*> g_kept;  // keeps what scoped wrappers leave behind reachable

template <size_t kAlign>
void NoDestructorCase(Rng& r) {
  using T = Thing<kAlign>;
  const int n = static_cast<int>(r.In(0, 100000));
  g_constructed = g_destroyed = 0;
  if (__lsan_disable) __lsan_disable();
  {
    rst::NoDestructor<T> s(n, "thing " + std::to_string(n), std::make_unique<int>(n));
    VH_CHECK(g_constructed == 1 && g_destroyed == 0, "C24.once", "%d constructions and %d destructions", g_constructed, g_destroyed);
    const T* where = &*s;
    CheckAccess(s, where, n);
    s->a = n + 1;
    VH_CHECK((*s).a == n + 1, "C24.access", "a write was lost");
    s->a = n;
    CheckAccess(s, where, n);
  }
  VH_CHECK(g_constructed == 1 && g_destroyed == 0, "C24.never", "%d constructions and %d destructions", g_constructed, g_destroyed);
  g_constructed = g_destroyed = 0;
  {
    const rst::NoDestructor<T> s(MakeThing<kAlign>(n));
    VH_CHECK(g_constructed - g_destroyed == 1, "C24.once", "%d objects are alive", g_constructed - g_destroyed);
    CheckAccess(s, &*s, n);
    rst::NoDestructor<T> t(*s);
    CheckAccess(t, &*t, n);
    VH_CHECK(t->c.get() != s->c.get(), "C24.once", "a copy shares its content");
  }
  VH_CHECK(g_constructed - g_destroyed == 2, "C24.never", "%d objects are alive after their scope", g_constructed - g_destroyed);
  // Placed on the heap at the required alignment and deleted: still no destruction.
  g_constructed = g_destroyed = 0;
  auto p = std::make_unique<rst::NoDestructor<T>>(n, "thing " + std::to_string(n), std::make_unique<int>(n));
  CheckAccess(*p, &**p, n);
  p.reset();
  VH_CHECK(g_constructed == 1 && g_destroyed == 0, "C24.never", "%d constructions and %d destructions", g_constructed, g_destroyed);
  // Plain types.
  {
    struct Plain { int a; double b; };
    const rst::NoDestructor<int> i(n), j(n + 1);
    const rst::NoDestructor<Plain> k(Plain{n, 0.5});
    rst::NoDestructor<int*> q(nullptr);
    int here = n;
    *q = &here;
    VH_CHECK(*i == n && *j == n + 1 && *i.get() == n && &*i == i.get().get() && i.operator->().get() == &*i && &*i != &*j && k->a == n && (*k).b == 0.5 && &k->a == &(*k).a && **q == n &&
                 *std::as_const(q) == &here,
             "C24.access", "a plain object kept forever is damaged");
  }
  const rst::NoDestructor<std::vector<int>> v(static_cast<size_t>(3), n);
  // What is given to keep is kept itself, not a copy of it.
  std::vector<int> given(4, n);
  const int* const kept = given.data();
  const rst::NoDestructor<std::vector<int>> w(std::move(given));
  if (__lsan_enable) __lsan_enable();
  static_assert(sizeof(rst::NoDestructor<T>) >= sizeof(T));
  VH_CHECK(v->size() == 3 && (*v)[2] == n, "C24.once", "the arguments were changed");
  VH_CHECK(w->size() == 4 && w->data() == kept, "C24.once", "an object given to keep was copied");
  Distinct(Mix(static_cast<uint64_t>(n) * kAlign + 1));
  Obs(Fmt("%d", n));
  Stat("never destroyed", 5);
}

// Function statics, used from threads and during shutdown.
std::atomic<int> g_static_made{0};
struct Global {
  explicit Global(int n) : data(static_cast<size_t>(n), 'g') { g_static_made++; }
  ~Global() { static const char m[] = "\n@FAIL key=C24.never case=-1 seed=0 msg=a never destroyed object was destroyed at exit\n"; (void)!write(1, m, sizeof m - 1); _exit(1); }
  std::string data;
};
const Global& Get() {
  static const rst::NoDestructor<Global> g(1000);
  return *g;
}
const Global* g_first;
void UseAtExit() {
  // Runs in the middle of the shutdown.
  if (g_first == nullptr) return;
  const Global& g = Get();
  bool good = &g == g_first && g.data.size() == 1000 && g_static_made == 1;
  for (char c : g.data) good = good && c == 'g';
  if (!good) {
    static const char m[] = "\n@FAIL key=C24.shutdown case=-1 seed=0 msg=a never destroyed object is unusable at exit\n";
    (void)!write(1, m, sizeof m - 1);
    _exit(1);
  }
}
struct Late { ~Late() { UseAtExit(); } };
Late g_late;  // constructed before, destroyed after everything made in main

void StaticCase() {
  atexit(UseAtExit);
  std::vector<std::thread> ts;
  std::atomic<const Global*> seen[4];
  for (auto& s : seen) ts.emplace_back([&s] { s = &Get(); });
  for (auto& t : ts) t.join();
  g_first = seen[0];
  for (auto& s : seen) VH_CHECK(s == g_first, "C24.once", "threads see different objects");
  VH_CHECK(g_static_made == 1, "C24.once", "a function static was constructed %d times", g_static_made.load());
  atexit(UseAtExit);
}

// ------------------------------------------------------------ strong aliases
// Each operator answers on its own, so that one cannot stand in for another.
struct Odd {
  int a = 0;
  bool operator==(const Odd& o) const { return a % 2 == o.a % 2; }
  bool operator!=(const Odd& o) const { return a % 3 != o.a % 3; }
  bool operator<(const Odd& o) const { return a % 5 < o.a % 5; }
  bool operator<=(const Odd& o) const { return a % 7 <= o.a % 7; }
  bool operator>(const Odd& o) const { return a % 11 > o.a % 11; }
  bool operator>=(const Odd& o) const { return a % 13 >= o.a % 13; }
};
}  // namespace
namespace std {
template <> struct hash<Odd> { size_t operator()(const Odd& o) const { return static_cast<size_t>(o.a) * 77; } };
}  // namespace std
namespace {
struct TagA;
struct TagB;

template <class U> U Gen(Rng& r);
template <> int Gen(Rng& r) { return r.Chance(1, 2) ? static_cast<int>(r.In(-3, 3)) : static_cast<int>(r.U64()); }
template <> int64_t Gen(Rng& r) { return r.Chance(1, 2) ? r.In(-3, 3) : static_cast<int64_t>(r.U64()); }
template <> unsigned char Gen(Rng& r) { return static_cast<unsigned char>(r.U64()); }
template <> double Gen(Rng& r) {
  static const double v[] = {0.0, -0.0, 1.5, -1.5, std::numeric_limits<double>::infinity(), std::nan(""), std::numeric_limits<double>::denorm_min()};
  return r.Chance(1, 2) ? v[r.Below(7)] : r.Unit();
}
template <> std::string Gen(Rng& r) { std::string s(r.Below(r.Chance(1, 4) ? 60 : 3), 'a'); for (auto& c : s) c = static_cast<char>(r.Below(r.Chance(1, 2) ? 256 : 2)); return s; }
template <> Odd Gen(Rng& r) { return Odd{static_cast<int>(r.Below(1000))}; }
template <> std::vector<bool> Gen(Rng& r) { return std::vector<bool>(r.Below(5), r.Chance(1, 2)); }
template <> std::shared_ptr<int> Gen(Rng& r) { static std::shared_ptr<int> p[3] = {nullptr, std::make_shared<int>(1), std::make_shared<int>(1)}; return p[r.Below(3)]; }
template <> bool Gen(Rng& r) { return r.Chance(1, 2); }
// Whole numbers of every width and sign: small ones, the ends of the range, any.
template <class U> U GenWhole(Rng& r) {
  switch (r.Below(4)) {
    case 0: return static_cast<U>(r.In(-3, 3));
    case 1: return static_cast<U>(std::numeric_limits<U>::max() - static_cast<U>(r.Below(3)));
    case 2: return static_cast<U>(std::numeric_limits<U>::min() + static_cast<U>(r.Below(3)));
    default: return static_cast<U>(r.U64());
  }
}
template <> uint64_t Gen(Rng& r) { return GenWhole<uint64_t>(r); }
template <> uint32_t Gen(Rng& r) { return GenWhole<uint32_t>(r); }
template <> int16_t Gen(Rng& r) { return GenWhole<int16_t>(r); }
template <> uint16_t Gen(Rng& r) { return GenWhole<uint16_t>(r); }
template <> signed char Gen(Rng& r) { return GenWhole<signed char>(r); }
template <> char Gen(Rng& r) { return GenWhole<char>(r); }
template <> unsigned long long Gen(Rng& r) { return GenWhole<unsigned long long>(r); }
template <> float Gen(Rng& r) {
  static const float v[] = {0.0f, -0.0f, 1.5f, -1.5f, std::numeric_limits<float>::infinity(), std::nanf(""), 16777216.0f, 16777215.0f};
  return r.Chance(1, 2) ? v[r.Below(8)] : static_cast<float>(r.Unit());
}
template <> long double Gen(Rng& r) {
  static const long double v[] = {0.0L, -0.0L, 1.0L, 1.0L + std::numeric_limits<long double>::epsilon(), -1.0L};
  return r.Chance(1, 2) ? v[r.Below(5)] : static_cast<long double>(r.U64());
}
enum class Scoped : int { kA = -1, kB = 0, kC = 1 };
enum class Wide : uint64_t { kA = 0, kB = 1ull << 63, kC = ~0ull, kD = 1ull << 32 };
template <> Scoped Gen(Rng& r) { return static_cast<Scoped>(r.In(-1, 1)); }
template <> Wide Gen(Rng& r) { static const Wide v[] = {Wide::kA, Wide::kB, Wide::kC, Wide::kD}; return v[r.Below(4)]; }
int g_cells[8];
template <> int* Gen(Rng& r) { const uint64_t k = r.Below(9); return k == 8 ? nullptr : &g_cells[k]; }
template <> const char* Gen(Rng& r) { static const char kText[] = "same\0same"; return kText + (r.Chance(1, 2) ? 0 : 5); }
template <> std::string_view Gen(Rng& r) { static const char kText[] = "abcabd\xff\0abc"; const size_t at = r.Below(11); return std::string_view(kText + at, r.Below(12 - at)); }
template <> std::wstring Gen(Rng& r) { std::wstring s(r.Below(3), L'a'); for (auto& c : s) c = static_cast<wchar_t>(r.Below(2) ? 0x1F600 : 0x600); return s; }

bool Identical(const float& a, const float& b) { return memcmp(&a, &b, sizeof a) == 0; }
bool Identical(const long double& a, const long double& b) { return memcmp(&a, &b, 10) == 0; }
bool Identical(const std::string_view& a, const std::string_view& b) { return a.data() == b.data() && a.size() == b.size(); }
bool Identical(const double& a, const double& b) { return memcmp(&a, &b, sizeof a) == 0; }
bool Identical(const Odd& a, const Odd& b) { return a.a == b.a; }
template <class U> bool Identical(const U& a, const U& b) { return a == b; }

template <class U>
void TypeCase(Rng& r, const char* what) {
  using A = rst::Type<TagA, U>;
  using Bt = rst::Type<TagB, U>;
  VH_CHECK((!std::is_convertible_v<U, A> && !std::is_convertible_v<A, U> && std::is_constructible_v<A, const U&> && std::is_constructible_v<U, A> &&
            !std::is_constructible_v<A, Bt> && !std::is_convertible_v<A, Bt> && !std::is_assignable_v<A&, Bt> && !std::is_assignable_v<A&, U>),
           "C26.convert", "an alias of %s converts silently", what);
  const U u = Gen<U>(r), v = Gen<U>(r);
  const A a(u), b(v);
  VH_CHECK(Identical(a.value(), u) && Identical(static_cast<U>(a), u), "C26.value", "an alias of %s does not hold its value", what);
  VH_CHECK((a == b) == (u == v), "C26.compare", "== of aliases of %s differs", what);
  VH_CHECK((a != b) == (u != v), "C26.compare", "!= of aliases of %s differs", what);
  VH_CHECK((a < b) == (u < v), "C26.compare", "< of aliases of %s differs", what);
  VH_CHECK((a <= b) == (u <= v), "C26.compare", "<= of aliases of %s differs", what);
  VH_CHECK((a > b) == (u > v), "C26.compare", "> of aliases of %s differs", what);
  VH_CHECK((a >= b) == (u >= v), "C26.compare", ">= of aliases of %s differs", what);
  VH_CHECK((a == a) == (u == u) && (a <= a) == (u <= u) && (a < a) == (u < u) && (a != a) == (u != u), "C26.compare", "comparing an alias of %s with itself differs", what);
  VH_CHECK(std::hash<A>()(a) == std::hash<U>()(u), "C26.hash", "the hash of an alias of %s differs", what);
  // Copies and moves.
  A c(a);
  A d(std::move(c));
  VH_CHECK(Identical(d.value(), u) && Identical(a.value(), u), "C26.value", "a copied or moved alias of %s differs", what);
  A e(v);
  e = d;
  VH_CHECK(Identical(e.value(), u) && Identical(d.value(), u), "C26.value", "an assigned alias of %s differs", what);
  d = A(v);
  VH_CHECK(Identical(d.value(), v), "C26.value", "an assigned alias of %s differs", what);
  std::swap(d, e);
  VH_CHECK(Identical(d.value(), u) && Identical(e.value(), v), "C26.value", "swapped aliases of %s differ", what);
  U w = u;
  A f(std::move(w));
  VH_CHECK(Identical(f.value(), u), "C26.value", "an alias made by moving %s differs", what);
  VH_CHECK(&f.value() == &std::as_const(f).value(), "C26.value", "value() is no reference");
  std::unordered_map<A, int> m;
  if (u == u) {
    m[a] = 3;
    VH_CHECK(m.count(A(u)) == 1, "C26.hash", "an alias of %s is not found in a map", what);
  }
  // Clones.
  U k = rst::Clone(u);
  VH_CHECK(Identical(k, u), "C26.clone", "a clone of %s differs", what);
  k = v;
  VH_CHECK(Identical(a.value(), u), "C26.clone", "a clone of %s is not independent", what);
  const A g = rst::Clone(a);
  VH_CHECK(Identical(g.value(), u) && &g != &a, "C26.clone", "a clone of an alias of %s differs", what);
  Obs(Fmt("%d%d%d", a == b, a < b, a != b));
  Stat("alias operations", 24);
}

std::set<const void*> g_alive;
struct Node {
  Node() { g_alive.insert(this); }
  Node(const Node& o) : data(o.data), kids(o.kids) { g_alive.insert(this); }
  Node(Node&& o) noexcept : data(std::move(o.data)), kids(std::move(o.kids)) { g_alive.insert(this); }
  Node& operator=(const Node&) = default;
  virtual ~Node() { VH_CHECK(g_alive.erase(this) == 1, "C26.own", "destroyed twice"); }
  std::string data;
  std::vector<Node> kids;
};
struct Sub : virtual Node { std::string more; };
bool Equal(const Node& a, const Node& b) {
  if (a.data != b.data || a.kids.size() != b.kids.size()) return false;
  for (size_t i = 0; i < a.kids.size(); i++) if (!Equal(a.kids[i], b.kids[i])) return false;
  return true;
}
Node GenNode(Rng& r, int depth) {
  Node n;
  n.data = Gen<std::string>(r);
  for (uint64_t i = r.Below(4); depth > 0 && i > 0; i--) n.kids.push_back(GenNode(r, depth - 1));
  return n;
}
class Factory {
 public:
  static rst::NotNull<std::unique_ptr<Factory>> Create() { return rst::WrapUnique(new Factory()); }
  ~Factory() { count--; }
  static int count;

 private:
  Factory() { count++; }
};
int Factory::count = 0;

void OwnCase(Rng& r) {
  {
    const Node n = GenNode(r, 3);
    Node c = rst::Clone(n);
    VH_CHECK(Equal(n, c), "C26.clone", "a clone differs");
    const Node again = rst::Clone(n);
    c.data += "x";
    for (auto& k : c.kids) k.data = "changed";
    VH_CHECK(Equal(n, again), "C26.clone", "a clone is not independent");
    std::map<std::string, std::vector<Node>> m{{"a", {n, n}}, {"b", {}}};
    auto mc = rst::Clone(m);
    m["a"].clear();
    VH_CHECK(mc.size() == 2 && mc["a"].size() == 2 && Equal(mc["a"][1], n), "C26.clone", "a clone of a map differs");
    Node* raw = new Node(n);
    auto p = r.Chance(1, 2) ? rst::WrapUnique(raw) : rst::WrapUnique(rst::NotNull<Node*>(raw));
    VH_CHECK(p.get() == raw && g_alive.count(raw), "C26.own", "WrapUnique() owns another object");
    rst::NotNull<std::unique_ptr<Node>> q = rst::WrapUnique(static_cast<Node*>(new Sub()));
    q = std::move(p);
    VH_CHECK(q.get() == raw && g_alive.count(raw), "C26.own", "the object was lost");
    std::unique_ptr<Node> u = std::move(q).Take();
    VH_CHECK(u.get() == raw, "C26.own", "the object was lost");
    u.reset();
    VH_CHECK(!g_alive.count(raw), "C26.own", "the owner did not destroy the object");
    auto fac = Factory::Create();
    VH_CHECK(Factory::count == 1, "C26.own", "%d objects", Factory::count);
  }
  VH_CHECK(g_alive.empty() && Factory::count == 0, "C26.own", "%zu objects are alive", g_alive.size());
  if (Violating()) VH_CHECK(Rejects([] { int* p = nullptr; (void)rst::WrapUnique(p).get(); }), "C26.own", "WrapUnique(null) is accepted");
}

void AliasCase(uint64_t, Rng& r) {
  const uint64_t k = r.Below(24);
  const uint64_t h = r.U64();
  switch (k) {
    case 10: TypeCase<uint64_t>(r, "uint64_t"); break;
    case 11: TypeCase<uint32_t>(r, "uint32_t"); break;
    case 12: TypeCase<int16_t>(r, "int16_t"); break;
    case 13: TypeCase<uint16_t>(r, "uint16_t"); break;
    case 14: TypeCase<signed char>(r, "signed char"); break;
    case 15: TypeCase<float>(r, "float"); break;
    case 16: TypeCase<Scoped>(r, "an enumeration"); break;
    case 17: TypeCase<Wide>(r, "a wide enumeration"); break;
    case 18: TypeCase<int*>(r, "a pointer"); break;
    case 19: TypeCase<const char*>(r, "a pointer to characters"); break;
    case 20: TypeCase<std::string_view>(r, "std::string_view"); break;
    case 21: TypeCase<long double>(r, "long double"); break;
    case 22: r.Chance(1, 2) ? TypeCase<std::wstring>(r, "std::wstring") : TypeCase<char>(r, "char"); break;
    case 23: TypeCase<unsigned long long>(r, "unsigned long long"); break;
    case 0: TypeCase<int>(r, "int"); break;
    case 1: TypeCase<int64_t>(r, "int64_t"); break;
    case 2: TypeCase<double>(r, "double"); break;
    case 3: TypeCase<std::string>(r, "std::string"); break;
    case 4: TypeCase<Odd>(r, "a class"); break;
    case 5: TypeCase<unsigned char>(r, "unsigned char"); break;
    case 6: TypeCase<std::shared_ptr<int>>(r, "std::shared_ptr"); break;
    case 7: TypeCase<bool>(r, "bool"); break;
    case 8: {
      using M = rst::Type<TagA, std::unique_ptr<int>>;
      auto p = std::make_unique<int>(4);
      int* raw = p.get();
      M m(std::move(p));
      VH_CHECK(m.value().get() == raw, "C26.value", "a move-only value was lost");
      M n(std::move(m));
      M o(nullptr);
      o = std::move(n);
      VH_CHECK(o.value().get() == raw && *o.value() == 4, "C26.value", "a move-only value was lost");
      break;
    }
    default: OwnCase(r);
  }
  Distinct(h % 65536 * 32 + k);
}

// ------------------------------------------------------------ helpers
// Values whose copies, moves and destructions are counted.
struct Seen28 {
  static int64_t live;
  int v;
  explicit Seen28(int v) : v(v) { live++; }
  Seen28(const Seen28& o) : v(o.v) { live++; }
  Seen28(Seen28&& o) noexcept : v(o.v) { o.v = -1; live++; }
  Seen28& operator=(const Seen28&) = default;
  ~Seen28() { live--; }
};
int64_t Seen28::live = 0;
struct WithHandlers {
  WithHandlers(std::function<int(const std::string&)> a, std::function<void(int, std::string&)> b) : a(std::move(a)), b(std::move(b)) {}
  std::function<int(const std::string&)> a;
  std::function<void(int, std::string&)> b;
};

template <class F>
void CheckEmpty(const char* what) {
  std::function<F> f = rst::NullFunction();
  VH_CHECK(!f && f == nullptr, "C28.null", "a null function as std::function<%s> is not empty", what);
  const rst::NullFunction n{};
  std::function<F> g = n;
  g = n;
  VH_CHECK(!g, "C28.null", "a null function assigned to std::function<%s> is not empty", what);
}

template <size_t> struct AnArg {
  AnArg() { live++; }
  AnArg(const AnArg&) { live++; }
  ~AnArg() { live--; }
  static inline int live = 0;
};
template <size_t... i>
void OneArity(std::index_sequence<i...>) {
  std::function<void(AnArg<i>...)> f = rst::DoNothing();
  VH_CHECK(static_cast<bool>(f), "C28.nothing", "a do-nothing function of %zu values is empty", sizeof...(i));
  f(AnArg<i>()...);
  std::function<void(const AnArg<i>&...)> g = rst::DoNothing();
  VH_CHECK(static_cast<bool>(g), "C28.nothing", "a do-nothing function of %zu references is empty", sizeof...(i));
  g(AnArg<i>()...);
  std::function<void(AnArg<i>...)> a = rst::NullFunction();
  std::function<AnArg<0>(AnArg<i>...)> b = rst::NullFunction();
  VH_CHECK(!a && !b, "C28.null", "a null function of %zu arguments is not empty", sizeof...(i));
  VH_CHECK(((AnArg<i>::live == 0) && ...), "C28.nothing", "a do-nothing function of %zu arguments loses some", sizeof...(i));
}
template <size_t... n>
void EveryArity(std::index_sequence<n...>) { (OneArity(std::make_index_sequence<n>()), ...); }

void HelperCase(uint64_t, Rng& r) {
  const uint64_t h = r.U64();
  const int n = static_cast<int>(r.In(0, 1000));
  const std::string text(r.Below(60), static_cast<char>('a' + n % 26));
  const uint64_t k = r.Below(8);
  if (r.Chance(1, 8)) EveryArity(std::make_index_sequence<17>());
  switch (k) {
    case 0:
      CheckEmpty<void()>("void()");
      CheckEmpty<int(int)>("int(int)");
      CheckEmpty<std::string&(std::string&, const char*)>("std::string&(std::string&, const char*)");
      CheckEmpty<std::unique_ptr<int>(std::unique_ptr<int>&&)>("std::unique_ptr<int>(std::unique_ptr<int>&&)");
      CheckEmpty<void(int, long, double, char, const std::string&)>("void(int, long, double, char, const std::string&)");
      break;
    case 1: {  // over a function in use
      std::function<int(int)> f = [n](int x) { return x + n; };
      auto held = std::make_shared<int>(n);
      std::function<void()> g = [held] {};
      VH_CHECK(held.use_count() == 2, "harness", "%ld", held.use_count());
      f = rst::NullFunction();
      g = rst::NullFunction();
      VH_CHECK(!f && !g && held.use_count() == 1, "C28.null", "assigning a null function does not empty the target");
      const WithHandlers w{rst::NullFunction(), rst::DoNothing()};
      VH_CHECK(!w.a && w.b, "C28.null", "a null function as an argument is not empty or a do-nothing function is");
      break;
    }
    case 2: {
      std::function<void()> f = rst::DoNothing();
      VH_CHECK(static_cast<bool>(f), "C28.nothing", "a do-nothing function is empty");
      for (uint64_t i = r.Below(5); i < 5; i++) f();
      auto g = f;
      f = nullptr;
      g();
      const auto m = std::move(g);
      m();
      break;
    }
    case 3: {  // references are left alone
      std::string s = text;
      std::vector<int> v(static_cast<size_t>(n % 7), n);
      const auto before = v;
      auto p = std::make_unique<int>(n);
      std::function<void(std::string&, std::vector<int>&&, const int&, std::unique_ptr<int>&)> f = rst::DoNothing();
      f(s, std::move(v), n, p);
      f(s, std::move(v), *p, p);
      VH_CHECK(s == text && v == before && p && *p == n, "C28.nothing", "a do-nothing function changes what its arguments refer to");
      break;
    }
    case 4: {  // values are destroyed once
      const int64_t live = Seen28::live;
      {
        std::function<void(Seen28, Seen28, const Seen28&)> f = rst::DoNothing();
        const Seen28 a(n);
        Seen28 b(n + 1);
        f(a, std::move(b), a);
        VH_CHECK(Seen28::live == live + 2, "C28.nothing", "%lld arguments are alive after a do-nothing call", static_cast<long long>(Seen28::live - live - 2));
        VH_CHECK(a.v == n && b.v == -1, "C28.nothing", "a do-nothing function got no value");
        f(a, a, a);
        VH_CHECK(a.v == n, "C28.nothing", "a do-nothing function changes its argument");
      }
      VH_CHECK(Seen28::live == live, "C28.nothing", "%lld objects leak", static_cast<long long>(Seen28::live - live));
      break;
    }
#ifndef VH_REDUCED
    case 5: {  // move-only arguments
      auto p = std::make_shared<int>(n);
      std::weak_ptr<int> w = p;
      std::function<void(std::unique_ptr<std::shared_ptr<int>>)> f = rst::DoNothing();
      f(std::make_unique<std::shared_ptr<int>>(std::move(p)));
      VH_CHECK(w.expired(), "C28.nothing", "a do-nothing function keeps its argument");
      break;
    }
    case 6: {
      auto f = rst::DoNothing::Function<int, const std::string&>();
      static_assert(std::is_same_v<decltype(f), std::function<void(int, const std::string&)>>);
      VH_CHECK(static_cast<bool>(f), "C28.nothing", "an explicit do-nothing function is empty");
      f(n, text);
      const auto g = rst::DoNothing::Function<>();
      static_assert(std::is_same_v<decltype(g), const std::function<void()>>);
      VH_CHECK(static_cast<bool>(g), "C28.nothing", "an explicit do-nothing function is empty");
      g();
      auto q = rst::DoNothing::Function<std::unique_ptr<int>>();
      q(std::make_unique<int>(n));
      break;
    }
#endif
    default: {  // branch hints
      int evals = 0;
      auto next = [&](bool b) { evals++; return b; };
      int taken = 0;
      const bool a = r.Chance(1, 2), b = r.Chance(1, 2);
      if (RST_LIKELY(next(a))) taken += 1;
      if (RST_UNLIKELY(next(b))) taken += 2;
      if (RST_LIKELY(!next(a) || next(b))) taken += 4;
      const int want = (a ? 1 : 0) + (b ? 2 : 0) + (!a || b ? 4 : 0);
      VH_CHECK(evals == (a ? 4 : 3) && taken == want, "C28.hint", "branch hints over %d and %d: %d evaluations, branches %d", a, b, evals, taken);
      const long big = static_cast<long>(r.U64() & ~uint64_t{0} >> r.Below(64)) ;
      VH_CHECK((RST_LIKELY(big) ? 1 : 0) == (big != 0) && (RST_UNLIKELY(big) ? 1 : 0) == (big != 0), "C28.hint", "branch hints over %ld", big);
      const double d = std::ldexp(static_cast<double>(r.In(-8, 8)), static_cast<int>(r.In(-80, 80)));
      const float f = static_cast<float>(d);
      VH_CHECK((RST_LIKELY(d) ? 1 : 0) == (d != 0) && (RST_UNLIKELY(d) ? 1 : 0) == (d != 0) && (RST_LIKELY(f) ? 1 : 0) == (f != 0) &&
                   (RST_UNLIKELY(f) ? 1 : 0) == (f != 0),
               "C28.hint", "branch hints over %g", d);
      const auto wide = static_cast<__int128>(static_cast<unsigned __int128>(r.U64() & ~uint64_t{0} >> r.Below(64)) << r.Below(100));
      VH_CHECK((RST_LIKELY(wide) ? 1 : 0) == (wide != 0) && (RST_UNLIKELY(wide) ? 1 : 0) == (wide != 0), "C28.hint", "branch hints over 2^64 * %lld + %llu",
               static_cast<long long>(wide >> 64), static_cast<unsigned long long>(wide));
      const long near = static_cast<long>(r.In(-3, 3)) + (r.Chance(1, 2) ? big : static_cast<long>(uint64_t{1} << r.Below(63)));
      int evaluated = 0;
      auto value = [&] { evaluated++; return near; };
      int branch = 0;
      switch (RST_LIKELY_EQ(value(), 5)) {
        case 0: branch = 1; break;
        case 5: branch = 2; break;
        default: break;
      }
      VH_CHECK(evaluated == 1 && branch == (near == 0 ? 1 : near == 5 ? 2 : 0), "C28.hint",
               "hinted switch over %ld: %d evaluations, branch %d", near, evaluated, branch);
      VH_CHECK((RST_LIKELY(n == 3) ? n : -n) == (n == 3 ? n : -n) && (!RST_UNLIKELY(n > 500)) == !(n > 500), "C28.hint", "branch hints inside an expression over %d", n);
    }
  }
  Obs(Fmt("%d %d", static_cast<int>(k), n));
  Distinct(h % 4096 * 8 + k);
  Stat("helper uses");
}

}  // namespace

int main(int argc, char** argv) {
  Init(argc, argv);
  if (opt.mode == "check") ForCases(CheckCase, 23);
  else if (opt.mode == "defer") {
    StaticCase();
    ForCases([](uint64_t, Rng& r) {
      if (r.Chance(2, 3)) { DeferCase(r); return; }
      switch (r.Below(4)) {
        case 0: NoDestructorCase<alignof(std::max_align_t)>(r); break;
        case 1: NoDestructorCase<64>(r); break;
        case 2: NoDestructorCase<8>(r); break;
        default: NoDestructorCase<256>(r);
      }
    }, 24);
  } else if (opt.mode == "helpers") {
    ForCases(HelperCase, 28);
  } else {
    ForCases(AliasCase, 26);
  }
  Flush();
  return 0;
}
