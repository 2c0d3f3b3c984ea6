// The error propagation macros (C25).
#define VH_DEFINE_ASSERT 1
#include "errors.h"

namespace {

// Script: the outcome of every statement.
struct Ctx {
  std::vector<int> outcome;  // 0 success, 1 error, 2 derived error
  size_t at = 0;
  std::string trace;         // what ran
  const void* err = nullptr; // the first error
  int err_id = 0;
  int base = 0;
};
Ctx* g_ctx = nullptr;
void T(const char* f, ...) __attribute__((format(printf, 1, 2)));
void T(const char* f, ...) {
  char b[64];
  va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap);
  g_ctx->trace += b;
}
// Evaluates the next statement.
bool Next(int k, Status* st) {
  Ctx& c = *g_ctx;
  const int o = c.at < c.outcome.size() ? c.outcome[c.at] : 0;
  c.at++;
  T("s%d ", k);
  if (o == 0) return true;
  const int id = c.base + k * 10 + 1;
  const void* addr = nullptr;
  *st = MakeErr(id, o == 2, &addr);
  if (!c.err) { c.err = addr; c.err_id = id; }
  return false;
}
Status NextStatus(int k) {
  Status st = Status::OK();
  st.Ignore();
  if (Next(k, &st)) { T("ok "); return Status::OK(); }
  return st;
}
using Ptr = std::unique_ptr<Val<4, false>>;
using V1 = Val<1, false>;
template <class V>
StatusOr<V> NextOr(int k) {
  Status st = Status::OK();
  st.Ignore();
  if (Next(k, &st)) return Maker<V>::Make(g_ctx->base + k);
  return st;
}
struct Scope { int k; explicit Scope(int k) : k(k) {} ~Scope() { T("~%d ", k); } };

template <class R> R Done();
template <> Status Done<Status>() { return Status::OK(); }
template <> StatusOr<int> Done<StatusOr<int>>() { return 4242; }
template <> StatusOr<Ptr> Done<StatusOr<Ptr>>() { return Maker<Ptr>::Make(4242); }

#define VAL(x, k, V)                                                                                       \
  do {                                                                                                     \
    VH_CHECK(IdOf(x) == Expect<V>(g_ctx->base + (k)), "C25.value", "statement %d gave %d", k, IdOf(x)); \
    T("v%d ", k);                                                                                          \
  } while (0)

template <class R>
R Straight() {
  Scope a(0);
  RST_TRY(NextStatus(1));
  T("a ");
  Scope b(1);
  RST_TRY_CREATE(StatusOr<int>, x, NextOr<int>(2));
  VAL(*x, 2, int);
  RST_TRY_CREATE(auto, y, NextOr<Ptr>(3));
  VAL(*y, 3, Ptr);
  const void* body = y->get();
  Ptr z;
  RST_TRY_ASSIGN_UNWRAP(z, NextOr<Ptr>(4));
  VAL(z, 4, Ptr);
  RST_TRY_ASSIGN(y, NextOr<Ptr>(5));
  VAL(*y, 5, Ptr);
  VH_CHECK(y->get() != body || true, "C25.value", "unreachable");
  RST_TRY_ASSIGN(x, NextOr<int>(6));
  VAL(*x, 6, int);
  { Scope c(2); RST_TRY(NextStatus(7)); T("b "); }
  T("end ");
  return Done<R>();
}
template <class R>
R Loops() {
  int total = 0;
  for (int i = 0; i < 3; i++) {
    Scope a(i);
    RST_TRY(NextStatus(1 + i * 3));
    if (i == 1) { T("c "); continue; }
    RST_TRY_CREATE(auto, v, NextOr<V1>(2 + i * 3));
    VAL(*v, 2 + i * 3, V1);
    int w = -1;
    RST_TRY_ASSIGN_UNWRAP(w, NextOr<int>(3 + i * 3));
    VAL(w, 3 + i * 3, int);
    total += w;
    switch (i) { case 0: RST_TRY(NextStatus(20)); break; default: RST_TRY(NextStatus(21)); }
  }
  T("end ");
  return Done<R>();
}
template <class R>
R Nested() {
  // Lambdas, several on one line, if and else without braces.
  auto inner = [](int k) -> Status { RST_TRY(NextStatus(k)); T("i "); RST_TRY_CREATE(auto, s, NextOr<std::string>(k + 1)); VAL(*s, k + 1, std::string); return Status::OK(); };
  auto inner_or = [](int k) -> StatusOr<std::string> { RST_TRY(NextStatus(k)); std::string s; RST_TRY_ASSIGN_UNWRAP(s, NextOr<std::string>(k + 1)); VAL(s, k + 1, std::string); return s; };
  if (g_ctx->base % 2) RST_TRY(inner(1)); else RST_TRY(inner(3));
  T("f ");
  RST_TRY(inner(5)); RST_TRY(inner(7));
  if (true) RST_TRY(NextStatus(9));
  std::string s = "old";
  RST_TRY_ASSIGN_UNWRAP(s, inner_or(11));
  VAL(s, 12, std::string);
  RST_TRY_CREATE(auto, t, inner_or(13)); VAL(*t, 14, std::string);
  RST_TRY_ASSIGN(t, [&]() -> StatusOr<std::string> { RST_TRY(inner(15)); return NextOr<std::string>(17); }());
  VAL(*t, 17, std::string);
  RST_TRY([&]() -> Status { RST_TRY(NextStatus(18)); return NextStatus(19); }());
  struct H { std::vector<int> v[2]; int n = 0; bool done = false; ~H() { VH_CHECK(n == (done ? 1 : 0), "C25.once", "the target was evaluated %d times", n); } } h;
  RST_TRY_ASSIGN_UNWRAP(h.v[h.n++], NextOr<std::vector<int>>(20));
  h.done = true;
  VH_CHECK(h.n == 1, "C25.once", "the target was evaluated %d times", h.n);
  VAL(h.v[0], 20, std::vector<int>);
  // The target is reached after the statement, which can move it.
  std::vector<int> grown{-5};
  grown.shrink_to_fit();
  RST_TRY_ASSIGN_UNWRAP(grown.back(), [&] { grown.push_back(-6); return NextOr<int>(21); }());
  VH_CHECK(grown.size() == 2 && grown[0] == -5, "C25.value", "the target was reached before the statement was evaluated");
  VAL(grown[1], 21, int);
  T("end ");
  return Done<R>();
}
template <class R, int depth>
R Deep() {
  Scope a(depth);
  if constexpr (depth == 0) {
    RST_TRY(NextStatus(1));
  } else if constexpr (depth % 3 == 0) {
    RST_TRY((Deep<Status, depth - 1>()));
  } else if constexpr (depth % 3 == 1) {
    RST_TRY_CREATE(auto, p, (Deep<StatusOr<Ptr>, depth - 1>()));
    VH_CHECK(IdOf(*p) == 4242, "C25.value", "value lost");
  } else {
    int v = 0;
    RST_TRY_ASSIGN_UNWRAP(v, (Deep<StatusOr<int>, depth - 1>()));
    VH_CHECK(v == 4242, "C25.value", "value lost");
  }
  T("d%d ", depth);
  RST_TRY(NextStatus(depth + 2));
  return Done<R>();
}

// The expected trace, computed without the macros.
struct Want {
  const std::vector<int>& o;
  size_t at = 0;
  std::string t;
  bool ok = true;
  void Raw(const std::string& s) { t += s; }
  bool S(int k, const char* after = "") {  // Status statement
    t += Fmt("s%d ", k);
    const int r = at < o.size() ? o[at] : 0;
    at++;
    if (r) return ok = false;
    t += "ok ";
    t += after;
    return true;
  }
  bool V(int k, bool value = true) {  // StatusOr statement
    t += Fmt("s%d ", k);
    const int r = at < o.size() ? o[at] : 0;
    at++;
    if (r) return ok = false;
    if (value) t += Fmt("v%d ", k);
    return true;
  }
};
void WantStraight(Want& w) {
  if (!w.S(1, "a ")) { w.Raw("~0 "); return; }
  const bool go = w.V(2) && w.V(3) && w.V(4) && w.V(5) && w.V(6);
  if (go) {
    if (w.S(7, "b ")) w.Raw("~2 end "); else w.Raw("~2 ");
  }
  w.Raw("~1 ~0 ");
}
void WantLoops(Want& w) {
  for (int i = 0; i < 3; i++) {
    if (!w.S(1 + i * 3)) { w.Raw(Fmt("~%d ", i)); return; }
    if (i == 1) { w.Raw("c ~1 "); continue; }
    const bool go = w.V(2 + i * 3) && w.V(3 + i * 3) && w.S(i == 0 ? 20 : 21);
    w.Raw(Fmt("~%d ", i));
    if (!go) return;
  }
  w.Raw("end ");
}
bool WantInner(Want& w, int k) { return w.S(k, "i ") && w.V(k + 1); }
bool WantInnerOr(Want& w, int k) { return w.S(k) && w.V(k + 1); }
void WantNested(Want& w, int base) {
  if (!WantInner(w, base % 2 ? 1 : 3)) return;
  w.Raw("f ");
  if (!WantInner(w, 5) || !WantInner(w, 7) || !w.S(9)) return;
  if (!WantInnerOr(w, 11)) return;
  w.Raw("v12 ");
  if (!WantInnerOr(w, 13)) return;
  w.Raw("v14 ");
  if (!WantInner(w, 15) || !w.V(17)) return;
  if (!w.S(18) || !w.S(19)) return;
  if (!w.V(20)) return;
  if (!w.V(21)) return;
  w.Raw("end ");
}
bool WantDeep(Want& w, int depth) {
  bool go;
  if (depth == 0) go = w.S(1); else go = WantDeep(w, depth - 1);
  if (go) { w.Raw(Fmt("d%d ", depth)); go = w.S(depth + 2); }
  w.Raw(Fmt("~%d ", depth));
  return go;
}

template <class R>
void Judge(R r, const Want& w, const Ctx& c, const char* what) {
  VH_CHECK(c.trace == w.t, "C25.trace", "%s ran '%s' instead of '%s'", what, c.trace.c_str(), w.t.c_str());
  const bool e = r.err();
  VH_CHECK(e == !w.ok, "C25.result", "%s returned %s after '%s'", what, e ? "an error" : "success", c.trace.c_str());
  if (e) {
    const ErrorInfoBase* p;
    if constexpr (std::is_same_v<R, Status>) p = r.GetError().get();
    else p = r.status().GetError().get();
    VH_CHECK(p == c.err, "C25.error", "%s returned another error object", what);
    const auto d = rst::dyn_cast<Err>(p);
    VH_CHECK(d != nullptr && d->id == c.err_id, "C25.error", "%s returned a changed error", what);
  } else if constexpr (std::is_same_v<R, StatusOr<int>>) {
    VH_CHECK(*r == 4242, "C25.value", "%s returned %d", what, *r);
  } else if constexpr (std::is_same_v<R, StatusOr<Ptr>>) {
    VH_CHECK(IdOf(*r) == 4242, "C25.value", "%s returned another value", what);
  }
}
template <class R>
R RunDeep(int d) {
  switch (d) {
    case 0: return Deep<R, 0>();
    case 1: return Deep<R, 1>();
    case 2: return Deep<R, 2>();
    case 3: return Deep<R, 3>();
    case 5: return Deep<R, 5>();
    default: return Deep<R, 9>();
  }
}
template <class R>
void MacroRun(Rng& r, const char* rname) {
  Ctx c;
  g_ctx = &c;
  c.base = static_cast<int>(r.Below(1000)) * 100;
  if (r.Chance(1, 2)) c.base++;
  const int n = 26;
  // At most two errors; the second must never be reached.
  c.outcome.assign(n, 0);
  if (r.Chance(5, 6)) {
    const size_t k = r.Below(20);
    c.outcome[k] = static_cast<int>(r.In(1, 2));
    if (r.Chance(1, 2)) c.outcome[r.Below(n)] = 1;
  }
  Want w{c.outcome};
  const uint64_t prog = r.Below(4);
  std::string what = Fmt("%s<%s>", prog == 0 ? "Straight" : prog == 1 ? "Loops" : prog == 2 ? "Nested" : "Deep", rname);
  switch (prog) {
    case 0: WantStraight(w); Judge(Straight<R>(), w, c, what.c_str()); break;
    case 1: WantLoops(w); Judge(Loops<R>(), w, c, what.c_str()); break;
    case 2: WantNested(w, c.base); Judge(Nested<R>(), w, c, what.c_str()); break;
    default: {
      static const int kDepths[] = {0, 1, 2, 3, 5, 9};
      const int d = kDepths[r.Below(6)];
      WantDeep(w, d);
      Judge(RunDeep<R>(d), w, c, what.c_str());
    }
  }
  Stat("statements", c.at);
  if (!w.ok) Stat("error returns");
  Distinct(HashStr(what + c.trace));
  Obs(what + c.trace);
  Sample(what + ": " + c.trace);
  VH_CHECK(g_live.empty(), "C25.life", "%zu values or errors are alive after %s", g_live.size(), what.c_str());
}
void MacroCase(uint64_t, Rng& r) {
  g_live.clear();
  switch (r.Below(3)) {
    case 0: MacroRun<Status>(r, "Status"); break;
    case 1: MacroRun<StatusOr<int>>(r, "StatusOr<int>"); break;
    default: MacroRun<StatusOr<Ptr>>(r, "StatusOr<Ptr>");
  }
}

}  // namespace

int main(int argc, char** argv) {
  Init(argc, argv);
  ForCases(MacroCase, 5);
  Flush();
  return 0;
}
