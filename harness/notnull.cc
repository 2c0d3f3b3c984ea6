// NotNull and Nullable against a model of targets and checks (C19).
#define VH_DEFINE_ASSERT 1
#include "vh.h"

#include <functional>
#include <map>
#include <memory>
#include <new>
#include <set>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>

#include "rst/memory/memory.h"
#include "rst/not_null/not_null.h"

using namespace vh;
using rst::NotNull;
using rst::Nullable;

namespace {

std::set<const void*> g_live;  // complete objects
struct Second {
  virtual ~Second() = default;
  long pad = 1;
};
struct B {
  explicit B(int id) : id(id) {}
  virtual ~B() = default;
  virtual int Id() const { return id; }
  int id;
};
struct D : Second, B {
  explicit D(int id) : B(id), copy(id) { VH_CHECK(g_live.insert(this).second, "C19.life", "constructed twice"); }
  ~D() override { VH_CHECK(g_live.erase(this) == 1, "C19.life", "object %d was destroyed twice", id); }
  int Id() const override { return copy; }
  int copy;
};

std::string g_log;
int g_next;

enum Kind { kRaw, kUnique, kShared };
template <Kind k, class T> struct PtrOf;
template <class T> struct PtrOf<kRaw, T> { using type = T*; };
template <class T> struct PtrOf<kUnique, T> { using type = std::unique_ptr<T>; };
template <class T> struct PtrOf<kShared, T> { using type = std::shared_ptr<T>; };

struct Model {
  bool alive = false, moved = false, checked = false, unsure = false;
  D* target = nullptr;
};
template <class W>
struct Slot {
  alignas(W) unsigned char raw[sizeof(W)];
  Model m;
  W& o() { return *std::launder(reinterpret_cast<W*>(raw)); }
};

template <class W> struct Traits;
template <class P> struct Traits<NotNull<P>> { using Ptr = P; static constexpr bool kNN = true; };
template <class P> struct Traits<Nullable<P>> { using Ptr = P; static constexpr bool kNN = false; };
template <class P> struct Target;
template <class T> struct Target<T*> { using type = T; };
template <class T> struct Target<std::unique_ptr<T>> { using type = T; };
template <class T> struct Target<std::shared_ptr<T>> { using type = T; };

constexpr int kN = 3;

template <Kind k>
struct World {
  using PB = typename PtrOf<k, B>::type;
  using PD = typename PtrOf<k, D>::type;
  static constexpr bool kCopy = k != kUnique;
  Slot<NotNull<PB>> nb[kN];
  Slot<NotNull<PD>> nd[kN];
  Slot<Nullable<PB>> ub[kN];
  Slot<Nullable<PD>> ud[kN];
  std::vector<std::unique_ptr<D>> pool;                 // kRaw: the targets
  std::unique_ptr<D[]> unused;
  std::map<D*, std::weak_ptr<D>> shared;                // kShared
  std::map<D*, int> owned;                              // unique and shared: holders in the model

  void Note(const char* what) { if (g_log.size() < 3000) { g_log += what; g_log += ' '; } }

  // A new pointer and its target.
  template <class T>
  typename PtrOf<k, T>::type Make(D** t) {
    if constexpr (k == kRaw) {
      if (pool.empty() || pool.size() < 4) pool.push_back(std::make_unique<D>(++g_next));
      *t = pool[static_cast<size_t>(g_next * 7 + static_cast<int>(g_log.size())) % pool.size()].get();
      return *t;
    } else if constexpr (k == kUnique) {
      auto p = std::make_unique<D>(++g_next);
      *t = p.get();
      return p;
    } else {
      auto p = std::make_shared<D>(++g_next);
      *t = p.get();
      shared[*t] = p;
      return p;
    }
  }

  template <class F> void All(F&& f) {
    for (auto& s : nb) f(s);
    for (auto& s : nd) f(s);
    for (auto& s : ub) f(s);
    for (auto& s : ud) f(s);
  }
  template <class F> void Any(Rng& r, F&& f) {
    const size_t i = r.Below(kN);
    switch (r.Below(4)) {
      case 0: f(nb[i]); return;
      case 1: f(nd[i]); return;
      case 2: f(ub[i]); return;
      default: f(ud[i]);
    }
  }
  template <class F> void AnyNN(Rng& r, F&& f) { if (r.Chance(1, 2)) f(nb[r.Below(kN)]); else f(nd[r.Below(kN)]); }
  template <class F> void AnyNU(Rng& r, F&& f) { if (r.Chance(1, 2)) f(ub[r.Below(kN)]); else f(ud[r.Below(kN)]); }

  // What the wrapper must hold.
  template <class W>
  static auto Want(Slot<W>& s) {
    using T = typename Target<typename Traits<W>::Ptr>::type;
    return static_cast<T*>(s.m.target);
  }

  template <class W>
  void CheckSlot(Slot<W>& s) {
    if (!s.m.alive || s.m.moved) return;
    VH_CHECK(std::as_const(s.o()).get() == Want(s), "C19.target", "%s holds another pointer after %s", Traits<W>::kNN ? "NotNull" : "Nullable", g_log.c_str());
  }
  void CheckAll() {
    std::map<D*, long> holders;
    All([&](auto& s) {
      CheckSlot(s);
      if (s.m.alive && !s.m.moved && s.m.target) holders[s.m.target]++;
    });
    if constexpr (k != kRaw) {
      VH_CHECK(g_live.size() == holders.size(), "C19.life", "%zu objects live and %zu are held after %s", g_live.size(), holders.size(), g_log.c_str());
      for (const auto& [t, n] : holders) {
        VH_CHECK(g_live.count(t), "C19.life", "a held object was destroyed after %s", g_log.c_str());
        if constexpr (k == kUnique) VH_CHECK(n == 1, "C19.life", "an object has %ld owners", n);
        if constexpr (k == kShared) VH_CHECK(shared[t].use_count() == n, "C19.life", "%ld owners instead of %ld after %s", shared[t].use_count(), n, g_log.c_str());
      }
    }
  }

  template <class W>
  void Deref(Rng& r, Slot<W>& s) {
    if (!s.m.alive || s.m.moved) return;
    if constexpr (!Traits<W>::kNN) {
      if (s.m.target == nullptr) return;
      if (Strict() && !s.m.checked) return;
    }
    const W& c = s.o();
    const auto want = Want(s);
    VH_CHECK(c.operator->() == want, "C19.deref", "-> gives another pointer after %s", g_log.c_str());
    VH_CHECK(&*c == want, "C19.deref", "* gives another object after %s", g_log.c_str());
    VH_CHECK(c->Id() == want->id, "C19.deref", "the target changed");
    if constexpr (k == kRaw) VH_CHECK(&c[0] == want, "C19.deref", "[0] gives another object");
    Stat("dereferences");
    (void)r;
  }

  template <class W>
  void Compare(Slot<W>& s) {
    if constexpr (!Traits<W>::kNN) {
      if (!s.m.alive || s.m.moved) return;
      const W& c = s.o();
      const bool null = s.m.target == nullptr;
      bool r;
      switch (g_next++ % 4) {
        case 0: r = c == nullptr; break;
        case 1: r = nullptr == c; break;
        case 2: r = !(c != nullptr); break;
        default: r = !(nullptr != c);
      }
      VH_CHECK(r == null, "C19.null", "the comparison with null is wrong after %s", g_log.c_str());
      s.m.checked = true;
      s.m.unsure = false;
      Note("null?");
    }
  }

  template <class W1, class W2>
  void Relate(Slot<W1>& a, Slot<W2>& b) {
    if (!a.m.alive || !b.m.alive || a.m.moved || b.m.moved) return;
    const W1& x = a.o();
    const W2& y = b.o();
    const auto p = Want(a);
    const auto q = Want(b);
    using P = std::remove_const_t<decltype(p)>;
    VH_CHECK((x == y) == (p == q), "C19.compare", "== is wrong after %s", g_log.c_str());
    VH_CHECK((x != y) == (p != q), "C19.compare", "!= is wrong after %s", g_log.c_str());
    if constexpr (Traits<W1>::kNN == Traits<W2>::kNN) VH_CHECK((x < y) == (p < q), "C19.compare", "< is wrong after %s", g_log.c_str());
    VH_CHECK((x == q) == (p == q) && (q == x) == (p == q) && (x != q) == (p != q) && (q != x) == (p != q), "C19.compare",
             "comparison with a plain pointer is wrong after %s", g_log.c_str());
    VH_CHECK(std::hash<W1>()(x) == std::hash<P>()(p), "C19.hash", "the hash is not that of the pointer after %s", g_log.c_str());
    Stat("comparisons", 7);
  }

  template <class W>
  static constexpr const char* Name() {
    constexpr bool b = std::is_same_v<typename Target<typename Traits<W>::Ptr>::type, B>;
    return Traits<W>::kNN ? (b ? "nb" : "nd") : (b ? "ub" : "ud");
  }

  // Dest from source, constructing or assigning, copying or moving.
  template <class WD, class WS>
  void Transfer(Rng& r, Slot<WD>& d, Slot<WS>& s) {
    using TD = typename Target<typename Traits<WD>::Ptr>::type;
    using TS = typename Target<typename Traits<WS>::Ptr>::type;
    if constexpr (std::is_same_v<TD, TS> || std::is_same_v<TD, B>) {
      if (!s.m.alive || s.m.moved) return;
      if constexpr (Traits<WD>::kNN && !Traits<WS>::kNN) {
        if (s.m.target == nullptr || (Strict() && !s.m.checked)) return;
      }
      const bool self = static_cast<void*>(&d) == static_cast<void*>(&s);
      const bool copy = kCopy && r.Chance(1, 2);
      const bool construct = !d.m.alive;
      if (construct) {
        if (self) return;
        if (copy) { if constexpr (kCopy) new (d.raw) WD(std::as_const(s.o())); }
        else new (d.raw) WD(std::move(s.o()));
      } else {
        if (d.m.moved) return;
        if (copy) { if constexpr (kCopy) d.o() = std::as_const(s.o()); }
        else d.o() = std::move(s.o());
      }
      const Model sm = s.m;
      d.m.alive = true;
      d.m.moved = false;
      d.m.target = sm.target;
      if (construct && std::is_same_v<WD, WS>) { d.m.checked = sm.checked; d.m.unsure = sm.unsure; }
      else if (construct) { d.m.checked = false; d.m.unsure = false; }
      else { d.m.checked = false; d.m.unsure = self; }
      if (!copy && !self) { s.m.moved = true; }
      Note(Fmt("%s%s%s%s", Name<WD>(), construct ? "(" : "=", copy ? "" : "&&", Name<WS>()).c_str());
    }
  }

  template <class W>
  void Fresh(Rng& r, Slot<W>& s) {
    using P = typename Traits<W>::Ptr;
    using T = typename Target<P>::type;
    if (s.m.alive && s.m.moved) return;
    D* t = nullptr;
    const bool null = !Traits<W>::kNN && r.Chance(1, 3);
    const bool derived = r.Chance(1, 2);
    if (null) {
      if constexpr (!Traits<W>::kNN) {
        const uint64_t how = r.Below(3);
        if (!s.m.alive) {
          if (how == 0) new (s.raw) W(); else if (how == 1) new (s.raw) W(nullptr); else new (s.raw) W(P(nullptr));
        } else if (how == 0) {
          s.o() = nullptr;
        } else {
          s.o() = P(nullptr);
        }
      }
    } else if (!s.m.alive) {
      if (derived) new (s.raw) W(Make<D>(&t)); else new (s.raw) W(Make<T>(&t));
    } else if (k == kShared && r.Chance(1, 4)) {
      if constexpr (k == kShared) {
        auto u = std::make_unique<D>(++g_next);
        t = u.get();
        if (r.Chance(1, 2)) s.o() = std::move(u);
        else s.o() = NotNull<std::unique_ptr<D>>(std::move(u));
        // Take part in the ownership to see the count.
        auto probe = std::shared_ptr<T>();
        W copy(std::as_const(s.o()));
        probe = std::move(copy).Take();
        shared[t] = std::static_pointer_cast<D>(probe);
      }
    } else {
      if (derived) s.o() = Make<D>(&t); else s.o() = Make<T>(&t);
    }
    s.m = Model{true, false, false, false, t};
    Note(Fmt("%s*%s", Name<W>(), null ? "0" : "").c_str());
  }

  template <class W>
  void Take(Slot<W>& s) {
    if constexpr (k != kRaw) {
      if (!s.m.alive || s.m.moved) return;
      auto p = std::move(s.o()).Take();
      static_assert(std::is_same_v<decltype(p), typename Traits<W>::Ptr>);
      VH_CHECK(p.get() == Want(s), "C19.take", "Take() gives another pointer after %s", g_log.c_str());
      s.m.moved = true;
      Note("take");
    }
  }
  template <class W>
  void Destroy(Slot<W>& s) {
    if (!s.m.alive) return;
    s.o().~W();
    s.m = Model();
    Note("~");
  }

  void Step(Rng& r) {
    switch (r.Below(12)) {
      case 0: case 1: case 2: Any(r, [&](auto& s) { Fresh(r, s); }); break;
      case 3: case 4: case 5: case 6: {
        Any(r, [&](auto& d) { Any(r, [&](auto& s) { Transfer(r, d, s); }); });
        break;
      }
      case 7: AnyNU(r, [&](auto& s) { Compare(s); }); break;
      case 8: All([&](auto& s) { Deref(r, s); }); break;
      case 9: Any(r, [&](auto& a) { Any(r, [&](auto& b) { Relate(a, b); }); }); break;
      case 10: if (r.Chance(1, 2)) Any(r, [&](auto& s) { Take(s); }); break;
      default: Any(r, [&](auto& s) { Destroy(s); });
    }
    if constexpr (k == kRaw) {
      if (r.Chance(1, 10)) AnyNN(r, [&](auto& s) {
        if (!s.m.alive || s.m.moved) return;
        NotNull<const B*> c = s.o();
        NotNull<const void*> v = s.o();
        Nullable<const void*> w = s.o();
        Nullable<const void*> x;
        x = c;
        VH_CHECK(c.get() == static_cast<B*>(s.m.target) && v.get() == static_cast<const void*>(Want(s)) && w.get() == v.get() &&
                     x.get() == static_cast<const void*>(static_cast<B*>(s.m.target)),
                 "C19.convert", "a conversion changed the pointer");
      });
    }
    CheckAll();
  }

  template <class F>
  void Reject(const char* what, F&& f) {
    VH_CHECK(Rejects(f), "C19.reject", "%s was not rejected after %s", what, g_log.c_str());
    Stat("rejected violations");
  }
  // Returns true if a violation was provoked.
  bool Violate(Rng& r) {
    bool done = false;
    if (k != kRaw && r.Chance(1, 6)) {
      // A NotNull whose pointer was taken or moved away holds null.
      AnyNN(r, [&](auto& s) {
        if (!s.m.alive || !s.m.moved) return;
        switch (r.Below(5)) {
          case 0: Reject("get() of an emptied NotNull", [&] { (void)std::as_const(s.o()).get(); }); break;
          case 1: Reject("-> of an emptied NotNull", [&] { (void)std::as_const(s.o()).operator->(); }); break;
          case 2: Reject("* of an emptied NotNull", [&] { (void)*std::as_const(s.o()); }); break;
          case 3:
            if constexpr (k != kRaw) Reject("Take() of an emptied NotNull", [&] { auto p = std::move(s.o()).Take(); (void)p; });
            break;
          default:
            Reject("converting an emptied NotNull", [&] {
              NotNull<PB> w(std::move(s.o()));
              (void)sizeof w;
            });
        }
        done = true;
      });
      if (done) return true;
    }
    const uint64_t how = r.Below(8);
    if (how < 2) {
      // A null pointer.
      AnyNN(r, [&](auto& s) {
        using W = std::remove_reference_t<decltype(s.o())>;
        using P = typename Traits<W>::Ptr;
        if (how == 0) {
          switch (r.Below(3)) {
            case 0: Reject("a NotNull of null", [&] { P p = nullptr; W w(std::move(p)); (void)sizeof w; }); break;
            case 1: Reject("a NotNull of null of a derived type", [&] { PD p = nullptr; W w(std::move(p)); (void)sizeof w; }); break;
            default: Reject("a deduced NotNull of null", [&] { P p = nullptr; NotNull w(std::move(p)); (void)sizeof w; });
          }
          done = true;
        } else if (s.m.alive && !s.m.moved) {
          if (r.Chance(1, 2)) Reject("assigning null to a NotNull", [&] { P p = nullptr; s.o() = std::move(p); });
          else Reject("assigning a derived null to a NotNull", [&] { PD p = nullptr; s.o() = std::move(p); });
          done = true;
        }
      });
      return done;
    }
    if (how < 5) {
      // A nullable that is null or unchecked.
      AnyNU(r, [&](auto& u) {
        using WU = std::remove_reference_t<decltype(u.o())>;
        using T = typename Target<typename Traits<WU>::Ptr>::type;
        if (!u.m.alive || u.m.moved || u.m.unsure) return;
        if (u.m.target != nullptr && u.m.checked) return;
        const bool same = r.Chance(1, 2);
        const bool copy = kCopy && r.Chance(1, 2);
        const char* what = u.m.target ? "converting an unchecked Nullable" : "converting a null Nullable";
        using WT = NotNull<typename PtrOf<k, T>::type>;
        using WB = NotNull<PB>;
        if (r.Chance(1, 2)) {
          Reject(what, [&] {
            if (copy) {
              if constexpr (kCopy) { if (same) { WT w(std::as_const(u.o())); (void)sizeof w; } else { WB w(std::as_const(u.o())); (void)sizeof w; } }
            } else {
              if (same) { WT w(std::move(u.o())); (void)sizeof w; } else { WB w(std::move(u.o())); (void)sizeof w; }
            }
          });
        } else {
          D* t;
          auto p = Make<T>(&t);
          WT d(std::move(p));
          D* t2;
          auto p2 = Make<B>(&t2);
          WB e(std::move(p2));
          Reject(what, [&] {
            if (copy) {
              if constexpr (kCopy) { if (same) d = std::as_const(u.o()); else e = std::as_const(u.o()); }
            } else {
              if (same) d = std::move(u.o()); else e = std::move(u.o());
            }
          });
        }
        done = true;
      });
      return done;
    }
    // Dereferencing.
    AnyNU(r, [&](auto& u) {
      if (!u.m.alive || u.m.moved || u.m.unsure) return;
      if (u.m.target != nullptr && u.m.checked) return;
      if (u.m.target != nullptr && r.Chance(1, 2)) {
        // A comparison with something else is no check.
        AnyNU(r, [&](auto& v) { Relate(u, v); });
        AnyNN(r, [&](auto& v) { Relate(u, v); });
        AnyNN(r, [&](auto& v) { Relate(v, u); });
      }
      const char* what = u.m.target ? "dereferencing an unchecked Nullable" : "dereferencing a null Nullable";
      const auto& c = std::as_const(u.o());
      switch (r.Below(k == kRaw ? 3 : 2)) {
        case 0: Reject(what, [&] { (void)c.operator->(); }); break;
        case 1: Reject(what, [&] { (void)*c; }); break;
        default:
          if constexpr (k == kRaw) Reject(what, [&] { (void)c[0]; });
      }
      done = true;
    });
    return done;
  }

  bool Run(Rng& r, bool violate, int n) {
    for (int i = 0; i < n; i++) Step(r);
    if (violate)
      for (int t = 0; t < 10; t++) if (Violate(r)) return true;
    All([&](auto& s) { Deref(r, s); Destroy(s); });
    if constexpr (k != kRaw) VH_CHECK(g_live.empty(), "C19.life", "%zu objects are still alive after %s", g_live.size(), g_log.c_str());
    return false;
  }
};

// Arrays through raw wrappers.
void ArrayCase(Rng& r) {
  const int n = static_cast<int>(r.In(1, 20));
  std::unique_ptr<int[]> a(new int[static_cast<size_t>(n)]);
  for (int i = 0; i < n; i++) a[static_cast<size_t>(i)] = i * 3;
  NotNull<int*> p = a.get();
  Nullable<const int*> q = p;
  VH_CHECK(q != nullptr, "C19.null", "not null");
  for (int i = 0; i < n; i++) {
    const auto k = static_cast<size_t>(i);
    VH_CHECK(&p[k] == &a[k] && &q[k] == &a[k] && q[k] == i * 3, "C19.deref", "[%d] of %d gives another element", i, n);
    p[k] = -i;
    VH_CHECK(a[k] == -i, "C19.deref", "a write through [] was lost");
  }
  auto w = rst::WrapUnique(new int(n));
  NotNull<std::unique_ptr<int>> u = std::move(w);
  *u += 1;
  VH_CHECK(*std::move(u).Take() == n + 1, "C19.take", "value lost");
  // What must not compile.
  VH_CHECK((!std::is_constructible_v<NotNull<int*>, std::nullptr_t> && !std::is_assignable_v<NotNull<int*>&, std::nullptr_t> &&
            !std::is_default_constructible_v<NotNull<int*>> && !std::is_constructible_v<NotNull<std::unique_ptr<int>>, std::nullptr_t>),
           "C19.reject", "a NotNull can be made from nullptr");
}

template <Kind k>
bool RunWorld(Rng& r, bool violate, int n) {
  auto w = std::make_unique<World<k>>();
  const bool ended = w->Run(r, violate, n);
  if (ended) (void)w.release();
  return ended;
}

void Case(uint64_t, Rng& r) {
  g_log.clear();
  g_live.clear();
  g_next = 0;
  const uint64_t kind = r.Below(3);
  const bool violate = r.Chance(2, 5) && Violating();
  if (violate && __lsan_disable) __lsan_disable();
  const int n = static_cast<int>(r.In(3, 60));
  bool ended;
  switch (kind) {
    case 0: ended = RunWorld<kRaw>(r, violate, n); break;
    case 1: ended = RunWorld<kUnique>(r, violate, n); break;
    default: ended = RunWorld<kShared>(r, violate, n);
  }
  if (violate && __lsan_enable) __lsan_enable();
  Stat("steps", static_cast<uint64_t>(n));
  Distinct(HashStr(g_log, kind * 31 + (ended ? 7 : 0)));
  Obs(g_log);
  Sample(Fmt("kind %d: ", static_cast<int>(kind)) + g_log);
  ArrayCase(r);
}

}  // namespace

int main(int argc, char** argv) {
  Init(argc, argv);
  ForCases(Case, 1);
  Flush();
  return 0;
}
