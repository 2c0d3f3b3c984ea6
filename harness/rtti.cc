// Queries and casts of error classes (C20).
#define VH_DEFINE_ASSERT 1
#include "errors.h"

namespace {

// Hierarchy: number of the parent of every class, -1 for a root.
template <int n> struct ParentOf;
template <int n> class E;
#define PARENT(n, p) template <> struct ParentOf<n> { using type = E<p>; static constexpr int index = p; }
#define ROOT(n) template <> struct ParentOf<n> { using type = ErrorInfoBase; static constexpr int index = -1; }
ROOT(0); PARENT(1, 0); PARENT(2, 1); PARENT(3, 2); PARENT(4, 3); PARENT(5, 4); PARENT(6, 5); PARENT(7, 6);
PARENT(8, 0); PARENT(9, 0); PARENT(10, 8); PARENT(11, 8); PARENT(12, 1); ROOT(13); PARENT(14, 13); ROOT(15);
PARENT(16, 14); PARENT(17, 3); PARENT(18, 17); ROOT(19);
constexpr int kClasses = 20;
constexpr int kParents[kClasses] = {
    -1, 0, 1, 2, 3, 4, 5, 6, 0, 0, 8, 8, 1, -1, 13, -1, 14, 3, 17, -1};

struct Mixin { virtual ~Mixin() = default; int mixin = 4711; };
template <int n>
class E : public ErrorInfo<E<n>, typename ParentOf<n>::type> {
 public:
  explicit E(int seed) : seed(seed), own(Fmt("class %d seed %d", n, seed)) {}
  ~E() override = default;
  const std::string& AsString() const override { return own; }
  static char id_;

 protected:
  friend struct Cell;
  int seed;
  std::string own;
};
// Classes with a parent give it the seed too.
#define DERIVED(n)                                                                    \
  template <> class E<n> : public ErrorInfo<E<n>, typename ParentOf<n>::type> {       \
   public:                                                                            \
    explicit E(int s) : ErrorInfo<E<n>, typename ParentOf<n>::type>(s), own##n(Fmt("class %d seed %d", n, s)) {} \
    const std::string& AsString() const override { return own##n; }                   \
    static char id_;                                                                  \
    std::string own##n;                                                               \
  };                                                                                  \
  char E<n>::id_ = '\0';
template <int n> char E<n>::id_ = '\0';
DERIVED(1) DERIVED(2) DERIVED(3) DERIVED(4) DERIVED(5) DERIVED(6) DERIVED(7) DERIVED(8) DERIVED(9) DERIVED(10)
DERIVED(11) DERIVED(12) DERIVED(14) DERIVED(16) DERIVED(17) DERIVED(18)

// Not at the start of the complete object.
class Offset : public Mixin, public ErrorInfo<Offset, E<3>> {
 public:
  explicit Offset(int s) : ErrorInfo<Offset, E<3>>(s) {}
  static char id_;
  int tail = 99;
};
char Offset::id_ = '\0';

// The same name in two scopes.
namespace a { class Same : public ErrorInfo<Same> { public: explicit Same(int s) : t(Fmt("a %d", s)) {} const std::string& AsString() const override { return t; } static char id_; std::string t; }; char Same::id_ = '\0'; }
namespace b { class Same : public ErrorInfo<Same> { public: explicit Same(int s) : t(Fmt("b %d", s)) {} const std::string& AsString() const override { return t; } static char id_; std::string t; }; char Same::id_ = '\0'; }

// Index of the classes: 0-19 E, 20 Offset (of 3), 21 a::Same, 22 b::Same,
// 23 FileError, 24 FileOpenError (of 23), 25 LogError, 26 Err, 27 SubErr.
constexpr int kAll = 28;
int Parent(int c) {
  if (c < kClasses) return kParents[c];
  return c == 20 ? 3 : c == 24 ? 23 : c == 27 ? 26 : -1;
}
bool Derives(int c, int from) {
  for (; c >= 0; c = Parent(c)) if (c == from) return true;
  return false;
}

template <int n> struct ClassAt { using type = E<n>; };
template <> struct ClassAt<20> { using type = Offset; };
template <> struct ClassAt<21> { using type = a::Same; };
template <> struct ClassAt<22> { using type = b::Same; };
template <> struct ClassAt<23> { using type = rst::FileError; };
template <> struct ClassAt<24> { using type = rst::FileOpenError; };
template <> struct ClassAt<25> { using type = rst::LogError; };
template <> struct ClassAt<26> { using type = Err; };
template <> struct ClassAt<27> { using type = SubErr; };

template <int n>
Status MakeOf(int seed, const void** complete) {
  using C = typename ClassAt<n>::type;
  Status s = [&] {
    if constexpr (n >= 23 && n <= 25) return rst::MakeStatus<C>(std::string("library ") + std::to_string(seed));
    else return rst::MakeStatus<C>(seed);
  }();
  (void)s.err();
  *complete = static_cast<const C*>(s.GetError().get());
  return s;
}
Status MakeAny(int c, int seed, const void** complete) {
  switch (c) {
#define M(n) case n: return MakeOf<n>(seed, complete);
    M(0) M(1) M(2) M(3) M(4) M(5) M(6) M(7) M(8) M(9) M(10) M(11) M(12) M(13) M(14) M(15) M(16) M(17) M(18) M(19)
    M(20) M(21) M(22) M(23) M(24) M(25) M(26) M(27)
#undef M
  }
  abort();
}

// Queries |e| of class |c| for class n through static type From.
template <int n, class From>
void Query(const From* e, int c) {
  using C = typename ClassAt<n>::type;
  const bool want = Derives(c, n);
  if constexpr (std::is_same_v<From, ErrorInfoBase>)
    VH_CHECK(e->template IsA<C>() == want, "C20.isa", "IsA<%d>() of an object of class %d is %d", n, c, !want);
  VH_CHECK(e->IsA(C::GetClassID()) == want, "C20.isa", "IsA(id of %d) of an object of class %d is %d", n, c, !want);
  VH_CHECK((e->GetDynamicClassID() == C::GetClassID()) == (c == n), "C20.id", "class id of %d confused with %d", c, n);
  if constexpr (std::is_same_v<From, ErrorInfoBase>) {
    rst::Nullable<const C*> p1 = rst::dyn_cast<C>(e);
    rst::Nullable<const C*> p2 = rst::dyn_cast<C>(rst::NotNull<const From*>(e));
    From* m = const_cast<From*>(e);
    rst::Nullable<C*> p3 = rst::dyn_cast<C>(m);
    rst::Nullable<C*> p4 = rst::dyn_cast<C>(rst::NotNull<From*>(m));
    const C* exact = want ? static_cast<const C*>(e) : nullptr;
    VH_CHECK(p1 == exact && p2 == exact && p3 == exact && p4 == exact, "C20.cast", "casting an object of class %d to class %d gives %s", c, n,
             want ? "another object or null" : "an object");
    if (want) {
      VH_CHECK(static_cast<const ErrorInfoBase*>(p1.get()) == static_cast<const ErrorInfoBase*>(e), "C20.cast", "the cast changed the object");
      if constexpr (n == 20) VH_CHECK(p1.get()->mixin == 4711 && p1.get()->tail == 99, "C20.cast", "the cast lost data");
    }
    Stat("queries", 6);
  } else {
    Stat("queries", 2);
  }
}
template <class From>
void QueryAll(const From* e, int c) {
#define Q(n) Query<n, From>(e, c);
  Q(0) Q(1) Q(2) Q(3) Q(4) Q(5) Q(6) Q(7) Q(8) Q(9) Q(10) Q(11) Q(12) Q(13) Q(14) Q(15) Q(16) Q(17) Q(18) Q(19)
  Q(20) Q(21) Q(22) Q(23) Q(24) Q(25) Q(26) Q(27)
#undef Q
  VH_CHECK(e->IsA(ErrorInfoBase::GetClassID()), "C20.isa", "an error is no ErrorInfoBase");
  VH_CHECK(static_cast<const ErrorInfoBase*>(e)->template IsA<ErrorInfoBase>(), "C20.isa", "an error is no ErrorInfoBase");
  VH_CHECK(rst::dyn_cast<ErrorInfoBase>(static_cast<const ErrorInfoBase*>(e)) == static_cast<const ErrorInfoBase*>(e), "C20.cast", "cast to the base class failed");
  static char foreign;
  VH_CHECK(!e->IsA(rst::NotNull<const void*>(&foreign)), "C20.isa", "a foreign id matches");
  VH_CHECK(!e->IsA(rst::NotNull<const void*>(static_cast<const void*>(e))), "C20.isa", "a foreign id matches");
}

// Many classes, whose ids lie at chosen distances from each other.
alignas(4096) char g_ids[(1 << 21) + 4096];
template <int n>
class Far : public ErrorInfo<Far<n>> {
 public:
  const std::string& AsString() const override { static const std::string s = std::to_string(n); return s; }
  static constexpr char& id_ = g_ids[n];
};
template <int n>
class FarChild : public ErrorInfo<FarChild<n>, Far<n>> {
 public:
  static constexpr char& id_ = g_ids[n + 77];
};
struct FarClass {
  int n;
  std::unique_ptr<ErrorInfoBase> object, child;
  bool (*is_a)(const ErrorInfoBase*);
  const void* (*cast)(const ErrorInfoBase*);
};
template <int n>
FarClass MakeFar() {
  return {n, std::make_unique<Far<n>>(), std::make_unique<FarChild<n>>(), [](const ErrorInfoBase* e) { return e->IsA<Far<n>>(); },
          [](const ErrorInfoBase* e) -> const void* { return static_cast<const ErrorInfoBase*>(rst::dyn_cast<Far<n>>(e).get()); }};
}
template <int... n>
std::vector<FarClass> MakeFars(std::integer_sequence<int, n...>) {
  std::vector<FarClass> v;
  (v.push_back(MakeFar<n>()), ...);
  (v.push_back(MakeFar<n * 64 + 64>()), ...);
  (v.push_back(MakeFar<n * 4096 + 4096>()), ...);
  (v.push_back(MakeFar<(n % 32 + 2) * 32768>()), ...);
  (v.push_back(MakeFar<(1 << 16) + (1 << (n % 20))>()), ...);
  return v;
}
void FarCase(Rng& r) {
  static const std::vector<FarClass> all = MakeFars(std::make_integer_sequence<int, 40>());
  const size_t from = r.Below(all.size());
  for (size_t k = 0; k < all.size(); k++) {
    const FarClass& o = all[(from + k) % all.size()];
    const bool flip = r.Chance(1, 2);
    for (size_t j = 0; j < all.size(); j++) {
      const FarClass& c = all[flip ? all.size() - 1 - j : j];
      const ErrorInfoBase* const e = (j + k) % 3 == 0 ? o.child.get() : o.object.get();
      const bool want = o.n == c.n;
      VH_CHECK(c.is_a(e) == want, "C20.isa", "IsA of class %d of an object of the unrelated class %d or of its own is %d", c.n, o.n, !want);
      VH_CHECK(c.cast(e) == (want ? e : nullptr), "C20.cast", "casting an object of class %d to class %d gives %s", o.n, c.n, want ? "nothing" : "an object");
    }
  }
  Stat("far_queries", all.size() * all.size() * 2);
}

void RttiCase(uint64_t i, Rng& r) {
  g_live.clear();
  if (i % 4000 == 17) FarCase(r);
  const int c = static_cast<int>((i / opt.shards) % kAll);
  const int seed = static_cast<int>(r.Below(1000000)) + 1;
  const void* complete = nullptr;
  Status s = MakeAny(c, seed, &complete);
  const auto check = [&](const ErrorInfoBase* e) {
    QueryAll(e, c);
    // Through the static types on the way to the class.
    if (Derives(c, 0)) QueryAll(static_cast<const E<0>*>(e), c);
    if (Derives(c, 3)) QueryAll(static_cast<const E<3>*>(e), c);
    if (Derives(c, 8)) QueryAll(static_cast<const E<8>*>(e), c);
    if (Derives(c, 13)) QueryAll(static_cast<const E<13>*>(e), c);
    if (Derives(c, 23)) QueryAll(static_cast<const rst::FileError*>(e), c);
    if (Derives(c, 26)) QueryAll(static_cast<const Err*>(e), c);
    std::string text;
    if (c >= 23 && c <= 25) text = "library " + std::to_string(seed);
    else if (c < 20) text = Fmt("class %d seed %d", c, seed);
    else if (c == 20) text = Fmt("class 3 seed %d", seed);
    else if (c < 23) text = Fmt("%c %d", c == 21 ? 'a' : 'b', seed);
    else text = "error " + std::to_string(seed) + std::string(static_cast<size_t>(seed % 40), 'e');
    VH_CHECK(e->AsString() == text, "C20.data", "the text of class %d is '%s' instead of '%s'", c, e->AsString().c_str(), text.c_str());
  };
  const int n = static_cast<int>(r.Below(6));
  std::string hist;
  if (s.err()) check(s.GetError().get());
  for (int k = 0; k < n; k++) {
    switch (r.Below(3)) {
      case 0: { Status t = std::move(s); (void)t.err(); s.Ignore(); s = std::move(t); hist += "m"; break; }
      case 1: {
        StatusOr<std::string> o(std::move(s));
        VH_CHECK(o.err(), "C20.status", "an error in a status-or is none");
        check(o.status().GetError().get());
        s = std::move(o).TakeStatus();
        hist += "o";
        break;
      }
      default: {
        StatusOr<int> o = 3;
        (void)o.err();
        o = std::move(s);
        StatusOr<int> p = std::move(o);
        VH_CHECK(p.err(), "C20.status", "an error in a status-or is none");
        check(p.status().GetError().get());
        s = std::move(p).TakeStatus();
        hist += "p";
      }
    }
    VH_CHECK(s.err(), "C20.status", "the error was lost");
    check(s.GetError().get());
    Obs(hist);
  }
  s.Ignore();
  Distinct(HashStr(hist, static_cast<uint64_t>(c) * 1000003 + static_cast<uint64_t>(seed % 7)));
  if (i % 31 == 0) Sample(Fmt("class %d through %s", c, hist.c_str()));
}

}  // namespace

int main(int argc, char** argv) {
  Init(argc, argv);
  ForCases(RttiCase, 3);
  Flush();
  return 0;
}
