// Status and StatusOr against a model (C18).
#define VH_DEFINE_ASSERT 1
#include "errors.h"

namespace {

// ------------------------------------------------------------ model
// What a slot must be.
struct Model {
  bool alive = false;
  bool moved = false;    // content taken; only assignment and destruction
  bool checked = false;  // outcome asked for
  bool error = false;
  int id = 0;
  const void* addr = nullptr;  // error object
  bool sub = false;
};

std::string g_log;
int g_next = 0;
uint64_t g_violations = 0;

template <class Obj>
struct Slot {
  alignas(Obj) unsigned char raw[sizeof(Obj)];
  Model m;
  Obj& o() { return *std::launder(reinterpret_cast<Obj*>(raw)); }
};

void CheckError(rst::NotNull<const ErrorInfoBase*> e, const Model& m) {
  VH_CHECK(e.get() == m.addr, "C18.content", "the error object changed (%d)", m.id);
  VH_CHECK(g_live.count(m.addr) && g_live[m.addr] == m.id, "C18.life", "the error object %d is not alive", m.id);
  const auto d = rst::dyn_cast<Err>(e);
  VH_CHECK(d != nullptr && d->id == m.id, "C18.content", "error %d lost its data", m.id);
  VH_CHECK(e->AsString() == "error " + std::to_string(m.id) + std::string(static_cast<size_t>(m.id % 40), 'e'), "C18.content", "error %d lost its text", m.id);
  VH_CHECK((rst::dyn_cast<SubErr>(e) != nullptr) == m.sub, "C18.content", "error %d changed its class", m.id);
}

void Note(const char* what, int a, int b = -1) {
  if (g_log.size() < 3000) g_log += b >= 0 ? Fmt("%s(%d,%d) ", what, a, b) : Fmt("%s(%d) ", what, a);
}

// Runs an operation that breaks the obligation.
template <class F>
void Expect(const char* what, F&& f) {
  g_violations++;
  VH_CHECK(Rejects(f), "C18.reject", "%s was not rejected after %s", what, g_log.c_str());
}

struct World {
  virtual ~World() = default;
  // Returns false if the case is over (a rejection was provoked).
  virtual bool Step(Rng& r, bool violate) = 0;
  virtual void Finish() = 0;
};

// ---- Status
struct StatusWorld : World {
  Slot<Status> s[5];

  void CheckState(Slot<Status>& x) {
    const bool e = x.o().err();
    x.m.checked = true;
    VH_CHECK(e == x.m.error, "C18.kind", "err() is %d for %s %d after %s", e, x.m.error ? "error" : "success", x.m.id, g_log.c_str());
    if (e) CheckError(std::as_const(x.o()).GetError(), x.m);
    Obs(Fmt("%d %d", e, x.m.id));
  }
  static Status Pass(Status s, int depth) { return depth > 0 ? Pass(std::move(s), depth - 1) : Status(std::move(s)); }

  bool Step(Rng& r, bool violate) override {
    const int i = static_cast<int>(r.Below(5));
    auto& x = s[i];
    if (violate) {
      if (!x.m.alive) return true;
      switch (r.Below(4)) {
        case 0:
          if (x.m.checked) return true;
          Expect("destroying an unchecked status", [&] { x.o().~Status(); });
          return false;
        case 1: {
          if (x.m.checked) return true;
          const bool err = r.Chance(1, 2);
          Expect("overwriting an unchecked status", [&] {
            if (err) x.o() = rst::MakeStatus<Err>(7); else x.o() = Status::OK();
          });
          return false;
        }
        case 2:
          if (x.m.checked || x.m.moved || !x.m.error) return true;
          Expect("reading the error of an unchecked status", [&] { (void)x.o().GetError(); });
          return false;
        default:
          if (x.m.moved || x.m.error) return true;
          if (r.Chance(1, 2)) {
            if (!x.m.checked && r.Chance(1, 2)) x.o().Ignore(); else (void)x.o().err();
          }
          Expect("reading the error of a success", [&] { (void)x.o().GetError(); });
          return false;
      }
    }
    if (!x.m.alive) {
      const uint64_t k = r.Below(4);
      if (k == 0) {
        new (x.raw) Status(Status::OK());
        x.m = Model{true, false, false, false, 0, nullptr, false};
        Note("ok", i);
      } else if (k < 3) {
        x.m = Model{true, false, false, true, ++g_next, nullptr, r.Chance(1, 3)};
        new (x.raw) Status(MakeErr(x.m.id, x.m.sub, &x.m.addr));
        Note("error", i);
      } else {
        const int j = static_cast<int>(r.Below(5));
        if (j == i || !s[j].m.alive || s[j].m.moved) return true;
        const int depth = static_cast<int>(r.Below(4));
        if (depth) new (x.raw) Status(Pass(std::move(s[j].o()), depth)); else new (x.raw) Status(std::move(s[j].o()));
        x.m = s[j].m;
        x.m.checked = false;
        s[j].m.moved = s[j].m.checked = true;
        Note("move", i, j);
      }
      return true;
    }
    switch (r.Below(8)) {
      case 0: case 1:
        if (x.m.moved) { if (r.Chance(1, 2)) (void)x.o().err(); return true; }
        Note("err", i);
        CheckState(x);
        return true;
      case 2:
        x.o().Ignore();
        x.m.checked = true;
        Note("ignore", i);
        return true;
      case 3: {  // assign a new one
        if (Strict() && !x.m.checked) { CheckOrIgnore(x, r); }
        const bool err = r.Chance(2, 3);
        if (err) {
          Model m{true, false, false, true, ++g_next, nullptr, r.Chance(1, 3)};
          Status t = MakeErr(m.id, m.sub, &m.addr);
          x.o() = std::move(t);
          x.m = m;
        } else {
          x.o() = Status::OK();
          x.m = Model{true, false, false, false, 0, nullptr, false};
        }
        Note("assign", i);
        return true;
      }
      case 4: case 5: {  // move assign
        const int j = static_cast<int>(r.Below(5));
        if (j == i || !s[j].m.alive || s[j].m.moved) return true;
        if (Strict() && !x.m.checked) CheckOrIgnore(x, r);
        x.o() = std::move(s[j].o());
        x.m = s[j].m;
        x.m.checked = false;
        s[j].m.moved = s[j].m.checked = true;
        Note("moveassign", i, j);
        return true;
      }
      default:
        if (Strict() && !x.m.checked) CheckOrIgnore(x, r);
        x.o().~Status();
        x.m = Model();
        Note("destroy", i);
        return true;
    }
  }
  void CheckOrIgnore(Slot<Status>& x, Rng& r) {
    if (!x.m.moved && r.Chance(2, 3)) CheckState(x);
    else { x.o().Ignore(); x.m.checked = true; }
  }
  void Finish() override {
    for (auto& x : s) {
      if (!x.m.alive) continue;
      if (!x.m.moved) CheckState(x);
      x.o().~Status();
      x.m = Model();
    }
  }
};

// ---- StatusOr
template <class T>
struct OrWorld : World {
  using SO = StatusOr<T>;
  static constexpr bool kTrivial = std::is_trivially_copyable_v<T>;
  Slot<SO> s[5];

  static SO Pass(SO s, int depth) { return depth > 0 ? Pass(std::move(s), depth - 1) : SO(std::move(s)); }

  void CheckState(Slot<SO>& x) {
    const bool e = x.o().err();
    x.m.checked = true;
    VH_CHECK(e == x.m.error, "C18.kind", "err() is %d for %s %d after %s", e, x.m.error ? "error" : "value", x.m.id, g_log.c_str());
    Obs(Fmt("%d %d", e, x.m.id));
    if (e) {
      const Status& st = std::as_const(x.o()).status();
      CheckError(st.GetError(), x.m);
      return;
    }
    VH_CHECK(IdOf(*x.o()) == Expect(x.m.id), "C18.content", "the value is %d instead of %d after %s", IdOf(*x.o()), Expect(x.m.id), g_log.c_str());
    VH_CHECK(x.o().operator->().get() == &*x.o(), "C18.content", "-> and * differ");
  }
  static int Expect(int id) { return ::Expect<T>(id); }

  bool Step(Rng& r, bool violate) override {
    const int i = static_cast<int>(r.Below(5));
    auto& x = s[i];
    if (violate) return Violate(r, x);
    if (!x.m.alive) {
      const uint64_t k = r.Below(5);
      if (k < 2) {
        x.m = Model{true, false, false, false, ++g_next, nullptr, false};
        if constexpr (kTrivial) {
          const T v = Maker<T>::Make(x.m.id);
          if (r.Chance(1, 2)) new (x.raw) SO(v); else new (x.raw) SO(Maker<T>::Make(x.m.id));
        } else {
          new (x.raw) SO(Maker<T>::Make(x.m.id));
        }
        Note("value", i);
      } else if (k < 4) {
        x.m = Model{true, false, false, true, ++g_next, nullptr, r.Chance(1, 3)};
        new (x.raw) SO(MakeErr(x.m.id, x.m.sub, &x.m.addr));
        Note("error", i);
      } else {
        const int j = static_cast<int>(r.Below(5));
        if (j == i || !s[j].m.alive || s[j].m.moved) return true;
        const int depth = static_cast<int>(r.Below(4));
        if (depth) new (x.raw) SO(Pass(std::move(s[j].o()), depth)); else new (x.raw) SO(std::move(s[j].o()));
        Moved(x, s[j]);
        Note("move", i, j);
      }
      return true;
    }
    switch (r.Below(11)) {
      case 0: case 1:
        if (x.m.moved) { if (r.Chance(1, 2)) (void)x.o().err(); return true; }
        Note("err", i);
        CheckState(x);
        return true;
      case 2:
        x.o().Ignore();
        x.m.checked = true;
        Note("ignore", i);
        return true;
      case 3: {  // assign an error
        Ready(x, r);
        Model m{true, false, false, true, ++g_next, nullptr, r.Chance(1, 3)};
        Status t = MakeErr(m.id, m.sub, &m.addr);
        x.o() = std::move(t);
        x.m = m;
        Note("assign-error", i);
        return true;
      }
      case 4: case 5: {  // assign a value
        Ready(x, r);
        const int id = ++g_next;
        if constexpr (kTrivial) {
          const T v = Maker<T>::Make(id);
          if (r.Chance(1, 2)) x.o() = v; else x.o() = Maker<T>::Make(id);
        } else {
          x.o() = Maker<T>::Make(id);
        }
        x.m = Model{true, false, false, false, id, nullptr, false};
        Note("assign-value", i);
        return true;
      }
      case 6: case 7: case 8: {  // move assign
        const int j = static_cast<int>(r.Below(5));
        if (j == i || !s[j].m.alive || s[j].m.moved) return true;
        Ready(x, r);
        x.o() = std::move(s[j].o());
        Moved(x, s[j]);
        Note("moveassign", i, j);
        return true;
      }
      case 9: {  // take the error and put it somewhere else
        if (x.m.moved || !x.m.error) return true;
        if (Strict() && !x.m.checked) CheckState(x);
        const int j = static_cast<int>(r.Below(5));
        Note("take", i, j);
        const Model m = x.m;
        if (j == i) {
          x.o() = std::move(x.o()).TakeStatus();
          x.m.checked = false;
          return true;
        }
        if (s[j].m.alive) {
          Ready(s[j], r);
          s[j].o() = std::move(x.o()).TakeStatus();
        } else {
          new (s[j].raw) SO(std::move(x.o()).TakeStatus());
        }
        s[j].m = m;
        s[j].m.checked = false;
        x.m.moved = x.m.checked = true;
        return true;
      }
      default:
        Ready(x, r);
        x.o().~SO();
        x.m = Model();
        Note("destroy", i);
        return true;
    }
  }
  static void Moved(Slot<SO>& to, Slot<SO>& from) {
    to.m = from.m;
    to.m.checked = false;
    from.m.moved = from.m.checked = true;
  }
  void Ready(Slot<SO>& x, Rng& r) {
    if (x.m.checked) return;
    if (!Strict() && r.Chance(1, 2)) return;
    if (!x.m.moved && r.Chance(2, 3)) CheckState(x);
    else { x.o().Ignore(); x.m.checked = true; }
  }
  bool Violate(Rng& r, Slot<SO>& x) {
    if (!x.m.alive) return true;
    const uint64_t k = r.Below(12);
    if (k < 6) {  // unchecked
      if (x.m.checked) return true;
      switch (k) {
        case 0: ::Expect("destroying an unchecked status-or", [&] { x.o().~SO(); }); return false;
        case 1: ::Expect("overwriting an unchecked status-or with an error", [&] { x.o() = rst::MakeStatus<Err>(7); }); return false;
        case 2: ::Expect("overwriting an unchecked status-or with a value", [&] {
          if constexpr (kTrivial) { const T v = Maker<T>::Make(9); x.o() = v; } else { x.o() = Maker<T>::Make(9); }
        }); return false;
        case 3: {
          const bool err = r.Chance(1, 2);
          ::Expect("moving over an unchecked status-or", [&] {
            if (err) { SO t(rst::MakeStatus<Err>(8)); x.o() = std::move(t); } else { SO t(Maker<T>::Make(10)); x.o() = std::move(t); }
          });
          return false;
        }
        case 4:
          if (x.m.moved) return true;
          if (!x.m.error) {
            if (r.Chance(1, 2)) ::Expect("reading an unchecked value with *", [&] { (void)*x.o(); });
            else ::Expect("reading an unchecked value with ->", [&] { (void)x.o().operator->(); });
          } else {
            if (r.Chance(1, 2)) ::Expect("reading an unchecked status", [&] { (void)x.o().status(); });
            else ::Expect("taking an unchecked status", [&] { Status t = std::move(x.o()).TakeStatus(); t.Ignore(); });
          }
          return false;
        default:
          if constexpr (std::is_move_assignable_v<T>)
            ::Expect("overwriting an unchecked status-or with a temporary value", [&] { x.o() = Maker<T>::Make(11); });
          return false;
      }
    }
    if (x.m.moved) return true;
    if (k < 9) {  // the wrong kind
      if (!x.m.checked || r.Chance(1, 2)) { if (r.Chance(1, 2)) (void)x.o().err(); else x.o().Ignore(); }
      if (x.m.error) {
        if (r.Chance(1, 2)) ::Expect("reading the value of an error with *", [&] { (void)*x.o(); });
        else ::Expect("reading the value of an error with ->", [&] { (void)x.o().operator->(); });
      } else {
        if (r.Chance(1, 2)) ::Expect("reading the status of a value", [&] { (void)x.o().status(); });
        else ::Expect("taking the status of a value", [&] { Status t = std::move(x.o()).TakeStatus(); t.Ignore(); });
      }
      return false;
    }
    if (k < 11) {  // a success is no error
      if (!x.m.checked) { (void)x.o().err(); }
      if (r.Chance(1, 2)) ::Expect("assigning a successful status", [&] { x.o() = Status::OK(); });
      else ::Expect("constructing from a successful status", [&] { SO t(Status::OK()); t.Ignore(); });
      return false;
    }
    // A taken status is unchecked.
    if (!x.m.error) return true;
    if (!x.m.checked) CheckState(x);
    ::Expect("dropping a taken status", [&] { Status t = std::move(x.o()).TakeStatus(); });
    return false;
  }
  void Finish() override {
    for (auto& x : s) {
      if (!x.m.alive) continue;
      if (!x.m.moved) CheckState(x);
      x.o().~SO();
      x.m = Model();
    }
  }
};

std::unique_ptr<World> NewWorld(uint64_t k) {
  switch (k) {
    case 0: case 1: return std::make_unique<StatusWorld>();
    case 2: return std::make_unique<OrWorld<int>>();
    case 3: return std::make_unique<OrWorld<Val<1, false>>>();
    case 4: return std::make_unique<OrWorld<std::unique_ptr<Val<4, false>>>>();
    case 5: return std::make_unique<OrWorld<std::string>>();
    case 6: return std::make_unique<OrWorld<Wide>>();
    case 7: return std::make_unique<OrWorld<std::vector<int>>>();
    case 8: return std::make_unique<OrWorld<Val<200, false>>>();
    case 10: return std::make_unique<OrWorld<bool>>();
    case 11: return std::make_unique<OrWorld<double>>();
    case 12: return std::make_unique<OrWorld<Choice>>();
    case 13: return std::make_unique<OrWorld<const char*>>();
    case 14: return std::make_unique<OrWorld<long double>>();
    case 15: return std::make_unique<OrWorld<unsigned char>>();
    case 16: return std::make_unique<OrWorld<Plain>>();
    default: return std::make_unique<OrWorld<std::shared_ptr<int>>>();
  }
}

void StatusCase(uint64_t, Rng& r) {
  g_log.clear();
  g_live.clear();
  g_shared.clear();
  g_next = 0;
  const uint64_t kind = r.Below(17);
  const bool violate = r.Chance(1, 3) && Violating();
  if (violate && __lsan_disable) __lsan_disable();
  auto w = NewWorld(kind);
  const int n = static_cast<int>(r.In(3, 40));
  bool ended = false;
  for (int i = 0; i < n; i++) w->Step(r, false);
  if (violate)
    for (int t = 0; t < 12 && !ended; t++) ended = !w->Step(r, true);
  Stat("steps", static_cast<uint64_t>(n));
  Distinct(HashStr(g_log, kind * 37 + (ended ? 7 : 0)));
  if (!ended) {
    w->Finish();
    VH_CHECK(g_live.empty(), "C18.life", "%zu values or errors are still alive after %s", g_live.size(), g_log.c_str());
    for (const auto& [id, p] : g_shared) VH_CHECK(p.use_count() == 1, "C18.life", "value %d still has %ld owners", id, p.use_count());
    w.reset();
  } else {
    Stat("rejected violations");
    (void)w.release();  // broken off in the middle of an operation
  }
  if (violate && __lsan_enable) __lsan_enable();
  Sample(g_log);
}

}  // namespace

int main(int argc, char** argv) {
  Init(argc, argv);
  ForCases(StatusCase, 1);
  Flush();
  return 0;
}
