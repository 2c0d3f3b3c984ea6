// WeakPtr and Bind against a model of object lifetimes (C09).
#define VH_DEFINE_ASSERT 1
#include "vh.h"

#include <sched.h>

#include <atomic>
#include <functional>
#include <memory>
#include <string>
#include <thread>
#include <vector>

#include "rst/bind/bind.h"
#include "rst/memory/weak_ptr.h"

using namespace vh;

namespace {

struct Base : public rst::SupportsWeakPtr<Base> {
  explicit Base(int id) : id(id) {}
  virtual ~Base() { canary = 0; }
  int id;
  int canary = 4242;
  std::vector<std::string> calls;
  void Call0() { calls.push_back("0"); }
  void Call2(int a, const std::string& b) { calls.push_back(Fmt("2:%d:%s", a, b.c_str())); }
  void CallV(int a, std::string b) { calls.push_back(Fmt("v:%d:%s", a, b.c_str())); std::string taken = std::move(b); }
  void CallS(std::shared_ptr<int> p, std::string b) { calls.push_back(Fmt("p:%d:%ld:%s", p ? *p : -1, p.use_count() > 0 ? 1L : 0L, b.c_str())); }
  void CallC(int a) const { const_cast<Base*>(this)->calls.push_back(Fmt("c:%d", a)); }
};
struct Pad { virtual ~Pad() = default; int64_t pad[5] = {1, 2, 3, 4, 5}; };
struct VRoot { virtual ~VRoot() = default; int64_t v = 77; };
struct Derived : public Base { explicit Derived(int id) : Base(id) {} int more = 5; };
struct Multi : public Pad, public Derived, public virtual VRoot { explicit Multi(int id) : Derived(id) {} };

// What lives in an object slot.
struct Obj {
  std::unique_ptr<Base> owner;
  Derived* derived = nullptr;
  Multi* multi = nullptr;
  int id = 0;
};

// A weak pointer slot of one of several static types.
template <class T>
struct W {
  rst::WeakPtr<T> p;
  int target = -1;      // object id, -1 none
  bool unknown = false; // moved from
};

struct World {
  Rng& r;
  std::vector<Obj> objs;
  std::vector<int> alive_slot;  // id -> slot or -1
  int next = 0;
  std::vector<W<Base>> wb;
  std::vector<W<const Base>> wc;
  std::vector<W<Derived>> wd;
  std::vector<W<Multi>> wm;
  std::vector<W<Pad>> wp;
  std::vector<W<VRoot>> wv;
  std::string log;
  uint64_t h = 3;
  explicit World(Rng& r) : r(r), objs(r.Below(3) + 2), wb(3), wc(2), wd(3), wm(2), wp(2), wv(2) {}

  void Log(const std::string& s) { if (log.size() < 4000) log += s; h = HashStr(s, h); }
  Obj* Find(int id) {
    if (id < 0) return nullptr;
    const int s = alive_slot[static_cast<size_t>(id)];
    return s < 0 ? nullptr : &objs[static_cast<size_t>(s)];
  }
  static Base* As(Obj* o, Base*) { return o->owner.get(); }
  static const Base* As(Obj* o, const Base*) { return o->owner.get(); }
  static Derived* As(Obj* o, Derived*) { return o->derived; }
  static Multi* As(Obj* o, Multi*) { return o->multi; }
  static Pad* As(Obj* o, Pad*) { return o->multi; }
  static VRoot* As(Obj* o, VRoot*) { return o->multi; }

  template <class T>
  void Check(const W<T>& w, const char* what, size_t i) {
    if (w.unknown) {
      // Moved from: null or still the object, nothing else.
      T* p = w.p.GetNullable().get();
      Obj* o = Find(w.target);
      VH_CHECK(p == nullptr || (o && p == As(o, static_cast<T*>(nullptr))), "C09.moved", "moved-from %s%zu is %p; %s", what, i,
               static_cast<const void*>(p), log.c_str());
      return;
    }
    Obj* o = Find(w.target);
    T* want = o ? As(o, static_cast<T*>(nullptr)) : nullptr;
    T* p = w.p.GetNullable().get();
    VH_CHECK(p == want, "C09.target", "%s%zu yields %p instead of %p (object %d, %s); %s", what, i, static_cast<const void*>(p),
             static_cast<const void*>(want), w.target, o ? "alive" : "dead", log.c_str());
    Stat(o ? "live_reads" : w.target >= 0 ? "dead_reads" : "null_reads");
  }
  void CheckAll() {
    for (size_t i = 0; i < wb.size(); i++) Check(wb[i], "base", i);
    for (size_t i = 0; i < wc.size(); i++) Check(wc[i], "const", i);
    for (size_t i = 0; i < wd.size(); i++) Check(wd[i], "derived", i);
    for (size_t i = 0; i < wm.size(); i++) Check(wm[i], "multi", i);
    for (size_t i = 0; i < wp.size(); i++) Check(wp[i], "pad", i);
    for (size_t i = 0; i < wv.size(); i++) Check(wv[i], "virtual", i);
  }
  // to = from, in one of the available ways.
  template <class T, class U>
  void Assign(W<T>& to, W<U>& from, const char* what) {
    const void *a = &to, *b = &from;
    const bool same = a == b;
    const auto way = r.Below(same ? 1 : 5);
    Log(Fmt("%s/%d ", what, static_cast<int>(way)));
    switch (way) {
      case 0: to.p = from.p; break;
      case 1: to.p = std::move(from.p); break;
      case 2: { rst::WeakPtr<T> t(from.p); to.p = t; break; }
      case 3: { rst::WeakPtr<T> t(std::move(from.p)); to.p = std::move(t); break; }
      case 4: { to.~W<T>(); new (&to) W<T>{rst::WeakPtr<T>(from.p), -1, false}; break; }
    }
    if (same) return;
    to.target = from.target;
    to.unknown = from.unknown;
    if (way == 1 || way == 3) from.unknown = true;
    // Reading an unknown source gave either null or the object; settle it.
    if (to.unknown) { to.p = nullptr; to.target = -1; to.unknown = false; }
  }
  template <class T>
  void Null(W<T>& w) {
    if (r.Chance(1, 2)) w.p = nullptr;
    else w.p = rst::WeakPtr<T>(nullptr);
    w.target = -1;
    w.unknown = false;
  }
};

void Pointers(World& w, Rng& r, int ops) {
  for (int o = 0; o < ops; o++) {
    const size_t s = r.Below(w.objs.size());
    Obj& ob = w.objs[s];
    auto I = [&](auto& v) -> auto& { return v[r.Below(v.size())]; };
    static const int kMore[] = {0, 3, 4, 5, 6, 7};
    auto op = r.Below(36);
    if (op >= 22) op = static_cast<uint64_t>(kMore[r.Below(6)]);
    switch (op) {
      case 0: case 1: {  // new object
        if (ob.owner) w.alive_slot[static_cast<size_t>(ob.id)] = -1;
        const int kind = r.Chance(1, 2) ? 2 : static_cast<int>(r.Below(2));
        w.Log(Fmt("new%zu:%d ", s, kind));
        ob = Obj();
        ob.id = w.next++;
        w.alive_slot.push_back(static_cast<int>(s));
        if (kind == 0) ob.owner = std::make_unique<Base>(ob.id);
        else if (kind == 1) { auto d = std::make_unique<Derived>(ob.id); ob.derived = d.get(); ob.owner = std::move(d); }
        else { auto m = std::make_unique<Multi>(ob.id); ob.derived = m.get(); ob.multi = m.get(); ob.owner = std::move(m); }
        break;
      }
      case 2:
        if (ob.owner) { w.Log(Fmt("del%zu ", s)); w.alive_slot[static_cast<size_t>(ob.id)] = -1; ob = Obj(); }
        break;
      case 3: if (ob.owner) { w.Log("get "); auto& x = I(w.wb); x.p = ob.owner->AsWeakPtr(); x.target = ob.id; x.unknown = false; } break;
      case 4: if (ob.owner) { w.Log("getc "); auto& x = I(w.wc); x.p = static_cast<const Base&>(*ob.owner).AsWeakPtr(); x.target = ob.id; x.unknown = false; } break;
      case 5: if (ob.derived) { w.Log("getd "); auto& x = I(w.wd);
          if (r.Chance(1, 2)) x.p = rst::AsWeakPtr(ob.derived); else x.p = rst::AsWeakPtr(rst::NotNull<Derived*>(ob.derived));
          x.target = ob.id; x.unknown = false; } break;
      case 6: if (ob.multi) { w.Log("getm "); auto& x = I(w.wm); x.p = rst::AsWeakPtr(ob.multi); x.target = ob.id; x.unknown = false; } break;
      case 7: if (ob.multi) { w.Log("getp "); auto& x = I(w.wp); x.p = rst::AsWeakPtr(ob.multi); x.target = ob.id; x.unknown = false; } break;
      case 8: w.Assign(I(w.wb), I(w.wb), "b=b"); break;
      case 9: w.Assign(I(w.wb), I(w.wd), "b=d"); break;
      case 10: w.Assign(I(w.wb), I(w.wm), "b=m"); break;
      case 11: w.Assign(I(w.wc), I(w.wb), "c=b"); break;
      case 12: w.Assign(I(w.wc), I(w.wm), "c=m"); break;
      case 13: w.Assign(I(w.wd), I(w.wm), "d=m"); break;
      case 14: w.Assign(I(w.wp), I(w.wm), "p=m"); break;
      case 15: w.Assign(I(w.wv), I(w.wm), "v=m"); break;
      case 16: w.Assign(I(w.wp), I(w.wp), "p=p"); break;
      case 17: w.Assign(I(w.wv), I(w.wv), "v=v"); break;
      case 18: w.Assign(I(w.wd), I(w.wd), "d=d"); break;
      case 19: w.Assign(I(w.wc), I(w.wc), "c=c"); break;
      case 20: w.Log("null ");
        switch (r.Below(6)) {
          case 0: w.Null(I(w.wb)); break;
          case 1: w.Null(I(w.wc)); break;
          case 2: w.Null(I(w.wd)); break;
          case 3: w.Null(I(w.wm)); break;
          case 4: w.Null(I(w.wp)); break;
          default: w.Null(I(w.wv)); break;
        }
        break;
      default: w.Assign(I(w.wm), I(w.wm), "m=m"); break;
    }
    w.CheckAll();
  }
}

// Callables bound to objects that come and go.
void Binds(Rng& r, std::string& log, uint64_t& h) {
  struct Call { std::function<void(int, const std::string&)> f; int obj; int kind; int a; std::string b; bool shared; };
  std::vector<std::unique_ptr<Base>> un(3);
  std::vector<std::shared_ptr<Base>> sh(3);
  std::vector<int> uid(3, -1), sid(3, -1);
  int next = 0;
  std::vector<Call> calls;
  int released = 0;
  bool drop_in_call = false;
  size_t drop_slot = 0;
  for (int o = 0; o < 40; o++) {
    const size_t s = r.Below(3);
    const bool shared = r.Chance(1, 2);
    switch (r.Below(7)) {
      case 0: case 1:
        log += Fmt("new%s%zu ", shared ? "s" : "u", s);
        if (shared) { sid[s] = next++; if (r.Chance(1, 2)) sh[s] = std::make_shared<Base>(sid[s]); else sh[s] = std::make_shared<Multi>(sid[s]); }
        else { uid[s] = next++; if (r.Chance(1, 2)) un[s] = std::make_unique<Base>(uid[s]); else un[s] = std::make_unique<Multi>(uid[s]); }
        break;
      case 2:
        log += Fmt("del%s%zu ", shared ? "s" : "u", s);
        if (shared) { sh[s].reset(); sid[s] = -1; }
        else { un[s].reset(); uid[s] = -1; }
        break;
      case 3: case 4: {
        Call c;
        c.shared = shared;
        c.obj = shared ? sid[s] : uid[s];
        if (c.obj < 0 || calls.size() > 30) break;
        c.kind = static_cast<int>(r.Below(7));
        c.a = static_cast<int>(r.Below(1000));
        c.b = std::string(r.Below(40), static_cast<char>('a' + r.Below(26)));
        log += Fmt("bind%d:%d ", c.obj, c.kind);
        using std::placeholders::_1;
        using std::placeholders::_2;
        if (!shared) {
          auto wp = un[s]->AsWeakPtr();
          switch (c.kind) {
            case 0: c.f = rst::Bind(&Base::Call0, std::move(wp)); break;
            case 1: c.f = rst::Bind(&Base::Call2, std::move(wp), c.a, c.b); break;
            case 2: c.f = rst::Bind(&Base::Call2, std::move(wp), _1, _2); break;
            case 3: c.f = rst::Bind(&Base::CallC, std::move(wp), _1); break;
            // Bound values that the target takes by value are passed anew in every call.
            case 5: c.f = rst::Bind(&Base::CallV, std::move(wp), c.a, c.b); break;
            case 6: c.f = rst::Bind(&Base::CallS, std::move(wp), std::make_shared<int>(c.a), c.b); break;
            default: {
              auto big = std::make_shared<std::string>(c.b);
              c.f = rst::Bind([big](Base* b, int a, const std::string& t) { b->calls.push_back(Fmt("l:%d:%s:%s", a, big->c_str(), t.c_str())); },
                              std::move(wp), c.a, _2);
            }
          }
        } else {
          std::weak_ptr<Base> wp = sh[s];
          switch (c.kind) {
            case 0: c.f = rst::Bind(&Base::Call0, std::move(wp)); break;
            case 1: c.f = rst::Bind(&Base::Call2, std::move(wp), c.a, c.b); break;
            case 2: c.f = rst::Bind(&Base::Call2, std::move(wp), _1, _2); break;
            case 3: c.f = rst::Bind(&Base::CallC, std::move(wp), _1); break;
            case 5: c.f = rst::Bind(&Base::CallV, std::move(wp), c.a, c.b); break;
            case 6: c.f = rst::Bind(&Base::CallS, std::move(wp), std::make_shared<int>(c.a), c.b); break;
            default:
              c.f = rst::Bind([&, a = c.a](const auto& b, const std::string& t) {
                b->calls.push_back(Fmt("l:%d:%s", a, t.c_str()));
                if (drop_in_call) {
                  // The object has to stay alive although its last owner goes.
                  for (auto& x : sh) if (x.get() == &*b) { sid[static_cast<size_t>(&x - sh.data())] = -1; x.reset(); }
                  VH_CHECK(b->canary == 4242, "C09.kept", "object destroyed during the call");
                  b->calls.push_back("after");
                  VH_CHECK(b->canary == 4242 && b->calls.size() > 1, "C09.kept", "object destroyed during the call");
                  released++;
                }
              }, std::move(wp), _2);
          }
        }
        calls.push_back(std::move(c));
        break;
      }
      case 5: if (!calls.empty()) {  // copies and moves of the callable
        const size_t i = r.Below(calls.size());
        auto f = calls[i].f;
        if (r.Chance(1, 2)) calls[i].f = nullptr;
        calls[i].f = std::move(f);
        break;
      }
        [[fallthrough]];
      default: if (!calls.empty()) {
        Call& c = calls[r.Below(calls.size())];
        Base* target = nullptr;
        for (size_t i = 0; i < 3; i++) {
          if (!c.shared && un[i] && uid[i] == c.obj) target = un[i].get();
          if (c.shared && sh[i] && sid[i] == c.obj) target = sh[i].get();
        }
        const int a = static_cast<int>(r.Below(1000));
        const std::string b(r.Below(30), static_cast<char>('A' + r.Below(26)));
        std::string want;
        switch (c.kind) {
          case 0: want = "0"; break;
          case 1: want = Fmt("2:%d:%s", c.a, c.b.c_str()); break;
          case 2: want = Fmt("2:%d:%s", a, b.c_str()); break;
          case 3: want = Fmt("c:%d", a); break;
          case 5: want = Fmt("v:%d:%s", c.a, c.b.c_str()); break;
          case 6: want = Fmt("p:%d:1:%s", c.a, c.b.c_str()); break;
          default: want = c.shared ? Fmt("l:%d:%s", c.a, b.c_str()) : Fmt("l:%d:%s:%s", c.a, c.b.c_str(), b.c_str());
        }
        size_t before[6];
        for (size_t i = 0; i < 3; i++) { before[i] = un[i] ? un[i]->calls.size() : 0; before[3 + i] = sh[i] ? sh[i]->calls.size() : 0; }
        drop_in_call = c.shared && c.kind == 4 && r.Chance(1, 3);
        (void)drop_slot;
        std::shared_ptr<Base> keep;
        log += Fmt("call%d:%d%s ", c.obj, c.kind, drop_in_call ? "!" : "");
        const int rel = released;
        c.f(a, b);
        Stat(target ? "calls_alive" : "calls_dead");
        if (drop_in_call && target) {
          VH_CHECK(released == rel + 1, "C09.call", "target not called; %s", log.c_str());
          drop_in_call = false;
          break;
        }
        drop_in_call = false;
        for (size_t i = 0; i < 3; i++) {
          if (un[i]) {
            const size_t n = un[i]->calls.size() - before[i];
            VH_CHECK(n == (un[i].get() == target ? 1u : 0u), "C09.call", "object u%d was called %zu times; %s", uid[i], n, log.c_str());
            if (n) VH_CHECK(un[i]->calls.back() == want, "C09.args", "called with %s instead of %s; %s", un[i]->calls.back().c_str(), want.c_str(), log.c_str());
          }
          if (sh[i]) {
            const size_t n = sh[i]->calls.size() - before[3 + i];
            VH_CHECK(n == (sh[i].get() == target ? 1u : 0u), "C09.call", "object s%d was called %zu times; %s", sid[i], n, log.c_str());
            if (n) VH_CHECK(sh[i]->calls.back() == want, "C09.args", "called with %s instead of %s; %s", sh[i]->calls.back().c_str(), want.c_str(), log.c_str());
          }
        }
      }
    }
  }
  h = HashStr(log, h);
}

// An object destroyed by the call that is bound to it.
struct Suicidal : public rst::SupportsWeakPtr<Suicidal> {
  std::unique_ptr<Suicidal>* self = nullptr;
  int n = 0;
  void Die(int* out) { n++; *out = n; self->reset(); }
};
void Special(Rng& r) {
  auto o = std::make_unique<Suicidal>();
  o->self = &o;
  int out = 0;
  std::function<void()> f = rst::Bind(&Suicidal::Die, o->AsWeakPtr(), &out);
  auto g = f;
  if (r.Chance(1, 2)) f(); else g();
  VH_CHECK(out == 1 && !o, "C09.call", "call not made");
  out = 0;
  f();
  g();
  VH_CHECK(out == 0, "C09.dead", "called after destruction");
#ifndef VH_REDUCED
  {  // Arguments of the call itself are forwarded, also those that can only be moved, and results of every category arrive.
    struct T : public rst::SupportsWeakPtr<T> {
      int got = -1, n = 0;
      void Take(std::unique_ptr<int> p) { got = p ? *p : -2; n++; }
      void Ref(int& x) { x++; n++; }
      void Both(const std::string& s, std::unique_ptr<int> p, int& x) { got = static_cast<int>(s.size()) + *p; x = got; n++; }
    };
    using std::placeholders::_1;
    using std::placeholders::_2;
    const int v = static_cast<int>(r.Below(1000));
    for (int shared = 0; shared < 2; shared++) {
      auto t = std::make_shared<T>();
      int x = v;
      const std::string str(r.Below(60), 'q');
      auto run = [&](auto f, auto g, auto k) {
        f(std::make_unique<int>(v));
        VH_CHECK(t->got == v && t->n == 1, "C09.args", "moved argument lost");
        g(x);
        VH_CHECK(x == v + 1 && t->n == 2, "C09.args", "argument not passed by reference");
        for (int i = 0; i < 2; i++) {
          k(std::make_unique<int>(v), x);
          VH_CHECK(t->got == v + static_cast<int>(str.size()) && x == t->got && t->n == 3 + i, "C09.args", "bound and passed arguments mixed");
        }
        t.reset();
        auto p = std::make_unique<int>(v);
        x = 0;
        f(std::move(p));
        g(x);
        k(std::make_unique<int>(v), x);
        VH_CHECK(x == 0, "C09.dead", "called after destruction");
      };
      if (shared) {
        auto w = [&] { return std::weak_ptr<T>(t); };
        run(rst::Bind(&T::Take, w(), _1), rst::Bind(&T::Ref, w(), _1), rst::Bind(&T::Both, w(), str, _1, _2));
      } else {
        run(rst::Bind(&T::Take, t->AsWeakPtr(), _1), rst::Bind(&T::Ref, t->AsWeakPtr(), _1), rst::Bind(&T::Both, t->AsWeakPtr(), str, _1, _2));
      }
    }
  }
#endif
  // Weak pointers that outlive everything, also through a stack object.
  rst::WeakPtr<Base> w;
  VH_CHECK(w.GetNullable().get() == nullptr, "C09.default", "default weak pointer is not null");
  rst::WeakPtr<const VRoot> v;
  {
    Multi m(1);
    w = m.AsWeakPtr();
    rst::WeakPtr<Multi> wm = rst::AsWeakPtr(&m);
    v = wm;
    VH_CHECK(w.GetNullable().get() == &m && v.GetNullable().get() == &m, "C09.target", "wrong");
    rst::WeakPtr<const Base> c = w;
    w = nullptr;
    VH_CHECK(c.GetNullable().get() == &m && w.GetNullable().get() == nullptr, "C09.null", "assigning null to one empties another");
    const Multi& cm = m;
    auto wcm = rst::AsWeakPtr(&cm);
    static_assert(std::is_same_v<decltype(wcm), rst::WeakPtr<const Multi>>);
    VH_CHECK(wcm.GetNullable().get() == &m, "C09.target", "const downcast");
    w = m.AsWeakPtr();
  }
  VH_CHECK(w.GetNullable().get() == nullptr && v.GetNullable().get() == nullptr, "C09.target", "dead stack object reachable");
}

// The last shared pointer is dropped by one thread while others call.
struct Watched {
  static inline std::atomic<int> dead{0}, calls{0};
  std::atomic<int> magic{0x600d};
  ~Watched() { magic = 0xdead; }
  static void Run(const std::shared_ptr<Watched>& p) {
    calls++;
    if (!p || p->magic != 0x600d) dead++;
  }
  void Member(int n) {
    calls++;
    if (reinterpret_cast<uintptr_t>(this) < 4096 || magic != 0x600d || n != 5) dead++;
  }
};
void Race(Rng& r) {
  const int rounds = 300;
  std::atomic<int> round{0}, done{0};
  std::shared_ptr<Watched> slot;
  std::function<void()> f, g;
  const int callers = static_cast<int>(r.In(1, 2));
  std::vector<std::thread> ts;
  Watched::dead = Watched::calls = 0;
  for (int t = 0; t < callers; t++)
    ts.emplace_back([&, t] {
      for (int k = 1; k <= rounds; k++) {
        while (round.load(std::memory_order_acquire) < k) sched_yield();
        auto& h = t ? g : f;
        for (int i = 0; i < 60; i++) h();
        done++;
      }
    });
  for (int k = 1; k <= rounds; k++) {
    slot = std::make_shared<Watched>();
    f = rst::Bind(&Watched::Run, std::weak_ptr<Watched>(slot));
    g = rst::Bind(&Watched::Member, std::weak_ptr<Watched>(slot), 5);
    done = 0;
    round.store(k, std::memory_order_release);
    const uint64_t spin = r.Below(3000);
    for (uint64_t i = 0; i < spin; i++) asm volatile("");
    slot.reset();
    while (done < callers) sched_yield();
  }
  for (auto& t : ts) t.join();
  VH_CHECK(Watched::dead == 0, "C09.dead", "%d of %d calls reached an object that another thread had released", Watched::dead.load(), Watched::calls.load());
  Stat("racing_calls", static_cast<uint64_t>(rounds) * 60);
  Stat("racing_calls_made", static_cast<uint64_t>(Watched::calls.load()));
}

void Case(uint64_t index, Rng& r) {
  if (index % 8000 == 40) Race(r);
  std::string log;
  uint64_t h = 1;
  if (index % 2) {
    World w(r);
    Pointers(w, r, static_cast<int>(r.In(10, 60)));
    log = w.log;
    h = w.h;
  } else {
    Binds(r, log, h);
  }
  if (index % 16 == 0) Special(r);
  Distinct(h);
  if (index % 1000 < 2) Sample(log.substr(0, 500));
  Obs(log);
}

}  // namespace

int main(int argc, char** argv) {
  Init(argc, argv);
  ForCases(Case, 9);
  Flush();
}
