// Value against a model tree (C10, C11).
#define VH_DEFINE_ASSERT 1
#include "vh.h"

#include <algorithm>
#include <cmath>
#include <limits>
#include <map>
#include <memory>
#include <string>
#include <utility>
#include <vector>

#include "rst/value/value.h"

using namespace vh;
using rst::Value;
using T = Value::Type;

namespace {

struct M {
  T type = T::kNull;
  bool b = false;
  double d = 0;
  std::string s;
  std::vector<M> a;
  std::map<std::string, M> o;
};

std::string Show(const M& m, int depth = 0) {
  if (depth > 6) return "...";
  switch (m.type) {
    case T::kNull: return "null";
    case T::kBool: return m.b ? "true" : "false";
    case T::kNumber: return Fmt("%.17g", m.d);
    case T::kString: return "'" + Esc(m.s, 60) + "'";
    case T::kArray: { std::string r = "["; for (auto& x : m.a) r += Show(x, depth + 1) + ","; return r + "]"; }
    case T::kObject: { std::string r = "{"; for (auto& [k, x] : m.o) r += Esc(k, 40) + ":" + Show(x, depth + 1) + ","; return r + "}"; }
  }
  return "?";
}
std::string Show(const Value& v, int depth = 0) {
  if (depth > 6) return "...";
  switch (v.type()) {
    case T::kNull: return "null";
    case T::kBool: return v.GetBool() ? "true" : "false";
    case T::kNumber: return Fmt("%.17g", v.GetDouble());
    case T::kString: return "'" + Esc(v.GetString(), 60) + "'";
    case T::kArray: { std::string r = "["; for (auto& x : v.GetArray()) r += Show(x, depth + 1) + ","; return r + "]"; }
    case T::kObject: { std::string r = "{"; for (auto& [k, x] : v.GetObject()) r += Esc(k, 40) + ":" + Show(x, depth + 1) + ","; return r + "}"; }
  }
  return "?";
}
bool BitEq(double a, double b) { return memcmp(&a, &b, sizeof a) == 0; }

bool Same(const Value& v, const M& m) {
  if (v.type() != m.type) return false;
  if (v.IsNull() != (m.type == T::kNull) || v.IsBool() != (m.type == T::kBool) || v.IsNumber() != (m.type == T::kNumber) ||
      v.IsString() != (m.type == T::kString) || v.IsArray() != (m.type == T::kArray) || v.IsObject() != (m.type == T::kObject))
    return false;
  switch (m.type) {
    case T::kNull: return true;
    case T::kBool: return v.GetBool() == m.b;
    case T::kNumber: return BitEq(v.GetDouble(), m.d);
    case T::kString: return v.GetString() == m.s;
    case T::kArray: {
      auto& a = v.GetArray();
      if (a.size() != m.a.size()) return false;
      for (size_t i = 0; i < a.size(); i++) if (!Same(a[i], m.a[i])) return false;
      return true;
    }
    case T::kObject: {
      auto& o = v.GetObject();
      if (o.size() != m.o.size()) return false;
      auto i = m.o.begin();
      for (auto& [k, x] : o) {
        if (k != i->first || !Same(x, i->second)) return false;
        ++i;
      }
      return true;
    }
  }
  return false;
}

// ------------------------------------------------------------- generation
std::string GenStr(Rng& r, bool key) {
  static const std::vector<std::string> common = {"", "a", "b", "c", "aa", "ab", "key", "x"};
  if (r.Chance(3, 4)) return r.Pick(common);
  if (r.Chance(1, 4)) return r.Chance(1, 2) ? SpecialText(r) : WithSpecial(r, r.Pick(common));
  std::string s;
  const auto n = r.Chance(1, 10) ? r.Below(300) : r.Below(24);
  for (uint64_t i = 0; i < n; i++) s += static_cast<char>(r.Below(r.Chance(1, 2) ? 256 : 4));
  if (key && r.Chance(1, 3)) s += '.';
  return s;
}
constexpr int64_t kMax = (int64_t{1} << 53) - 1;
double GenNum(Rng& r) {
  switch (r.Below(16)) {
    case 0: return 0.0;
    case 1: return -0.0;
    case 2: return static_cast<double>(r.In(-5, 5));
    case 3: return static_cast<double>(kMax + r.In(-2, 4));
    case 4: return -static_cast<double>(kMax + r.In(-2, 4));
    case 5: return static_cast<double>(std::numeric_limits<int>::max()) + static_cast<double>(r.In(-2, 2)) * (r.Chance(1, 2) ? 0.5 : 1);
    case 6: return static_cast<double>(std::numeric_limits<int>::min()) + static_cast<double>(r.In(-2, 2)) * (r.Chance(1, 2) ? 0.5 : 1);
    case 7: return r.Unit();
    case 8: return (r.Chance(1, 2) ? 1 : -1) * std::ldexp(r.Unit() + 0.5, static_cast<int>(r.In(-1080, 1023)));
    case 9: return std::numeric_limits<double>::max() * (r.Chance(1, 2) ? 1 : -1);
    case 10: return std::numeric_limits<double>::denorm_min() * (r.Chance(1, 2) ? 1 : -1);
    case 11: return static_cast<double>(r.In(-kMax, kMax));
    case 12: return static_cast<double>(r.In(-3, 3)) + static_cast<double>(r.In(-4, 4)) * std::numeric_limits<double>::epsilon() / 2;
    case 13: return static_cast<double>(r.In(-4, 4)) + 0.5;
    case 14: return std::ldexp(1.0, static_cast<int>(r.In(30, 70))) * (r.Chance(1, 2) ? 1 : -1);
    default: return static_cast<double>(static_cast<int>(r.U64()));
  }
}
M GenM(Rng& r, int depth) {
  M m;
  const auto k = r.Below(depth > 0 ? 9 : 5);
  switch (k) {
    case 0: m.type = T::kNull; break;
    case 1: m.type = T::kBool; m.b = r.Chance(1, 2); break;
    case 2: case 3: m.type = T::kNumber; m.d = GenNum(r); break;
    case 4: m.type = T::kString; m.s = GenStr(r, false); break;
    case 5: case 6: {
      m.type = T::kArray;
      const auto n = r.Below(5);
      for (uint64_t i = 0; i < n; i++) m.a.push_back(GenM(r, depth - 1));
      break;
    }
    default: {
      m.type = T::kObject;
      const auto n = r.Below(5);
      for (uint64_t i = 0; i < n; i++) m.o[GenStr(r, true)] = GenM(r, depth - 1);
    }
  }
  return m;
}
// Large contents: many elements, long keys and strings, deep nesting.
M GenBig(Rng& r) {
  M m;
  switch (r.Below(5)) {
    case 0: {
      m.type = T::kArray;
      const auto n = r.Below(r.Chance(1, 3) ? 1200 : 80);
      for (uint64_t i = 0; i < n; i++) m.a.push_back(GenM(r, r.Chance(1, 8) ? 1 : 0));
      break;
    }
    case 1: {
      m.type = T::kObject;
      const auto n = r.Below(r.Chance(1, 3) ? 700 : 80);
      for (uint64_t i = 0; i < n; i++) m.o[r.Chance(1, 2) ? Fmt("k%llu", static_cast<unsigned long long>(r.Below(1000))) : GenStr(r, true)] = GenM(r, r.Chance(1, 8) ? 1 : 0);
      break;
    }
    case 2: {
      m.type = T::kString;
      m.s.assign(r.Below(70000), 'q');
      for (int k = 0; k < 20; k++) if (!m.s.empty()) m.s[r.Below(m.s.size())] = static_cast<char>(r.Below(256));
      break;
    }
    default: {
      m = GenM(r, 1);
      const auto n = r.Below(r.Chance(1, 3) ? 150 : 20);
      for (uint64_t i = 0; i < n; i++) {
        M up;
        if (r.Chance(1, 2)) { up.type = T::kArray; if (r.Chance(1, 4)) up.a.push_back(GenM(r, 0)); up.a.push_back(std::move(m)); }
        else { up.type = T::kObject; if (r.Chance(1, 4)) up.o["b"] = GenM(r, 0); up.o[r.Chance(7, 8) ? "a" : GenStr(r, true)] = std::move(m); }
        m = std::move(up);
      }
    }
  }
  return m;
}
// Builds the value in one of the public ways.
Value Build(const M& m, Rng& r) {
  switch (m.type) {
    case T::kNull: return r.Chance(1, 2) ? Value() : Value(T::kNull);
    case T::kBool: if (!m.b && r.Chance(1, 3)) return Value(T::kBool); return Value(m.b);
    case T::kNumber: {
      if (BitEq(m.d, 0.0) && r.Chance(1, 3)) return Value(T::kNumber);
      if (!BitEq(m.d, -0.0) && std::fabs(m.d) <= static_cast<double>(kMax) && m.d == std::floor(m.d)) {
        if (std::fabs(m.d) < 2147483648.0 && r.Chance(1, 2)) return Value(static_cast<int32_t>(m.d));
        if (r.Chance(1, 2)) return Value(static_cast<int64_t>(m.d));
      }
      return Value(m.d);
    }
    case T::kString:
      if (m.s.empty() && r.Chance(1, 3)) return Value(T::kString);
      if (m.s.find('\0') == std::string::npos && r.Chance(1, 3)) return Value(m.s.c_str());
      return Value(std::string(m.s));
    case T::kArray: {
      if (r.Chance(1, 2)) {
        Value v(T::kArray);
        for (auto& x : m.a) v.GetArray().push_back(Build(x, r));
        return v;
      }
      Value::Array a;
      for (auto& x : m.a) a.emplace_back(Build(x, r));
      return Value(std::move(a));
    }
    case T::kObject: {
      if (r.Chance(1, 2)) {
        Value v(T::kObject);
        for (auto& [k, x] : m.o) v.SetKey(std::string(k), Build(x, r));
        return v;
      }
      Value::Object o;
      for (auto& [k, x] : m.o) o.emplace(k, Build(x, r));
      return Value(std::move(o));
    }
  }
  return Value();
}

// ------------------------------------------------------------- classification
bool MIsInt64(double d) { return std::fabs(d) <= static_cast<double>(kMax) && std::trunc(d) == d; }
bool MIsInt(double d) { return d >= -2147483648.0 && d <= 2147483647.0 && std::trunc(d) == d; }

void CheckFinds(const Value& v, const M& m, const std::string& key, const std::string& log) {
  const auto it = m.o.find(key);
  const M* want = it == m.o.end() ? nullptr : &it->second;
  auto f = v.FindKey(key);
  VH_CHECK((f != nullptr) == (want != nullptr), "C10.find", "FindKey(%s) %s; %s", Esc(key).c_str(), want ? "misses" : "finds something", log.c_str());
  if (want) {
    VH_CHECK(Same(*f, *want), "C10.find", "FindKey(%s) yields %s instead of %s", Esc(key).c_str(), Show(*f).c_str(), Show(*want).c_str());
    VH_CHECK(f.get() == &v.GetObject().find(key)->second, "C10.find", "FindKey yields another element");
    VH_CHECK(const_cast<Value&>(v).FindKey(key).get() == f.get(), "C10.find", "FindKey overloads differ");
  }
  for (T t : {T::kNull, T::kBool, T::kNumber, T::kString, T::kArray, T::kObject}) {
    const bool w = want && want->type == t;
    auto g = v.FindKeyOfType(key, t);
    VH_CHECK((g != nullptr) == w, "C10.type", "FindKeyOfType(%s, %d) wrong; %s", Esc(key).c_str(), static_cast<int>(t), log.c_str());
    if (w) VH_CHECK(g.get() == f.get(), "C10.type", "another element");
    VH_CHECK(const_cast<Value&>(v).FindKeyOfType(key, t).get() == g.get(), "C10.type", "overloads differ");
  }
  const auto fb = v.FindBoolKey(key);
  VH_CHECK(fb.has_value() == (want && want->type == T::kBool) && (!fb || *fb == want->b), "C10.type", "FindBoolKey");
  const bool num = want && want->type == T::kNumber;
  const auto fd = v.FindDoubleKey(key);
  VH_CHECK(fd.has_value() == num && (!fd || BitEq(*fd, want->d)), "C10.type", "FindDoubleKey");
  const auto fi = v.FindIntKey(key);
  VH_CHECK(fi.has_value() == (num && MIsInt(want->d)) && (!fi || *fi == want->d), "C11.int", "FindIntKey of %.17g", num ? want->d : 0);
  const auto fl = v.FindInt64Key(key);
  VH_CHECK(fl.has_value() == (num && MIsInt64(want->d)) && (!fl || static_cast<double>(*fl) == want->d), "C11.int64", "FindInt64Key of %.17g", num ? want->d : 0);
  auto fs = v.FindStringKey(key);
  VH_CHECK((fs != nullptr) == (want && want->type == T::kString), "C10.type", "FindStringKey");
  if (fs != nullptr) VH_CHECK(*fs == want->s, "C10.type", "FindStringKey content");
  VH_CHECK((v.FindArrayKey(key) != nullptr) == (want && want->type == T::kArray), "C10.type", "FindArrayKey");
  VH_CHECK((v.FindObjectKey(key) != nullptr) == (want && want->type == T::kObject), "C10.type", "FindObjectKey");
}

const M* MFindPath(const M& m, const std::string& path) {
  const M* cur = &m;
  size_t from = 0;
  for (;;) {
    const size_t dot = path.find('.', from);
    const auto it = cur->o.find(path.substr(from, dot == std::string::npos ? dot : dot - from));
    if (it == cur->o.end()) return nullptr;
    if (dot == std::string::npos) return &it->second;
    if (it->second.type != T::kObject) return nullptr;
    cur = &it->second;
    from = dot + 1;
  }
}
void MSetPath(M& m, const std::string& path, M value) {
  M* cur = &m;
  size_t from = 0;
  for (;;) {
    const size_t dot = path.find('.', from);
    const std::string key = path.substr(from, dot == std::string::npos ? dot : dot - from);
    if (dot == std::string::npos) { cur->o[key] = std::move(value); return; }
    M& c = cur->o[key];
    if (c.type != T::kObject) { c = M(); c.type = T::kObject; }
    cur = &c;
    from = dot + 1;
  }
}

// Walks to a random node of both trees.
void Walk(Rng& r, Value*& v, M*& m, bool object_only) {
  Value* bv = nullptr;
  M* bm = nullptr;
  const int most = r.Chance(1, 12) ? 200 : 6;
  for (int d = 0; d < most; d++) {
    if (!object_only || m->type == T::kObject) { bv = v; bm = m; }
    if (r.Chance(1, most > 6 ? 50 : 3)) break;
    if (m->type == T::kArray && !m->a.empty()) {
      const size_t i = r.Below(m->a.size());
      v = &v->GetArray()[i];
      m = &m->a[i];
    } else if (m->type == T::kObject && !m->o.empty()) {
      const size_t i = r.Below(m->o.size());
      auto a = v->GetObject().begin();
      auto b = m->o.begin();
      std::advance(a, static_cast<long>(i));
      std::advance(b, static_cast<long>(i));
      v = &a->second;
      m = &b->second;
    } else break;
  }
  if (!object_only || m->type == T::kObject) { bv = v; bm = m; }
  v = bv;
  m = bm;
}
bool Within(const M* root, const M* x) {
  if (root == x) return true;
  for (auto& c : root->a) if (Within(&c, x)) return true;
  for (auto& [k, c] : root->o) if (Within(&c, x)) return true;
  return false;
}
std::string ExistingPath(Rng& r, const M& m) {
  std::string p;
  const M* cur = &m;
  const int most = r.Chance(1, 10) ? 100 : 4;
  for (int d = 0; d < most && cur->type == T::kObject && !cur->o.empty(); d++) {
    auto it = cur->o.begin();
    std::advance(it, static_cast<long>(r.Below(cur->o.size())));
    if (d) p += '.';
    p += it->first;
    cur = &it->second;
    if (r.Chance(1, most > 4 ? 40 : 3)) break;
  }
  return p;
}
std::string GenPath(Rng& r, const M& m) {
  std::string p = r.Chance(1, 2) ? ExistingPath(r, m) : "";
  const auto n = r.Below(r.Chance(1, 60) ? 60 : 4);
  for (uint64_t i = 0; i < n; i++) { if (i || !p.empty()) p += '.'; p += r.Chance(1, 12) ? GenStr(r, true) : std::string(1, static_cast<char>('a' + r.Below(3))); }
  return p;
}

struct Root { Value v; M m; };

void TreeCase(uint64_t index, Rng& r) {
  std::vector<std::unique_ptr<Root>> roots;
  std::string log;
  uint64_t h = 5;
  auto Log = [&](const std::string& s) { if (log.size() < 3000) log += s; h = HashStr(s, h); };
  for (int i = 0; i < 3; i++) {
    auto x = std::make_unique<Root>();
    x->m = r.Chance(1, 150) ? GenBig(r) : GenM(r, 3);
    if (i == 0 && x->m.type != T::kObject) { x->m = M(); x->m.type = T::kObject; x->m.o["a"] = GenM(r, 2); }
    x->v = Build(x->m, r);
    roots.push_back(std::move(x));
  }
  auto CheckAll = [&](const char* op) {
    for (size_t i = 0; i < roots.size(); i++)
      VH_CHECK(Same(roots[i]->v, roots[i]->m), "C10.tree", "after %s value %zu is %s instead of %s; %s", op, i, Show(roots[i]->v).c_str(),
               Show(roots[i]->m).c_str(), log.c_str());
  };
  CheckAll("build");
  // Gives a moved-from value a fresh content.
  auto Refill = [&](Value* v, M* m) { *m = GenM(r, 1); *v = Build(*m, r); };
  const auto ops = r.In(5, 40);
  for (int64_t o = 0; o < ops; o++) {
    Root& x = *roots[r.Below(roots.size())];
    Root& y = *roots[r.Below(roots.size())];
    switch (r.Below(16)) {
      case 0: case 1: {  // SetKey with a new value
        Value* v = &x.v; M* m = &x.m;
        Walk(r, v, m, true);
        if (!v) break;
        const std::string k = GenStr(r, true);
        M c = GenM(r, 2);
        Log(Fmt("SetKey(%s,%s) ", Esc(k, 20).c_str(), Show(c).substr(0, 60).c_str()));
        auto p = v->SetKey(std::string(k), Build(c, r));
        m->o[k] = c;
        VH_CHECK(p.get() == &v->GetObject().find(k)->second, "C10.set", "SetKey returns another element");
        CheckAll("SetKey");
        break;
      }
      case 2: case 3: {  // SetPath with a new value
        Value* v = &x.v; M* m = &x.m;
        Walk(r, v, m, true);
        if (!v) break;
        const std::string p = GenPath(r, *m);
        M c = GenM(r, 2);
        Log(Fmt("SetPath(%s,%s) ", Esc(p, 40).c_str(), Show(c).substr(0, 60).c_str()));
        auto q = v->SetPath(p, Build(c, r));
        MSetPath(*m, p, c);
        VH_CHECK(q.get() == v->FindPath(p).get() && Same(*q, c), "C10.path", "SetPath(%s) returns another element; %s", Esc(p).c_str(), log.c_str());
        CheckAll("SetPath");
        break;
      }
      case 4: {
        Value* v = &x.v; M* m = &x.m;
        Walk(r, v, m, true);
        if (!v) break;
        const std::string p = r.Chance(1, 2) ? ExistingPath(r, *m) : GenPath(r, *m);
        const M* want = MFindPath(*m, p);
        auto f = std::as_const(*v).FindPath(p);
        auto f2 = v->FindPath(p);
        VH_CHECK((f != nullptr) == (want != nullptr) && f.get() == f2.get(), "C10.path", "FindPath(%s) %s in %s", Esc(p).c_str(),
                 want ? "misses" : "finds something", Show(*m).c_str());
        if (want) VH_CHECK(Same(*f, *want), "C10.path", "FindPath(%s) yields %s", Esc(p).c_str(), Show(*f).c_str());
        Stat(want ? "paths_found" : "paths_missed");
        break;
      }
      case 5: {
        Value* v = &x.v; M* m = &x.m;
        Walk(r, v, m, true);
        if (!v) break;
        std::string k = GenStr(r, true);
        if (!m->o.empty() && r.Chance(1, 2)) { auto it = m->o.begin(); std::advance(it, static_cast<long>(r.Below(m->o.size()))); k = it->first; }
        CheckFinds(*v, *m, k, log);
        break;
      }
      case 6: {  // removal, also through a view of the stored key
        Value* v = &x.v; M* m = &x.m;
        Walk(r, v, m, true);
        if (!v) break;
        std::string k = GenStr(r, true);
        const bool alias = !m->o.empty() && r.Chance(1, 2);
        bool got;
        if (alias) {
          auto it = v->GetObject().begin();
          std::advance(it, static_cast<long>(r.Below(m->o.size())));
          k = it->first;
          Log(Fmt("Remove(%s) ", Esc(k, 20).c_str()));
          got = v->RemoveKey(it->first);
        } else {
          Log(Fmt("Remove(%s) ", Esc(k, 20).c_str()));
          got = v->RemoveKey(k);
        }
        const bool want = m->o.erase(k) != 0;
        VH_CHECK(got == want, "C10.remove", "RemoveKey(%s) returns %d; %s", Esc(k).c_str(), got, log.c_str());
        CheckAll("RemoveKey");
        break;
      }
      case 7: case 8: {  // deep copy
        Value* v = &y.v; M* m = &y.m;
        Walk(r, v, m, false);
        Log("Clone ");
        if (r.Chance(1, 4) && m->type == T::kArray) {
          auto a = Value::Clone(v->GetArray());
          M c = *m;
          if (&x == &y && Within(m, &x.m)) { x.v = Value(std::move(a)); x.m = c; }
          else { x.v = Value(std::move(a)); x.m = c; }
        } else if (r.Chance(1, 4) && m->type == T::kObject) {
          auto a = Value::Clone(v->GetObject());
          M c = *m;
          x.v = Value(std::move(a));
          x.m = c;
        } else {
          Value c = std::as_const(*v).Clone();
          M mc = *m;
          VH_CHECK(c == *v || std::isnan(0.0), "C10.clone", "a copy of %s is not equal", Show(*m).c_str());
          // Independent: writing to the copy leaves the source alone.
          if (mc.type == T::kObject && r.Chance(1, 2)) { c.SetKey("cl", Value(1)); mc.o["cl"] = M(); mc.o["cl"].type = T::kNumber; mc.o["cl"].d = 1; CheckAll("writing to a copy"); }
          x.v = std::move(c);
          x.m = mc;
        }
        CheckAll("Clone");
        break;
      }
      case 9: case 10: case 11: {  // move a node to another place
        Value* tv = &x.v; M* tm = &x.m;
        Walk(r, tv, tm, false);
        Value* sv = &y.v; M* sm = &y.m;
        // Often out of the very tree that is assigned to.
        if (r.Chance(1, 2)) { sv = tv; sm = tm; }
        Walk(r, sv, sm, false);
        if (sm == tm) {  // onto itself: the content is not specified
          Value& self = *sv;
          *tv = std::move(self);
          Log("SelfMove ");
          Refill(tv, tm);
          CheckAll("a self-move");
          break;
        }
        if (Within(sm, tm)) break;  // into its own child: not a meaningful request
        const bool inside = Within(tm, sm);
        Log(Fmt("Move%s ", inside ? "Out" : ""));
        Stat(inside ? "moves_out_of_own_tree" : "moves");
        M c = *sm;
        const auto way = r.Below(3);
        if (way == 0) *tv = std::move(*sv);
        else if (way == 1) { Value t(std::move(*sv)); *tv = std::move(t); }
        else { std::vector<Value> q; q.push_back(std::move(*sv)); q.emplace_back(1); q.insert(q.begin(), Value(T::kArray)); *tv = std::move(q[1]); }
        if (inside) *tm = c;
        else {
          *sm = M();
          *tm = c;
          Refill(sv, sm);
        }
        CheckAll("a move");
        break;
      }
      case 12: {  // SetKey/SetPath with a value and a path that belong to the tree
        Value* v = &x.v; M* m = &x.m;
        Walk(r, v, m, true);
        if (!v) break;
        Value* sv = v; M* sm = m;
        Walk(r, sv, sm, false);
        if (sm == m) break;
        M c = *sm;
        const std::string p = r.Chance(1, 2) ? ExistingPath(r, *m) : GenPath(r, *m);
        if (p.empty()) break;
        // Is the source replaced by the write?
        Log(Fmt("SetPathMove(%s,%s) ", Esc(p, 40).c_str(), Show(c).substr(0, 60).c_str()));
        // The model: take the value out, then write it.
        const bool use_key = r.Chance(1, 3);
        // A moved-from source that stays in the tree gets a new content first in both worlds:
        // set a marker in the model, and fill it in afterwards if it still exists.
        M old = *sm;
        (void)old;
        sm->type = T::kNull; sm->s.clear(); sm->a.clear(); sm->o.clear();
        const M* smark = sm;
        if (use_key) {
          const std::string k = p.substr(0, p.find('.'));
          auto q = v->SetKey(std::string(k), std::move(*sv));
          const bool gone = m->o.count(k) && Within(&m->o[k], smark);
          m->o[k] = c;
          VH_CHECK(Same(*q, c), "C10.move", "SetKey of a moved child yields %s instead of %s; %s", Show(*q).c_str(), Show(c).c_str(), log.c_str());
          if (!gone) Refill(sv, sm);
        } else {
          // Find out whether the source node survives: walk the path in the model.
          bool gone = false;
          {
            M* cur = m;
            size_t from = 0;
            for (;;) {
              const size_t dot = p.find('.', from);
              const std::string key = p.substr(from, dot == std::string::npos ? dot : dot - from);
              auto it = cur->o.find(key);
              if (it == cur->o.end()) break;
              if (dot == std::string::npos || it->second.type != T::kObject) {
                // The element is replaced.
                gone = Within(&it->second, smark);
                break;
              }
              cur = &it->second;
              from = dot + 1;
            }
            // An emptied source on the path is an object or not depending on its moved-from type; avoid.
            bool through = false;
            cur = m;
            from = 0;
            for (;;) {
              const size_t dot = p.find('.', from);
              if (dot == std::string::npos) break;
              auto it = cur->o.find(p.substr(from, dot - from));
              if (it == cur->o.end()) break;
              if (&it->second == smark) { through = true; break; }
              if (it->second.type != T::kObject) break;
              cur = &it->second;
              from = dot + 1;
            }
            if (through) { *sm = c; break; }
          }
          auto q = v->SetPath(p, std::move(*sv));
          MSetPath(*m, p, c);
          VH_CHECK(Same(*q, c), "C10.move", "SetPath of a moved child yields %s instead of %s; %s", Show(*q).c_str(), Show(c).c_str(), log.c_str());
          if (!gone) Refill(sv, sm);
        }
        Stat("sets_of_own_children");
        CheckAll("setting an own child");
        break;
      }
      case 13: {  // a path whose bytes belong to a string in the tree
        Value* v = &x.v; M* m = &x.m;
        Walk(r, v, m, true);
        if (!v) break;
        const std::string p = r.Chance(1, 2) ? ExistingPath(r, *m) : GenPath(r, *m);
        if (p.empty() || p.find('.') == std::string::npos) break;
        const std::string first = p.substr(0, p.find('.'));
        Log(Fmt("SetPathAlias(%s) ", Esc(p, 40).c_str()));
        M sm; sm.type = T::kString; sm.s = p;
        v->SetKey(std::string(first), Value(std::string(p)));
        m->o[first] = sm;
        M c = GenM(r, 1);
        const std::string_view view = v->FindKey(first).get()->GetString();
        auto q = v->SetPath(view, Build(c, r));
        MSetPath(*m, p, c);
        VH_CHECK(Same(*q, c), "C10.path", "SetPath with an aliased path");
        CheckAll("SetPath with an aliased path");
        break;
      }
      case 14: {  // direct changes through the accessors
        Value* v = &x.v; M* m = &x.m;
        Walk(r, v, m, false);
        if (m->type == T::kArray) {
          M c = GenM(r, 1);
          const size_t at = r.Below(m->a.size() + 1);
          if (r.Chance(1, 3) && !m->a.empty()) {
            v->GetArray().erase(v->GetArray().begin() + static_cast<long>(at % m->a.size()));
            m->a.erase(m->a.begin() + static_cast<long>(at % m->a.size()));
          } else {
            v->GetArray().insert(v->GetArray().begin() + static_cast<long>(at), Build(c, r));
            m->a.insert(m->a.begin() + static_cast<long>(at), c);
          }
        } else if (m->type == T::kString) {
          v->GetString() += "z";
          m->s += "z";
        }
        Log("edit ");
        CheckAll("an edit");
        break;
      }
      default: {  // comparison of nodes
        Value* v = &x.v; M* m = &x.m;
        Value* w = &y.v; M* n = &y.m;
        Walk(r, v, m, false);
        Walk(r, w, n, false);
        (void)n;
        (void)m;
        (void)(*v == *w);
      }
    }
  }
  Distinct(h);
  Stat("tree_ops", static_cast<uint64_t>(ops));
  if (index % 1000 == 1) Sample(log.substr(0, 500));
  for (auto& x : roots) Obs(Show(x->v));
}

// ------------------------------------------------------------- comparison
int TypeRank(T t) { return static_cast<int>(t) - static_cast<int>(T::kNull); }
bool MEq(const M& a, const M& b) {
  if (a.type != b.type) return false;
  switch (a.type) {
    case T::kNull: return true;
    case T::kBool: return a.b == b.b;
    case T::kNumber: return std::fabs(a.d - b.d) < std::numeric_limits<double>::epsilon();
    case T::kString: return a.s == b.s;
    case T::kArray:
      if (a.a.size() != b.a.size()) return false;
      for (size_t i = 0; i < a.a.size(); i++) if (!MEq(a.a[i], b.a[i])) return false;
      return true;
    case T::kObject: {
      if (a.o.size() != b.o.size()) return false;
      auto j = b.o.begin();
      for (auto& [k, x] : a.o) { if (k != j->first || !MEq(x, j->second)) return false; ++j; }
      return true;
    }
  }
  return false;
}
// -1, 0, 1 by exact content.
int MCmp(const M& a, const M& b) {
  if (a.type != b.type) return TypeRank(a.type) < TypeRank(b.type) ? -1 : 1;
  auto three = [](auto& x, auto& y) { return x < y ? -1 : y < x ? 1 : 0; };
  switch (a.type) {
    case T::kNull: return 0;
    case T::kBool: return three(a.b, b.b);
    case T::kNumber: return three(a.d, b.d);
    case T::kString: {
      const size_t n = std::min(a.s.size(), b.s.size());
      const int c = memcmp(a.s.data(), b.s.data(), n);
      if (c) return c < 0 ? -1 : 1;
      const size_t x = a.s.size(), y = b.s.size();
      return three(x, y);
    }
    case T::kArray: {
      for (size_t i = 0; i < a.a.size() && i < b.a.size(); i++) if (const int c = MCmp(a.a[i], b.a[i])) return c;
      const size_t x = a.a.size(), y = b.a.size();
      return three(x, y);
    }
    case T::kObject: {
      auto i = a.o.begin();
      auto j = b.o.begin();
      for (; i != a.o.end() && j != b.o.end(); ++i, ++j) {
        M ka, kb;
        ka.type = kb.type = T::kString;
        ka.s = i->first;
        kb.s = j->first;
        if (const int c = MCmp(ka, kb)) return c;
        if (const int c = MCmp(i->second, j->second)) return c;
      }
      return i != a.o.end() ? 1 : j != b.o.end() ? -1 : 0;
    }
  }
  return 0;
}
M Mutate(const M& m, Rng& r, int depth) {
  if (depth == 3 && r.Chance(1, 2)) depth = 200;  // sometimes far down
  M c = m;
  if (depth > 0 && c.type == T::kArray && !c.a.empty() && r.Chance(3, 4)) {
    const size_t i = r.Below(c.a.size());
    if (r.Chance(1, 5)) c.a.pop_back();
    else if (r.Chance(1, 5)) c.a.push_back(GenM(r, 0));
    else c.a[i] = Mutate(c.a[i], r, depth - 1);
    return c;
  }
  if (depth > 0 && c.type == T::kObject && !c.o.empty() && r.Chance(3, 4)) {
    auto it = c.o.begin();
    std::advance(it, static_cast<long>(r.Below(c.o.size())));
    if (r.Chance(1, 5)) c.o.erase(it);
    else if (r.Chance(1, 5)) { M x = it->second; c.o.erase(it); c.o[GenStr(r, true)] = x; }
    else it->second = Mutate(it->second, r, depth - 1);
    return c;
  }
  if (c.type == T::kNumber && r.Chance(3, 4)) {
    switch (r.Below(4)) {
      case 0: c.d = std::nextafter(c.d, r.Chance(1, 2) ? 1e308 : -1e308); break;
      case 1: c.d += static_cast<double>(r.In(-3, 3)) * std::numeric_limits<double>::epsilon() / 2; break;
      case 2: c.d = -c.d; break;
      default: c.d += 1;
    }
    if (!std::isfinite(c.d)) c.d = 0;
    return c;
  }
  if (c.type == T::kString && !c.s.empty() && r.Chance(3, 4)) {
    const size_t i = r.Below(c.s.size());
    if (r.Chance(1, 3)) c.s.resize(i);
    else c.s[i] = static_cast<char>(c.s[i] + (r.Chance(1, 2) ? 1 : -128));
    return c;
  }
  return GenM(r, depth > 0 ? 1 : 0);
}

// Runs f and demands that a debug build rejects it.  Leaks of the aborted call
// are no leaks of the library.

void OrderCase(uint64_t index, Rng& r) {
  std::vector<M> ms;
  ms.push_back(r.Chance(1, 100) ? GenBig(r) : GenM(r, 2));
  while (ms.size() < 6) {
    if (r.Chance(1, 2)) ms.push_back(Mutate(ms[r.Below(ms.size())], r, 3));
    else if (r.Chance(1, 3)) ms.push_back(ms[r.Below(ms.size())]);
    else ms.push_back(GenM(r, 2));
  }
  std::vector<Value> vs;
  uint64_t h = 9;
  for (auto& m : ms) { vs.push_back(Build(m, r)); h = HashStr(Show(m), h); }
  std::string obs;
  for (size_t i = 0; i < vs.size(); i++)
    for (size_t j = 0; j < vs.size(); j++) {
      const Value &a = vs[i], &b = vs[j];
      const int c = MCmp(ms[i], ms[j]);
      const bool e = MEq(ms[i], ms[j]);
      const bool lt = a < b, gt = a > b, le = a <= b, ge = a >= b, eq = a == b, ne = a != b;
      obs += Fmt("%d%d%d%d%d%d ", lt, gt, le, ge, eq, ne);
      VH_CHECK(lt == (c < 0) && gt == (c > 0) && le == (c <= 0) && ge == (c >= 0), "C11.order",
               "%s and %s: < %d > %d <= %d >= %d, expected order %d", Show(ms[i]).c_str(), Show(ms[j]).c_str(), lt, gt, le, ge, c);
      VH_CHECK(eq == e && ne == !e, "C11.equal", "%s and %s: == %d != %d", Show(ms[i]).c_str(), Show(ms[j]).c_str(), eq, ne);
      Stat(c == 0 ? "pairs_equal" : "pairs_ordered");
      if (e && c) Stat("pairs_equal_within_epsilon");
    }
  Distinct(h);
  Obs(obs);
  if (index % 1000 == 2) Sample(Show(ms[0]) + " vs " + Show(ms[1]));
}

// Contents around the sizes at which a narrow counter wraps.  `order` says
// whether they are compared (C11) or cloned, moved and looked up (C10).
void HugeCase(Rng& r, bool order) {
  static const size_t kEdges[] = {255, 256, 257, 32767, 32768, 65535, 65536, 65537, 65792, 70001, 131072, 131077};
  const size_t n = kEdges[r.Below(12)];
  M m;
  switch (r.Below(4)) {
    case 0:
      m.type = T::kArray;
      for (size_t i = 0; i < n; i++) { M x; x.type = T::kNumber; x.d = static_cast<double>(i * 7 % 1000); m.a.push_back(x); }
      break;
    case 1:
      m.type = T::kObject;
      for (size_t i = 0; i < n; i++) { M x; x.type = T::kNumber; x.d = static_cast<double>(i); m.o[Fmt("k%06zu", i)] = x; }
      break;
    case 2:
      m.type = T::kString;
      for (size_t i = 0; i < n; i++) m.s += static_cast<char>('a' + i % 23);
      break;
    default: {
      m.type = T::kObject;
      std::string k;
      for (size_t i = 0; i < n; i++) k += static_cast<char>('a' + i % 23);
      M x; x.type = T::kNumber; x.d = 1; m.o[k + "x"] = x;
      x.d = 2; m.o[k + "y"] = x;
      x.d = 3; m.o[k] = x;
    }
  }
  if (!order && r.Chance(1, 2)) {
    // A path of very many segments.
    static const size_t kDepths[] = {30, 63, 64, 65, 100, 127, 128, 129, 200, 254, 255, 256, 257, 300, 511, 512, 513, 1000};
    const size_t depth = kDepths[r.Below(18)];
    std::string path = "k0";
    const bool same = r.Chance(1, 3);
    for (size_t i = 1; i < depth; i++) path += same ? ".k0" : Fmt(".k%zu", i % 7);
    Value root(T::kObject);
    Value* p = root.SetPath(path, Value(41)).get();
    VH_CHECK(p != nullptr && p->IsInt() && p->GetInt() == 41, "C10.tree", "SetPath of %zu segments gives another value", depth);
    p = root.SetPath(path, Value(42)).get();
    VH_CHECK(p != nullptr && p->IsInt() && p->GetInt() == 42, "C10.tree", "SetPath of %zu segments gives another value", depth);
    const Value* at = &root;
    for (size_t from = 0; from < path.size();) {
      const size_t dot = std::min(path.find('.', from), path.size());
      VH_CHECK(at->IsObject() && at->GetObject().size() == 1, "C10.tree", "SetPath of %zu segments built another tree", depth);
      at = at->FindKey(path.substr(from, dot - from)).get();
      VH_CHECK(at != nullptr, "C10.tree", "SetPath of %zu segments built another tree", depth);
      from = dot + 1;
      if (dot < path.size() && (from % 50 == 0 || path.size() - from < 20)) {
        const auto f = std::as_const(root).FindPath(path.substr(0, dot));
        VH_CHECK(f == at, "C10.tree", "FindPath of a part of %zu segments gives another value", depth);
      }
    }
    VH_CHECK(at == p && at->GetInt() == 42, "C10.tree", "SetPath of %zu segments put the value elsewhere", depth);
    VH_CHECK(std::as_const(root).FindPath(path) == p && root.FindPath(path) == p, "C10.tree", "FindPath of %zu segments gives another value", depth);
    VH_CHECK(root.FindPath(path + ".k") == nullptr && root.FindPath(path + "x") == nullptr, "C10.tree", "FindPath of %zu segments finds what is not there", depth);
    const Value copy = root.Clone();
    const auto found = copy.FindPath(path);
    VH_CHECK(found != nullptr && found->GetInt() == 42 && copy == root, "C10.tree", "the clone of an object %zu deep differs", depth);
    Stat("long_paths");
    return;
  }
  Stat("huge_values");
  Value v = Build(m, r);
  if (!order) {
    VH_CHECK(Same(v, m), "C10.tree", "a value with %zu elements or bytes differs from what was put in", n);
    Value c = v.Clone();
    VH_CHECK(Same(c, m) && Same(v, m), "C10.tree", "the clone of a value with %zu elements or bytes differs", n);
    Value d = std::move(c);
    VH_CHECK(Same(d, m), "C10.tree", "a moved value with %zu elements or bytes differs", n);
    c = Value(1);
    c = std::move(d);
    VH_CHECK(Same(c, m), "C10.tree", "a value with %zu elements or bytes differs after an assignment", n);
    if (m.type == T::kObject) {
      for (int i = 0; i < 300; i++) {
        auto it = m.o.begin();
        std::advance(it, static_cast<long>(i == 0 ? m.o.size() - 1 : r.Below(m.o.size())));
        auto f = std::as_const(c).FindKey(it->first);
        VH_CHECK(f != nullptr && Same(*f, it->second), "C10.tree", "FindKey of the key of %zu bytes of %zu keys gives another value", it->first.size(), m.o.size());
        auto g = std::as_const(c).FindPath(it->first);
        VH_CHECK(g != nullptr && g == f, "C10.tree", "FindPath of a path of %zu bytes differs from FindKey", it->first.size());
        if (m.o.size() < 10 && i > 5) break;
      }
      auto it = m.o.begin();
      std::advance(it, static_cast<long>(r.Below(m.o.size())));
      VH_CHECK(c.RemoveKey(it->first), "C10.tree", "RemoveKey of one of %zu keys found nothing", m.o.size());
      const std::string p = it->first + ".q";
      m.o.erase(it);
      VH_CHECK(Same(c, m), "C10.tree", "RemoveKey of one of %zu keys removed something else", m.o.size() + 1);
      c.SetPath(p, Value(5));
      M in; in.type = T::kNumber; in.d = 5;
      M out; out.type = T::kObject; out.o["q"] = in;
      m.o[p.substr(0, p.size() - 2)] = out;
      VH_CHECK(Same(c, m), "C10.tree", "SetPath of a path of %zu bytes among %zu keys set something else", p.size(), m.o.size());
      auto q = std::as_const(c).FindPath(p);
      VH_CHECK(q != nullptr && Same(*q, in), "C10.tree", "FindPath of a path of %zu bytes gives another value", p.size());
    }
  } else {
    std::vector<M> ms{m, m};
    M x = m;
    switch (m.type) {
      case T::kArray:
        x.a.back().d += 1; ms.push_back(x);
        x = m; x.a[r.Below(n)].d -= 1; ms.push_back(x);
        x = m; x.a.pop_back(); ms.push_back(x);
        x = m; x.a.resize(n % 256); ms.push_back(x);
        x = m; x.a.resize(n % 65536); ms.push_back(x);
        break;
      case T::kString:
        x.s.back()++; ms.push_back(x);
        x = m; x.s[r.Below(n)] = '\xff'; ms.push_back(x);
        x = m; x.s.pop_back(); ms.push_back(x);
        x = m; x.s.resize(n % 256); ms.push_back(x);
        x = m; x.s.resize(n % 65536); ms.push_back(x);
        break;
      default: {
        x.o.rbegin()->second.d += 1; ms.push_back(x);
        x = m; x.o.erase(std::prev(x.o.end())); ms.push_back(x);
        x = m; { M q = x.o.rbegin()->second; std::string k = x.o.rbegin()->first; x.o.erase(k); k.back()++; x.o[k] = q; } ms.push_back(x);
        x = m; x.o.erase(x.o.begin()); ms.push_back(x);
      }
    }
    std::vector<Value> vs;
    for (auto& y : ms) vs.push_back(Build(y, r));
    for (size_t i = 0; i < 2; i++)
      for (size_t j = 0; j < vs.size(); j++) {
        const Value &a = vs[i], &b = vs[j];
        const int k = MCmp(ms[i], ms[j]);
        const bool e = MEq(ms[i], ms[j]);
        VH_CHECK((a < b) == (k < 0) && (a > b) == (k > 0) && (a <= b) == (k <= 0) && (a >= b) == (k >= 0) && (b < a) == (k > 0) && (b > a) == (k < 0),
                 "C11.order", "values with %zu elements or bytes (type %d, variant %zu) are ordered wrongly", n, static_cast<int>(m.type), j);
        VH_CHECK((a == b) == e && (a != b) == !e && (b == a) == e, "C11.equal", "values with %zu elements or bytes (type %d, variant %zu) compare wrongly", n,
                 static_cast<int>(m.type), j);
      }
  }
}

void NumCase(uint64_t index, Rng& r) {
  const double d = GenNum(r);
  Value v(d);
  VH_CHECK(v.IsNumber() && BitEq(v.GetDouble(), d), "C11.double", "%.17g", d);
  VH_CHECK(v.IsInt64() == MIsInt64(d), "C11.int64", "IsInt64(%.17g) is %d", d, v.IsInt64());
  VH_CHECK(v.IsInt() == MIsInt(d), "C11.int", "IsInt(%.17g) is %d", d, v.IsInt());
  if (v.IsInt64()) VH_CHECK(static_cast<double>(v.GetInt64()) == d, "C11.int64", "GetInt64 of %.17g is %lld", d, static_cast<long long>(v.GetInt64()));
  if (v.IsInt()) VH_CHECK(static_cast<double>(v.GetInt()) == d, "C11.int", "GetInt of %.17g is %d", d, v.GetInt());
  // Integers.
  int64_t i;
  switch (r.Below(6)) {
    case 0: i = r.In(-10, 10); break;
    case 1: i = kMax + r.In(-3, 3); break;
    case 2: i = -kMax + r.In(-3, 3); break;
    case 3: i = static_cast<int64_t>(r.U64()); break;
    case 4: i = r.Chance(1, 2) ? std::numeric_limits<int64_t>::max() - r.In(0, 2000) : std::numeric_limits<int64_t>::min() + r.In(0, 2000); break;
    default: i = r.In(-kMax, kMax);
  }
  const bool ok = i >= -kMax && i <= kMax;
  Stat(ok ? "safe_integers" : "unsafe_integers");
  if (ok) {
    Value w(i);
    VH_CHECK(w.IsInt64() && w.GetInt64() == i, "C11.int64", "Value(%lld) reads back %.17g", static_cast<long long>(i), w.GetDouble());
  } else if (Violating()) {
    VH_CHECK(Rejects([&] { Value w(i); }), "C11.reject", "Value(%lld) is accepted", static_cast<long long>(i));
  }
  const int32_t n = r.Chance(1, 3) ? (r.Chance(1, 2) ? INT32_MAX - static_cast<int>(r.Below(2)) : INT32_MIN + static_cast<int>(r.Below(2))) : static_cast<int32_t>(r.U64());
  Value x(n);
  VH_CHECK(x.IsInt() && x.GetInt() == n && x.IsInt64() && x.GetInt64() == n, "C11.int", "Value(%d) reads back %.17g", n, x.GetDouble());
  if (r.Chance(1, 4) && Violating()) {
    static const double bad[] = {std::numeric_limits<double>::infinity(), -std::numeric_limits<double>::infinity(),
                                 std::numeric_limits<double>::quiet_NaN(), -std::numeric_limits<double>::quiet_NaN()};
    const double b = bad[r.Below(4)];
    VH_CHECK(Rejects([&] { Value w(b); }), "C11.reject", "Value(%g) is accepted", b);
    Stat("non_finite");
    // Reads that do not match.
    if (!MIsInt(d)) VH_CHECK(Rejects([&] { (void)v.GetInt(); }), "C11.reject", "GetInt of %.17g is accepted", d);
    if (!MIsInt64(d)) VH_CHECK(Rejects([&] { (void)v.GetInt64(); }), "C11.reject", "GetInt64 of %.17g is accepted", d);
  }
  Distinct(HashBytes(&d, 8, static_cast<uint64_t>(i)));
  if (index % 3000 == 0) Sample(Fmt("%.17g int %d int64 %d; integer %lld", d, v.IsInt(), v.IsInt64(), static_cast<long long>(i)));
  Obs(Fmt("%d%d", v.IsInt(), v.IsInt64()));
}

// The typed accessors reject every other type in debug builds.
void RejectCase(Rng& r) {
  if (!Violating()) return;
  const M m = GenM(r, 1);
  Value v = Build(m, r);
  auto rej = [&](bool want, const char* what, auto f) {
    VH_CHECK(Rejects(f) == want, "C10.reject", "%s on %s", what, Show(m).c_str());
  };
  rej(m.type != T::kBool, "GetBool", [&] { (void)v.GetBool(); });
  rej(m.type != T::kNumber, "GetDouble", [&] { (void)v.GetDouble(); });
  rej(m.type != T::kString, "GetString", [&] { (void)std::as_const(v).GetString(); });
  rej(m.type != T::kArray, "GetArray", [&] { (void)std::as_const(v).GetArray(); });
  rej(m.type != T::kObject, "GetObject", [&] { (void)std::as_const(v).GetObject(); });
  rej(m.type != T::kObject, "FindKey", [&] { (void)std::as_const(v).FindKey("a").get(); });
  rej(m.type != T::kObject, "FindPath", [&] { (void)std::as_const(v).FindPath("a").get(); });
  rej(m.type != T::kObject, "SetKey", [&] { v.SetKey("a", Value(1)); });
  rej(m.type != T::kObject, "RemoveKey", [&] { v.RemoveKey("a"); });
  rej(m.type != T::kObject, "SetPath", [&] { v.SetPath("a", Value(1)); });
  Stat("reject_cases");
}

}  // namespace

int main(int argc, char** argv) {
  Init(argc, argv);
  if (opt.mode == "c11")
    ForCases([](uint64_t i, Rng& r) {
      if (i % 2500 == 11) HugeCase(r, true);
      if (i % 4 == 0) OrderCase(i, r);
      else NumCase(i, r);
    }, 111);
  else
    ForCases([](uint64_t i, Rng& r) {
      if (i % 800 == 11) HugeCase(r, false);
      TreeCase(i, r);
      if (i % 10 == 0) RejectCase(r);
    }, 110);
  Flush();
}
