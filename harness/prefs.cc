// Preferences against a map from path to value (C12).
#define VH_DEFINE_ASSERT 1
#include "vh.h"

#include <cmath>
#include <functional>
#include <map>
#include <memory>
#include <string>
#include <utility>
#include <vector>

#include "rst/preferences/memory_preferences_store.h"
#include "rst/preferences/preferences.h"
#include "rst/preferences/preferences_store.h"
#include "rst/value/value.h"

using namespace vh;
using rst::MemoryPreferencesStore;
using rst::NotNull;
using rst::Nullable;
using rst::Preferences;
using rst::PreferencesStore;
using rst::Value;

namespace {

enum Kind { kBool, kInt, kDouble, kString, kArray, kObject, kKinds };
const char* const kNames[] = {"bool", "int", "double", "string", "array", "object"};

struct M {  // content of one preference
  Kind kind = kBool;
  bool b = false;
  int i = 0;
  double d = 0;
  std::string s;  // string, or the text of an array or object
};

// A content tree and its text, so that deep contents can be compared.
Value GenTree(Rng& r, int depth) {
  switch (r.Below(depth > 0 ? 7 : 4)) {
    case 0: return Value();
    case 1: return Value(r.Chance(1, 2));
    case 2: return Value(static_cast<int>(r.U64()));
    case 3: return Value(std::string(r.Below(r.Chance(1, 8) ? 60 : 5), static_cast<char>('a' + r.Below(26))));
    case 4: {
      Value v(Value::Type::kArray);
      for (uint64_t n = r.Below(4); n > 0; n--) v.GetArray().push_back(GenTree(r, depth - 1));
      return v;
    }
    default: {
      Value v(Value::Type::kObject);
      for (uint64_t n = r.Below(4); n > 0; n--)
        v.SetKey(std::string(1, static_cast<char>('a' + r.Below(4))), GenTree(r, depth - 1));
      return v;
    }
  }
}
std::string Text(const Value& v) {
  switch (v.type()) {
    case Value::Type::kNull: return "n";
    case Value::Type::kBool: return v.GetBool() ? "t" : "f";
    case Value::Type::kNumber: return Fmt("%.17g", v.GetDouble());
    case Value::Type::kString: return "'" + v.GetString() + "'";
    case Value::Type::kArray: { std::string s = "["; for (auto& x : v.GetArray()) s += Text(x) + ","; return s + "]"; }
    case Value::Type::kObject: { std::string s = "{"; for (auto& [k, x] : v.GetObject()) s += k + ":" + Text(x) + ","; return s + "}"; }
  }
  return "?";
}
std::string Text(const Value::Array& a) { std::string s = "["; for (auto& x : a) s += Text(x) + ","; return s + "]"; }
std::string Text(const Value::Object& o) { std::string s = "{"; for (auto& [k, x] : o) s += k + ":" + Text(x) + ","; return s + "}"; }

// A store of the harness: every call is checked against what was written.
int g_stores = 0;
class MapStore final : public PreferencesStore {
 public:
  using Data = std::map<std::string, std::unique_ptr<Value>>;
  explicit MapStore(std::shared_ptr<Data> data) : m_(*data), data_(std::move(data)) { g_stores++; }
  ~MapStore() override { g_stores--; }
  Nullable<const Value*> GetValue(std::string_view path) const override {
    auto it = m_.find(std::string(path));
    return it == m_.end() ? nullptr : it->second.get();
  }
  void SetValue(std::string_view path, Value&& value) override {
    writes++;
    m_[std::string(path)] = std::make_unique<Value>(std::move(value));
  }
  int writes = 0;

 private:
  Data& m_;
  std::shared_ptr<Data> data_;
};

// A view of an exactly sized heap block: reads past the end are seen.
class Tight {
 public:
  explicit Tight(const std::string& s) : p_(new char[s.size()]), n_(s.size()) { memcpy(p_.get(), s.data(), n_); }
  operator std::string_view() const { return std::string_view(p_.get(), n_); }

 private:
  std::unique_ptr<char[]> p_;
  size_t n_;
};

double GenDouble(Rng& r) {
  switch (r.Below(5)) {
    case 0: return static_cast<double>(r.In(-3, 3));
    case 1: return r.Unit() - 0.5;
    case 2: return std::ldexp(r.Unit() + 0.5, static_cast<int>(r.In(-1000, 1000)));
    case 3: return -0.0;
    default: return static_cast<double>(static_cast<int64_t>(r.U64() >> 11));
  }
}
int GenInt(Rng& r) {
  switch (r.Below(4)) {
    case 0: return 0;
    case 1: return r.Chance(1, 2) ? INT32_MAX : INT32_MIN;
    case 2: return static_cast<int>(r.In(-3, 3));
    default: return static_cast<int>(r.U64());
  }
}
std::string GenStr(Rng& r) {
  std::string s;
  for (uint64_t n = r.Chance(1, 10) ? r.Below(r.Chance(1, 12) ? 6000 : 200) : r.Below(20); n > 0; n--) s += static_cast<char>(r.Below(256));
  return r.Chance(1, 10) ? WithSpecial(r, s) : s;
}

// One registered preference: a segment list, no one a prefix of another.
std::vector<std::string> GenPaths(Rng& r) {
  static const char* const segs[] = {"a", "b", "c", "aa", "ab", "", "a b", "long segment with a name", "\x80", "A"};
  std::vector<std::string> out;
  const bool many = r.Chance(1, 25);
  // Paths longer than a name of a file, that differ at their ends only.
  const bool lengthy = r.Chance(1, 30);
  const size_t len = lengthy ? (r.Chance(1, 12) ? 65530 + r.Below(12) : 120 + r.Below(300)) : 0;
  const auto n = 1 + r.Below(many ? 80 : 10);
  for (int tries = 0; tries < (many ? 300 : 60) && out.size() < n; tries++) {
    std::string p;
    const auto d = 1 + r.Below(many ? 14 : 4);
    for (uint64_t i = 0; i < d; i++) {
      if (i) p += '.';
      if (many && r.Chance(1, 6)) p += Fmt("k%llu", static_cast<unsigned long long>(r.Below(200)));
      else if (lengthy && r.Chance(2, 3)) p += std::string(len, 'p') + segs[r.Below(5)];
      else p += segs[r.Below(r.Chance(2, 3) ? 4 : 10)];
    }
    if (r.Chance(1, 20)) p += std::string("\0z", 2);
    bool ok = true;
    for (auto& q : out)
      if (p == q || (p + ".").compare(0, q.size() + 1, q + ".") == 0 || (q + ".").compare(0, p.size() + 1, p + ".") == 0) ok = false;
    if (ok) out.push_back(p);
  }
  return out;
}

struct World {
  std::unique_ptr<Preferences> prefs;
  std::map<std::string, M> def;
  std::map<std::string, M> cur;  // what reads must yield
  std::vector<std::string> free; // paths still unregistered
  bool memory = false;
  std::shared_ptr<MapStore::Data> data;  // survives the preferences
  std::map<std::string, M> written;      // what the store has
};

void Register(World& w, const std::string& path, Rng& r, std::string& log) {
  M m;
  const auto was = w.written.find(path);
  m.kind = was != w.written.end() ? was->second.kind : static_cast<Kind>(r.Below(kKinds));
  std::string p = path;
  switch (m.kind) {
    case kBool: m.b = r.Chance(1, 2); w.prefs->RegisterBoolPreference(std::move(p), m.b); break;
    case kInt: m.i = GenInt(r); w.prefs->RegisterIntPreference(std::move(p), m.i); break;
    case kDouble: m.d = GenDouble(r); w.prefs->RegisterDoublePreference(std::move(p), m.d); break;
    case kString: m.s = GenStr(r); w.prefs->RegisterStringPreference(std::move(p), std::string(m.s)); break;
    case kArray: {
      Value::Array a;
      for (uint64_t n = r.Below(r.Chance(1, 40) ? 120 : 4); n > 0; n--) a.push_back(GenTree(r, 2));
      m.s = Text(a);
      w.prefs->RegisterArrayPreference(std::move(p), std::move(a));
      break;
    }
    default: {
      Value::Object o;
      for (uint64_t n = r.Below(4); n > 0; n--) o.insert_or_assign(std::string(1, static_cast<char>('a' + r.Below(4))), GenTree(r, 2));
      m.s = Text(o);
      w.prefs->RegisterObjectPreference(std::move(p), std::move(o));
    }
  }
  log += Fmt("reg %s %s ", Esc(path, 30).c_str(), kNames[m.kind]);
  w.def[path] = m;
  w.cur[path] = was != w.written.end() ? was->second : m;
}

void Write(World& w, const std::string& path, Rng& r, std::string& log) {
  M& m = w.cur[path];
  Tight t(path);
  switch (m.kind) {
    case kBool: m.b = r.Chance(1, 2); w.prefs->SetBool(t, m.b); break;
    case kInt: m.i = GenInt(r); w.prefs->SetInt(t, m.i); break;
    case kDouble: m.d = GenDouble(r); w.prefs->SetDouble(t, m.d); break;
    case kString: m.s = r.Chance(1, 6) ? "" : GenStr(r); w.prefs->SetString(t, std::string(m.s)); break;
    case kArray: {
      Value::Array a;
      for (uint64_t n = r.Below(r.Chance(1, 40) ? 120 : 4); n > 0; n--) a.push_back(GenTree(r, 2));
      m.s = Text(a);
      w.prefs->SetArray(t, std::move(a));
      break;
    }
    default: {
      Value::Object o;
      for (uint64_t n = r.Below(4); n > 0; n--) o.insert_or_assign(std::string(1, static_cast<char>('a' + r.Below(4))), GenTree(r, 2));
      m.s = Text(o);
      w.prefs->SetObject(t, std::move(o));
    }
  }
  log += Fmt("set %s ", Esc(path, 30).c_str());
  w.written[path] = m;
  Stat("writes");
}

void ReadOne(const World& w, const std::string& path, const M& m, const std::string& log) {
  Tight t(path);
  const Preferences& p = *w.prefs;
  std::string got, want;
  switch (m.kind) {
    case kBool: got = p.GetBool(t) ? "true" : "false"; want = m.b ? "true" : "false"; break;
    case kInt: got = std::to_string(p.GetInt(t)); want = std::to_string(m.i); break;
    case kDouble: got = Fmt("%.17g", p.GetDouble(t)); want = Fmt("%.17g", m.d); break;
    case kString: got = p.GetString(t); want = m.s; break;
    case kArray: got = Text(p.GetArray(t)); want = m.s; break;
    default: got = Text(p.GetObject(t)); want = m.s; break;
  }
  VH_CHECK(got == want, "C12.read", "%s preference %s reads %s instead of %s after %s", kNames[m.kind], Esc(path).c_str(),
           Esc(got).c_str(), Esc(want).c_str(), log.c_str());
  Stat("reads");
}

void ReadAll(const World& w, const std::string& log) {
  // Everything that is read by reference, looked at after the last read.
  if (HashStr(log) % 4 == 0) {
    std::vector<std::function<std::string()>> texts;
    std::vector<const M*> ms;
    std::vector<const std::string*> paths;
    const Preferences& p = *w.prefs;
    for (auto& [path, m] : w.cur) {
      if (m.kind == kString) texts.push_back([&s = p.GetString(path)] { return s; });
      else if (m.kind == kArray) texts.push_back([&a = p.GetArray(path)] { return Text(a); });
      else if (m.kind == kObject) texts.push_back([&o = p.GetObject(path)] { return Text(o); });
      else continue;
      ms.push_back(&m);
      paths.push_back(&path);
    }
    for (size_t i = 0; i < ms.size(); i++) {
      const std::string got = texts[i]();
      VH_CHECK(got == ms[i]->s, "C12.read", "%s preference %s is %s instead of %s once the others are read, after %s", kNames[ms[i]->kind], Esc(*paths[i]).c_str(),
               Esc(got).c_str(), Esc(ms[i]->s).c_str(), log.c_str());
    }
    Stat("kept_references", ms.size());
  }
  for (auto& [path, m] : w.cur) ReadOne(w, path, m, log);
}

// Everything a debug build must reject, each on a fresh instance.
void Rejections(const World& w, Rng& r, const std::string& log) {
  if (!Violating() || w.def.empty()) return;
  auto it = w.def.begin();
  std::advance(it, static_cast<long>(r.Below(w.def.size())));
  const std::string path = it->first;
  const M& m = it->second;
  Preferences& p = *w.prefs;
  auto must = [&](const char* what, auto f) {
    VH_CHECK(Rejects(f), "C12.reject", "%s of %s preference %s is accepted after %s", what, kNames[m.kind], Esc(path).c_str(), log.c_str());
    Stat("rejections");
  };
  // Not registered: a fresh path, a prefix and an extension of a registered one.
  std::vector<std::string> wrong = {"zz", path + "x", path + ".x", "x." + path, ""};
  if (path.find('.') != std::string::npos) wrong.push_back(path.substr(0, path.rfind('.')));
  if (!path.empty()) wrong.push_back(path.substr(0, path.size() - 1));
  const std::string bad = r.Pick(wrong);
  if (!w.def.count(bad)) {
    const auto k = r.Below(kKinds);
    if (r.Chance(1, 2)) {
      switch (k) {
        case kBool: must("reading unregistered", [&] { (void)p.GetBool(bad); }); break;
        case kInt: must("reading unregistered", [&] { (void)p.GetInt(bad); }); break;
        case kDouble: must("reading unregistered", [&] { (void)p.GetDouble(bad); }); break;
        case kString: must("reading unregistered", [&] { (void)p.GetString(bad); }); break;
        case kArray: must("reading unregistered", [&] { (void)p.GetArray(bad); }); break;
        default: must("reading unregistered", [&] { (void)p.GetObject(bad); }); break;
      }
    } else {
      switch (k) {
        case kBool: must("writing unregistered", [&] { p.SetBool(bad, true); }); break;
        case kInt: must("writing unregistered", [&] { p.SetInt(bad, 1); }); break;
        case kDouble: must("writing unregistered", [&] { p.SetDouble(bad, 1.5); }); break;
        case kString: must("writing unregistered", [&] { p.SetString(bad, "x"); }); break;
        case kArray: must("writing unregistered", [&] { p.SetArray(bad, Value::Array()); }); break;
        default: must("writing unregistered", [&] { p.SetObject(bad, Value::Object()); }); break;
      }
    }
  }
  const auto number = [](Kind k) { return k == kInt || k == kDouble; };
  for (int k = 0; k < kKinds; k++) {
    if (k == m.kind || (number(m.kind) && number(static_cast<Kind>(k)))) continue;
    if (!r.Chance(1, 3)) continue;
    switch (k) {
      case kBool:
        must("reading as bool", [&] { (void)p.GetBool(path); });
        must("writing as bool", [&] { p.SetBool(path, true); });
        break;
      case kInt:
        must("reading as int", [&] { (void)p.GetInt(path); });
        must("writing as int", [&] { p.SetInt(path, 3); });
        break;
      case kDouble:
        must("reading as double", [&] { (void)p.GetDouble(path); });
        must("writing as double", [&] { p.SetDouble(path, 0.5); });
        break;
      case kString:
        must("reading as string", [&] { (void)p.GetString(path); });
        must("writing as string", [&] { p.SetString(path, "x"); });
        break;
      case kArray:
        must("reading as array", [&] { (void)p.GetArray(path); });
        must("writing as array", [&] { p.SetArray(path, Value::Array()); });
        break;
      default:
        must("reading as object", [&] { (void)p.GetObject(path); });
        must("writing as object", [&] { p.SetObject(path, Value::Object()); });
    }
  }
  if (m.kind == kDouble && std::floor(m.d) != m.d) must("reading fraction as int", [&] { (void)p.GetInt(path); });
  // Twice, with the same or another type.
  switch (r.Below(kKinds)) {
    case kBool: must("second registration", [&] { p.RegisterBoolPreference(std::string(path), true); }); break;
    case kInt: must("second registration", [&] { p.RegisterIntPreference(std::string(path), 1); }); break;
    case kDouble: must("second registration", [&] { p.RegisterDoublePreference(std::string(path), 1); }); break;
    case kString: must("second registration", [&] { p.RegisterStringPreference(std::string(path), "x"); }); break;
    case kArray: must("second registration", [&] { p.RegisterArrayPreference(std::string(path), Value::Array()); }); break;
    default: must("second registration", [&] { p.RegisterObjectPreference(std::string(path), Value::Object()); }); break;
  }
  // Accepted: the matching type, integers as doubles and whole doubles as integers.
  auto may = [&](const char* what, auto f) {
    VH_CHECK(!Rejects(f), "C12.reject", "%s of %s preference %s is rejected after %s", what, kNames[m.kind], Esc(path).c_str(), log.c_str());
  };
  if (m.kind == kInt) may("reading as double", [&] { (void)p.GetDouble(path); });
}

void Open(World& w) {
  if (!w.data) w.data = std::make_shared<MapStore::Data>();
  w.prefs = std::make_unique<Preferences>(NotNull<std::unique_ptr<PreferencesStore>>(std::make_unique<MapStore>(w.data)));
}

void Case(uint64_t index, Rng& r) {
  std::string log;
  std::vector<World> ws(1 + r.Below(2));
  uint64_t h = 11;
  for (auto& w : ws) {
    w.memory = r.Chance(2, 3);
    if (w.memory) w.prefs = std::make_unique<Preferences>(NotNull<std::unique_ptr<PreferencesStore>>(std::make_unique<MemoryPreferencesStore>()));
    else Open(w);
    w.free = GenPaths(r);
  }
  const auto ops = 5 + r.Below(ws[0].free.size() > 10 ? 300 : 60);
  for (uint64_t o = 0; o < ops; o++) {
    World& w = ws[r.Below(ws.size())];
    if (!w.memory && r.Chance(1, 20)) {
      // A later program over what an earlier one has stored.
      w.prefs.reset();
      Open(w);
      for (auto& [path, m] : w.def) w.free.push_back(path);
      w.def.clear();
      w.cur.clear();
      log += "reopen ";
      Stat("reopened stores");
    }
    const bool reg = !w.free.empty() && (w.def.empty() || r.Chance(1, 4));
    if (reg) {
      const size_t k = r.Below(w.free.size());
      Register(w, w.free[k], r, log);
      w.free.erase(w.free.begin() + static_cast<long>(k));
    } else if (!w.cur.empty()) {
      auto it = w.cur.begin();
      std::advance(it, static_cast<long>(r.Below(w.cur.size())));
      if (r.Chance(2, 3)) Write(w, it->first, r, log);
      else ReadOne(w, it->first, it->second, log);
    }
    if (r.Chance(1, ws[0].free.size() + ws[0].cur.size() > 10 ? 12 : 2)) for (auto& x : ws) ReadAll(x, log);
  }
  for (auto& x : ws) ReadAll(x, log);
  std::string obs;
  for (auto& x : ws)
    for (auto& [path, m] : x.cur)
      if (m.kind == kString) obs += x.prefs->GetString(path) + "|";
      else if (m.kind == kInt) obs += std::to_string(x.prefs->GetInt(path)) + "|";
  Obs(obs);
  h = HashStr(log, h);
  Distinct(h);
  if (index % 2000 == 0) Sample(log.substr(0, 300));
  if (index % 3 == 0) {
    Rejections(ws[0], r, log);
    // A rejected call ends a program; nothing is promised about the instance.
    if (Violating()) return;
  }
  ws.clear();
  VH_CHECK(g_stores == 0, "C12.store", "%d stores outlive their preferences", g_stores);
}

}  // namespace

int main(int argc, char** argv) {
  Init(argc, argv);
  ForCases([](uint64_t i, Rng& r) { Case(i, r); }, 112);
  Flush();
}
