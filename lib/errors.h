// Error classes and values that count their instances.
#ifndef VERIF_LIB_ERRORS_H_
#define VERIF_LIB_ERRORS_H_

#include "vh.h"

#include <map>
#include <memory>
#include <optional>
#include <set>
#include <string>
#include <utility>
#include <vector>

#include "rst/files/file_utils.h"
#include "rst/logger/log_error.h"
#include "rst/rtti/rtti.h"
#include "rst/status/status.h"
#include "rst/status/status_macros.h"
#include "rst/status/status_or.h"

using namespace vh;
using rst::ErrorInfo;
using rst::ErrorInfoBase;
using rst::Status;
using rst::StatusOr;

namespace {

// ------------------------------------------------------------ live objects
std::map<const void*, int> g_live;  // object address -> id
uint64_t g_copies = 0;
void Born(const void* p, int id) {
  VH_CHECK(g_live.emplace(p, id).second, "C18.life", "an object was constructed over a living one");
}
void Died(const void* p) {
  VH_CHECK(g_live.erase(p) == 1, "C18.life", "an object was destroyed that is not alive");
}

class Err : public ErrorInfo<Err> {
 public:
  explicit Err(int id) : id(id), text("error " + std::to_string(id) + std::string(static_cast<size_t>(id % 40), 'e')) { Born(this, id); }
  ~Err() override { Died(this); }
  const std::string& AsString() const override { return text; }
  static char id_;
  int id;

 private:
  std::string text;
};
char Err::id_ = '\0';
class SubErr : public ErrorInfo<SubErr, Err> {
 public:
  explicit SubErr(int id) : ErrorInfo(id) {}
  static char id_;
};
char SubErr::id_ = '\0';

// A value that knows how many of it are alive and may be moved only.
template <int kSize, bool kCopy>
struct Val {
  explicit Val(int id) : id(id), heap(new int(id)) { Born(this, id); }
  Val(Val&& o) noexcept : id(o.id), heap(std::move(o.heap)) { Born(this, id); o.id = -1; }
  Val& operator=(Val&& o) noexcept {
    VH_CHECK(g_live.count(this) && g_live.count(&o), "C18.life", "assignment between objects that are not alive");
    id = o.id; heap = std::move(o.heap); g_live[this] = id;
    if (this != &o) o.id = -1;
    return *this;
  }
  ~Val() { Died(this); }
  int id;
  std::unique_ptr<int> heap;
  char pad[kSize] = {};
};
struct alignas(64) Wide {
  int id;
  char pad[100];
};

int IdOf(const int& v) { return v; }
int IdOf(const bool& v) { return v; }
int IdOf(const double& v) { return static_cast<int>(v); }
int IdOf(const long double& v) { return static_cast<int>(v); }
int IdOf(const unsigned char& v) { return v; }
enum class Choice : short { kNone = -1 };
int IdOf(const Choice& v) { return static_cast<int>(v); }
// A small class with no special functions of its own.
struct Plain { short a; short b; };
int IdOf(const Plain& v) { VH_CHECK(v.b == static_cast<short>(~v.a), "C18.value", "the value lost its content"); return v.a; }
const char g_cells[4096] = {};
int IdOf(const char* const& v) { return static_cast<int>(v - g_cells); }
int IdOf(const Wide& v) {
  VH_CHECK(reinterpret_cast<uintptr_t>(&v) % 64 == 0, "C18.value", "misaligned value");
  for (size_t i = 0; i < sizeof v.pad; i++)
    VH_CHECK(v.pad[i] == static_cast<char>(v.id + static_cast<int>(i)), "C18.value", "a byte of the value was lost");
  return v.id;
}
template <int a, bool b>
int IdOf(const Val<a, b>& v) {
  VH_CHECK(g_live.count(&v) == 1, "C18.life", "the value is not alive");
  VH_CHECK(v.heap && *v.heap == v.id, "C18.value", "the value lost its content");
  return v.id;
}
int IdOf(const std::unique_ptr<Val<4, false>>& v) { VH_CHECK(v != nullptr, "C18.value", "the value lost its content"); return IdOf(*v); }
int IdOf(const std::string& v) { return v.empty() ? -1 : atoi(v.c_str()); }
int IdOf(const std::vector<int>& v) {
  VH_CHECK(!v.empty() && v.size() == static_cast<size_t>(v[0] % 50 + 1), "C18.value", "the value lost its content");
  for (int x : v) VH_CHECK(x == v[0], "C18.value", "the value lost its content");
  return v[0];
}
int IdOf(const std::shared_ptr<int>& v) {
  VH_CHECK(v != nullptr, "C18.value", "the value lost its content");
  VH_CHECK(v.use_count() == 2, "C18.value", "the shared value has %ld owners", v.use_count());
  return *v;
}
std::map<int, std::shared_ptr<int>> g_shared;
template <class T> struct Maker { static T Make(int id) { return T(id); } };
template <> struct Maker<bool> { static bool Make(int id) { return id & 1; } };
template <> struct Maker<unsigned char> { static unsigned char Make(int id) { return static_cast<unsigned char>(id); } };
template <> struct Maker<Plain> { static Plain Make(int id) { return Plain{static_cast<short>(id), static_cast<short>(~id)}; } };
template <> struct Maker<const char*> { static const char* Make(int id) { return g_cells + id; } };
template <> struct Maker<Wide> {
  static Wide Make(int id) { Wide w; w.id = id; for (size_t i = 0; i < sizeof w.pad; i++) w.pad[i] = static_cast<char>(id + static_cast<int>(i)); return w; }
};
template <> struct Maker<std::unique_ptr<Val<4, false>>> { static std::unique_ptr<Val<4, false>> Make(int id) { return std::make_unique<Val<4, false>>(id); } };
template <> struct Maker<std::string> { static std::string Make(int id) { return std::to_string(id) + std::string(static_cast<size_t>(id % 60), ' '); } };
template <> struct Maker<std::vector<int>> { static std::vector<int> Make(int id) { return std::vector<int>(static_cast<size_t>(id % 50 + 1), id); } };
template <> struct Maker<std::shared_ptr<int>> {
  static std::shared_ptr<int> Make(int id) { auto p = std::make_shared<int>(id); g_shared[id] = p; return p; }
};
template <class T> int Expect(int id) { return std::is_same_v<T, bool> ? id & 1 : std::is_same_v<T, unsigned char> ? id & 255 : id; }

Status MakeErr(int id, bool sub, const void** addr) {
  Status s = sub ? rst::MakeStatus<SubErr>(id) : rst::MakeStatus<Err>(id);
  // Asking and then moving must make it unchecked again.
  VH_CHECK(s.err(), "C18.kind", "a new error status is no error");
  *addr = s.GetError().get();
  return Status(std::move(s));
}

}  // namespace

#endif  // VERIF_LIB_ERRORS_H_
