// GUID generation and validation (C16).
#define VH_DEFINE_ASSERT 1
#include "vh.h"

#include <sys/wait.h>

#include <algorithm>
#include <array>
#include <atomic>
#include <bitset>
#include <memory>
#include <string>
#include <thread>
#include <unordered_set>
#include <vector>

#include "rst/guid/guid.h"

using namespace vh;
using rst::Guid;

namespace {

std::unordered_set<std::string> g_seen;
uint32_t g_values[36];  // bit per hexadecimal value seen
uint16_t g_pairs[36][16][36];  // per position and its value: values seen at another one
uint64_t g_count = 0;

bool Hex(unsigned char c) { return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
bool Oracle(const std::string& s, bool strict) {
  if (s.size() != 36) return false;
  for (size_t i = 0; i < 36; i++) {
    const auto c = static_cast<unsigned char>(s[i]);
    if (i == 8 || i == 13 || i == 18 || i == 23) { if (c != '-') return false; }
    else if (!Hex(c) || (strict && c >= 'A' && c <= 'F')) return false;
  }
  return true;
}
// Validation of an exactly sized heap block.
void CheckValid(const std::string& s) {
  std::unique_ptr<char[]> p(new char[s.size()]);
  memcpy(p.get(), s.data(), s.size());
  const std::string_view v(p.get(), s.size());
  VH_CHECK(Guid::IsValid(v) == Oracle(s, false), "C16.valid", "IsValid('%s') is %d", Esc(s).c_str(), Guid::IsValid(v));
  VH_CHECK(Guid::IsValidOutputString(v) == Oracle(s, true), "C16.valid", "IsValidOutputString('%s') is %d", Esc(s).c_str(), Guid::IsValidOutputString(v));
  Stat("validations", 2);
}

void CheckForm(const std::string& s) {
  VH_CHECK(s.size() == 36 && Oracle(s, true), "C16.form", "'%s' is malformed", Esc(s).c_str());
  VH_CHECK(s[14] == '4' && (s[19] == '8' || s[19] == '9' || s[19] == 'a' || s[19] == 'b'), "C16.form", "'%s' is no version 4 GUID", Esc(s).c_str());
}
void Record(const std::string& s) {
  CheckForm(s);
  VH_CHECK(g_seen.insert(s).second, "C16.unique", "'%s' was generated twice (%llu so far)", Esc(s).c_str(), static_cast<unsigned long long>(g_count));
  for (size_t i = 0; i < 36; i++)
    if (s[i] != '-') g_values[i] |= 1u << (s[i] <= '9' ? s[i] - '0' : s[i] - 'a' + 10);
  unsigned d[36];
  for (size_t i = 0; i < 36; i++) d[i] = s[i] == '-' ? 16 : static_cast<unsigned>(s[i] <= '9' ? s[i] - '0' : s[i] - 'a' + 10);
  for (size_t i = 0; i < 36; i++)
    if (d[i] < 16)
      for (size_t k = 0; k < 36; k++)
        if (d[k] < 16) g_pairs[i][d[i]][k] = static_cast<uint16_t>(g_pairs[i][d[i]][k] | 1u << d[k]);
  g_count++;
  if (g_count % 8 == 0) Distinct(HashStr(s));
}

void Forms(Rng& r) {
  const Guid g;
  const std::string a = g.AsString();
  const auto v = g.AsStringView();
  VH_CHECK(v.value() == a && v.value().size() == 36, "C16.stable", "'%s' and '%s'", Esc(v.value()).c_str(), Esc(a).c_str());
  Guid copy = g;
  Guid other;
  const std::string o = other.AsString();
  for (uint64_t k = r.Below(4); k < 4; k++) {
    VH_CHECK(g.AsString() == a && g.AsStringView().value() == a, "C16.stable", "'%s' changed", a.c_str());
    VH_CHECK(copy.AsString() == a && copy.AsStringView().value() == a, "C16.stable", "a copy of '%s' differs", a.c_str());
    VH_CHECK(other.AsString() == o, "C16.stable", "'%s' changed", o.c_str());
  }
  Record(a);
  Record(o);
  other = copy;
  VH_CHECK(other.AsString() == a, "C16.stable", "assigned '%s'", other.AsString().c_str());
  auto* p = new Guid();
  const auto held = p->AsStringView();
  const std::string ps = p->AsString();
  delete p;
  VH_CHECK(held.value() == ps, "C16.stable", "a text form depends on the object");
  auto held2 = held;
  VH_CHECK(held2.value() == ps, "C16.stable", "a copied text form differs");
  Record(ps);
}

void Validation(Rng& r) {
  std::string s = Guid().AsString();
  CheckValid(s);
  // Every byte at every position.
  const size_t pos = r.Below(36);
  for (int c = 0; c < 256; c++) { std::string t = s; t[pos] = static_cast<char>(c); CheckValid(t); }
  // Other lengths.
  for (size_t n = 0; n <= 36; n += 1 + r.Below(4)) CheckValid(s.substr(0, n));
  CheckValid(s + s.substr(0, 1 + r.Below(5)));
  CheckValid(s + std::string(1, '\0'));
  CheckValid(s.substr(1) + "-");
  CheckValid("{" + s + "}");
  CheckValid("urn:uuid:" + s);
  CheckValid("\xef\xbb\xbf" + s);
  CheckValid(s + "\n");
  CheckValid(" " + s);
  // Regular and well-known ones.
  static const char digits[] = "0123456789abcdefABCDEF";
  for (int c = 0; c < 22; c++) {
    std::string t(36, digits[c]);
    t[8] = t[13] = t[18] = t[23] = '-';
    CheckValid(t);
    const size_t at = r.Below(36);
    if (t[at] != '-') t[at] = digits[r.Below(22)];
    CheckValid(t);
    // One part of it only.
    std::string u = s;
    for (size_t i = pos; i < 36 && s[i] != '-'; i++) u[i] = digits[c];
    CheckValid(u);
  }
  for (const char* k : {"01234567-89ab-cdef-0123-456789abcdef", "00000000-0000-0000-0000-000000000001", "6ba7b810-9dad-11d1-80b4-00c04fd430c8",
                        "6BA7B811-9DAD-11D1-80B4-00C04FD430C8", "00000000-0000-4000-8000-000000000000", "ffffffff-ffff-4fff-bfff-ffffffffffff",
                        "deadbeef-dead-beef-dead-beefdeadbeef", "12345678-1234-1234-1234-123456789012"})
    CheckValid(k);
  // Random mixtures of the alphabet and near misses.
  static const char alphabet[] = "0123456789abcdefABCDEF-gG/:@`{} \t";
  for (int k = 0; k < 20; k++) {
    std::string t = s;
    for (uint64_t m = r.Below(8); m > 0; m--) {
      const size_t at = r.Below(36);
      if (t[at] == '-' && r.Chance(3, 4)) continue;
      t[at] = alphabet[r.Below(r.Chance(1, 2) ? 22 : sizeof alphabet - 1)];
    }
    CheckValid(t);
    for (auto& c : t) if (r.Chance(1, 2)) c = static_cast<char>(toupper(c));
    CheckValid(t);
  }
}

void Threads(Rng& r) {
  const int n = static_cast<int>(r.In(2, 8));
  const int each = static_cast<int>(r.In(1, 300));
  std::vector<std::vector<std::string>> out(static_cast<size_t>(n));
  std::atomic<int> ready{0};
  std::vector<std::thread> ts;
  for (int t = 0; t < n; t++)
    ts.emplace_back([&, t] {
      ready++;
      while (ready.load() < n) {}
      for (int k = 0; k < each; k++) {
        const Guid g;
        out[static_cast<size_t>(t)].push_back(k % 2 ? g.AsString() : std::string(g.AsStringView().value()));
      }
    });
  for (auto& t : ts) t.join();
  for (auto& v : out) for (auto& s : v) Record(s);
  Stat("threads", static_cast<uint64_t>(n));
}

// Other processes, started from the same state.
void Processes() {
  for (int k = 0; k < 3; k++) {
    int fd[2];
    if (pipe(fd) != 0) exit(3);
    fflush(stdout);
    const pid_t pid = fork();
    if (pid < 0) exit(3);
    if (pid == 0) {
      std::string s;
      for (int i = 0; i < 20; i++) s += Guid().AsString();
      (void)!write(fd[1], s.data(), s.size());
      _exit(0);
    }
    close(fd[1]);
    std::string s;
    char b[1024];
    ssize_t n;
    while ((n = read(fd[0], b, sizeof b)) > 0) s.append(b, static_cast<size_t>(n));
    close(fd[0]);
    int st;
    waitpid(pid, &st, 0);
    VH_CHECK(s.size() == 20 * 36, "C16.process", "%zu bytes from a forked process", s.size());
    for (size_t i = 0; i < s.size(); i += 36) Record(s.substr(i, 36));
    // A new program.
    if (FILE* f = popen((std::string("'") + opt.transcript + "' --mode print").c_str(), "r")) {
      char line[100];
      while (fgets(line, sizeof line, f)) {
        line[strcspn(line, "\n")] = 0;
        if (strlen(line) == 36) { Record(line); Stat("foreign"); }
      }
      pclose(f);
    }
  }
}

// All free bits must be linearly independent over many GUIDs.
void Rank() {
  std::vector<std::bitset<124>> rows;
  for (int k = 0; k < 600; k++) {
    const std::string s = Guid().AsString();
    Record(s);
    std::bitset<124> b;
    size_t at = 0;
    for (size_t i = 0; i < 36; i++) {
      if (s[i] == '-' || i == 14) continue;
      const int v = s[i] <= '9' ? s[i] - '0' : s[i] - 'a' + 10;
      for (int j = 0; j < (i == 19 ? 2 : 4); j++) b[at++] = (v >> j) & 1;
    }
    b[at++] = true;  // affine
    rows.push_back(b);
  }
  int rank = 0;
  for (size_t c = 0; c < 123; c++) {
    size_t p = static_cast<size_t>(rank);
    while (p < rows.size() && !rows[p][c]) p++;
    if (p == rows.size()) continue;
    std::swap(rows[p], rows[static_cast<size_t>(rank)]);
    for (size_t k = 0; k < rows.size(); k++)
      if (k != static_cast<size_t>(rank) && rows[k][c]) rows[k] ^= rows[static_cast<size_t>(rank)];
    rank++;
  }
  VH_CHECK(rank == 123, "C16.digits", "the digits depend on each other: rank %d of 123 over 600 GUIDs", rank);
}

}  // namespace

int main(int argc, char** argv) {
  Init(argc, argv);
  if (opt.mode == "print") {
    for (int i = 0; i < 30; i++) printf("%s\n", Guid().AsString().c_str());
    return 0;
  }
  char self[4096];
  const ssize_t n = readlink("/proc/self/exe", self, sizeof self - 1);
  opt.transcript.assign(self, n > 0 ? static_cast<size_t>(n) : 0);
  ForCases([](uint64_t i, Rng& r) {
    Forms(r);
    if (i % 4 == 0) Validation(r);
    if (i % 16 == 1) Threads(r);
    if (i % 64 == 2) Rank();
    if (i / opt.shards == 0 && i == opt.shard) Processes();
    for (int k = 0; k < 20; k++) Record(Guid().AsString());
    if (i % 2000 == 0) Sample(Guid().AsString());
  }, 116);
  if (g_count >= 3000)
    for (size_t i = 0; i < 36; i++) {
      const uint32_t want = i == 8 || i == 13 || i == 18 || i == 23 ? 0 : i == 14 ? 1u << 4 : i == 19 ? 0xf00u : 0xffffu;
      VH_CHECK(g_values[i] == want, "C16.digits", "position %zu takes the values %04x over %llu GUIDs", i, g_values[i], static_cast<unsigned long long>(g_count));
    }
  // Each digit takes all values together with each value of each other one: the
  // chance that one of the pairs stays away by accident is below 1e-11.
  if (g_count >= 10000) {
    uint64_t pairs = 0;
    for (size_t i = 0; i < 36; i++)
      for (unsigned a = 0; a < 16; a++)
        for (size_t k = 0; k < 36; k++) {
          if (!(g_values[i] >> a & 1) || i == k || g_values[k] == 0 || k == 14) continue;
          const uint32_t want = k == 19 ? 0xf00u : 0xffffu;
          pairs += 16;
          VH_CHECK(g_pairs[i][a][k] == want, "C16.digits", "position %zu takes only the values %04x where position %zu is %x, over %llu GUIDs", k, g_pairs[i][a][k], i, a,
                   static_cast<unsigned long long>(g_count));
        }
    Stat("pairs of digits", pairs);
  }
  Stat("guids", g_count);
  Flush();
}
