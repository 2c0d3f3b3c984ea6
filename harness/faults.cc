// File functions under injected faults and kills at every system call (C13, C14).
//
// Each run is a child process that executes one call while this process stops
// it at every system call, looks at the files, and may fail the call, shorten
// it, change the size it reports or kill the child.
#include "vh.h"

#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <sched.h>
#include <sys/mman.h>
#include <sys/ptrace.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <sys/user.h>
#include <sys/wait.h>

#include <algorithm>
#include <filesystem>
#include <functional>
#include <set>
#include <string>
#include <vector>

#include "rst/files/file_utils.h"
#include "rst/rtti/rtti.h"

using namespace vh;

namespace {

enum Op { kWrite, kImportant, kRead };
const char* const kOps[] = {"WriteFile", "WriteImportantFile", "ReadFile"};
enum Dest { kAbsent, kFile, kLink, kLinkUp, kDir, kNoParent };
const char* const kDests[] = {"absent", "file", "symlink", "dangling symlink", "directory", "missing directory"};

struct Scenario {
  Op op = kWrite;
  Dest dest = kAbsent;
  std::string old, data, name;
  bool linked = false;  // the file has a second name
  int how = 0;          // named by its full path, its plain name or from the current directory
  std::string Str() const {
    return Fmt("%s of %zu bytes over %s%s (%zu bytes) '%s'", kOps[op], data.size(), kDests[dest], linked ? " with two names" : how ? " named relatively" : "", old.size(), Esc(name, 60).c_str());
  }
};

enum FaultKind { kNone, kErr, kShort, kSize, kKillBefore, kKillAfter, kDoneErr };
struct Fault {
  int at = -1;  // ordinal of the file system call
  FaultKind kind = kNone;
  int err = 0;
  uint64_t arg = 0;
};

struct Shared {
  int done;
  int kind;  // 0 success, 1 open error, 2 file error, 3 another error
  int leaked;
  int content_ok;
  uint64_t size;
};
Shared* g_shared;

constexpr long kMark = 1000001;

// The number of open handles of a process of ours.
int CountFds(pid_t pid) {
  int n = 0;
  if (DIR* d = opendir(Fmt("/proc/%d/fd", static_cast<int>(pid)).c_str())) {
    while (readdir(d)) n++;
    closedir(d);
  }
  return n;
}

std::string Slurp(const std::string& p, bool* ok) {
  std::string s;
  const int fd = open(p.c_str(), O_RDONLY | O_CLOEXEC);
  *ok = fd >= 0;
  if (fd < 0) return s;
  char b[65536];
  ssize_t n;
  while ((n = read(fd, b, sizeof b)) > 0) s.append(b, static_cast<size_t>(n));
  if (n < 0) *ok = false;
  close(fd);
  return s;
}
void Spit(const std::string& p, const std::string& s) {
  const int fd = open(p.c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_CLOEXEC, 0644);
  if (fd < 0) { fprintf(stderr, "cannot write %s\n", p.c_str()); _exit(3); }
  size_t at = 0;
  while (at < s.size()) {
    const ssize_t n = write(fd, s.data() + at, s.size() - at);
    if (n <= 0) { fprintf(stderr, "cannot write %s\n", p.c_str()); _exit(3); }
    at += static_cast<size_t>(n);
  }
  close(fd);
}
std::vector<std::string> List(const std::string& dir) {
  std::vector<std::string> v;
  if (DIR* d = opendir(dir.c_str())) {
    while (dirent* e = readdir(d)) {
      const std::string n = e->d_name;
      if (n != "." && n != "..") v.push_back(n);
    }
    closedir(d);
  }
  std::sort(v.begin(), v.end());
  return v;
}

int KindOf(rst::Status& s) {
  if (!s.err()) return 0;
  if (rst::dyn_cast<rst::FileOpenError>(s.GetError()) != nullptr)
    return rst::dyn_cast<rst::FileError>(s.GetError()) != nullptr ? 1 : 3;
  return rst::dyn_cast<rst::FileError>(s.GetError()) != nullptr ? 2 : 3;
}

// ---------------------------------------------------------------- the child
[[noreturn]] void Child(const Scenario& sc, const std::string& dir, const std::string& full) {
  std::string path = full;
  if (sc.how != 0) {
    if (chdir(dir.c_str()) != 0) _exit(98);
    path = (sc.how == 2 ? "./" : "") + full.substr(dir.size() + 1);
  }
  if (ptrace(PTRACE_TRACEME, 0, nullptr, nullptr) != 0) _exit(99);
  raise(SIGSTOP);
  syscall(kMark, 1);
  if (sc.op == kRead) {
    auto s = rst::ReadFile(path);
    const bool err = s.err();
    syscall(kMark, 2);
    if (err) {
      auto st = std::move(s).TakeStatus();
      g_shared->kind = KindOf(st);
    } else {
      g_shared->kind = 0;
      g_shared->size = s->size();
      g_shared->content_ok = *s == sc.data;
    }
  } else {
    auto s = sc.op == kWrite ? rst::WriteFile(path.c_str(), sc.data) : rst::WriteImportantFile(path, sc.data);
    syscall(kMark, 2);
    g_shared->kind = KindOf(s);
  }
  g_shared->done = 1;
  _exit(0);
}

// ---------------------------------------------------------------- the tracer
struct Call { long nr; std::string what; };
enum Class { kOther, kOpen, kReadC, kWriteC, kClose, kRename, kUnlink, kStat, kSync, kTrunc };

struct Run {
  int n = 0;                 // file system calls seen
  std::vector<Class> calls;  // their classes
  std::vector<std::string> names;
  std::vector<bool> applied; // per fault
  bool killed = false;
  bool crashed = false;
  std::string crash;
  bool open_failed = false;  // by itself
  std::string trace;
};

bool ReadMem(pid_t pid, unsigned long addr, void* to, size_t n) {
  iovec l{to, n}, rv{reinterpret_cast<void*>(addr), n};
  if (process_vm_readv(pid, &l, 1, &rv, 1, 0) == static_cast<ssize_t>(n)) return true;
  for (size_t i = 0; i < n; i++) {
    errno = 0;
    const unsigned long a = addr + i;
    const long w = ptrace(PTRACE_PEEKDATA, pid, reinterpret_cast<void*>(a & ~7ul), nullptr);
    if (errno) return false;
    static_cast<char*>(to)[i] = reinterpret_cast<const char*>(&w)[a & 7];
  }
  return true;
}
std::string ReadStr(pid_t pid, unsigned long addr) {
  std::string s;
  while (s.size() < 5000) {
    char c[64];
    const size_t n = std::min<size_t>(sizeof c, 4096 - (addr & 4095));
    if (!ReadMem(pid, addr, c, n)) break;
    for (size_t i = 0; i < n; i++) {
      if (c[i] == 0) return s;
      s += c[i];
    }
    addr += n;
  }
  return s;
}
void Poke64(pid_t pid, unsigned long addr, uint64_t v) {
  if (ptrace(PTRACE_POKEDATA, pid, reinterpret_cast<void*>(addr), reinterpret_cast<void*>(v)) != 0) {
    fprintf(stderr, "cannot poke\n");
    _exit(3);
  }
}

Class Classify(long nr) {
  switch (nr) {
    case SYS_open: case SYS_openat: case SYS_creat: case SYS_openat2: return kOpen;
    case SYS_read: case SYS_pread64: case SYS_readv: case SYS_preadv: return kReadC;
    case SYS_write: case SYS_pwrite64: case SYS_writev: case SYS_pwritev: return kWriteC;
    case SYS_close: return kClose;
    case SYS_rename: case SYS_renameat: case SYS_renameat2: return kRename;
    case SYS_unlink: case SYS_unlinkat: case SYS_rmdir: return kUnlink;
    case SYS_stat: case SYS_lstat: case SYS_fstat: case SYS_newfstatat: case SYS_statx: return kStat;
    case SYS_fsync: case SYS_fdatasync: return kSync;
    case SYS_truncate: case SYS_ftruncate: return kTrunc;
    default: return kOther;
  }
}
const char* const kClassNames[] = {"other", "open", "read", "write", "close", "rename", "unlink", "stat", "sync", "truncate"};

Run Trace(const Scenario& sc, const std::string& dir, const std::string& path, const std::vector<Fault>& faults,
          const std::function<void(const char*)>& inspect) {
  Run run;
  run.applied.assign(faults.size(), false);
  memset(g_shared, 0, sizeof *g_shared);
  fflush(stdout);
  const pid_t pid = fork();
  if (pid < 0) { fprintf(stderr, "fork failed\n"); _exit(3); }
  if (pid == 0) Child(sc, dir, path);
  int st;
  if (waitpid(pid, &st, 0) != pid || !WIFSTOPPED(st)) { fprintf(stderr, "cannot trace a child here\n"); _exit(3); }
  ptrace(PTRACE_SETOPTIONS, pid, nullptr, reinterpret_cast<void*>(PTRACE_O_TRACESYSGOOD | PTRACE_O_EXITKILL));
  bool window = false, entry = true, mine = false;
  std::set<int> fds;
  int sig = 0;
  user_regs_struct regs;
  Class cls = kOther;
  std::vector<size_t> now;  // faults of the current call
  bool opens_mine = false;
  long close_fd = -1;
  uint64_t stops = 0;
  int open_before = 0;
  for (;;) {
    ptrace(PTRACE_SYSCALL, pid, nullptr, reinterpret_cast<void*>(static_cast<long>(sig)));
    sig = 0;
    if (waitpid(pid, &st, 0) != pid) { fprintf(stderr, "wait failed\n"); _exit(3); }
    if (WIFEXITED(st)) {
      if (WEXITSTATUS(st) != 0 || !g_shared->done) { run.crashed = true; run.crash = Fmt("exit %d", WEXITSTATUS(st)); }
      break;
    }
    if (WIFSIGNALED(st)) {
      if (!run.killed) { run.crashed = true; run.crash = Fmt("signal %d", WTERMSIG(st)); }
      break;
    }
    if (!WIFSTOPPED(st)) continue;
    if (WSTOPSIG(st) != (SIGTRAP | 0x80)) { sig = WSTOPSIG(st); continue; }
    if (++stops > 2000000) { kill(pid, SIGKILL); waitpid(pid, &st, 0); run.crashed = true; run.crash = "endless loop"; break; }
    ptrace(PTRACE_GETREGS, pid, nullptr, &regs);
    const long nr = static_cast<long>(regs.orig_rax);
    if (entry) {
      entry = false;
      mine = false;
      now.clear();
      if (nr == kMark) {
        window = regs.rdi == 1;
        if (window) open_before = CountFds(pid);
        else g_shared->leaked = CountFds(pid) - open_before;
        continue;
      }
      if (!window) continue;
      cls = Classify(nr);
      if (cls == kOther) continue;
      opens_mine = false;
      unsigned long parg = 0;
      switch (nr) {
        case SYS_open: case SYS_creat: case SYS_rename: case SYS_unlink: case SYS_rmdir: case SYS_stat: case SYS_lstat:
        case SYS_truncate: parg = regs.rdi; break;
        case SYS_openat: case SYS_openat2: case SYS_renameat: case SYS_renameat2: case SYS_unlinkat: case SYS_newfstatat:
        case SYS_statx: parg = regs.rsi; break;
        default: break;
      }
      if (parg) {
        const std::string p = ReadStr(pid, parg);
        mine = p.compare(0, dir.size(), dir) == 0 || (sc.how != 0 && !p.empty() && p[0] != '/');
        if (p.empty() && (nr == SYS_newfstatat || nr == SYS_statx)) mine = fds.count(static_cast<int>(regs.rdi)) != 0;
        opens_mine = mine && cls == kOpen;
      } else {
        mine = fds.count(static_cast<int>(regs.rdi)) != 0;
        close_fd = cls == kClose ? static_cast<long>(regs.rdi) : -1;
      }
      if (!mine) continue;
      const int ordinal = run.n++;
      run.calls.push_back(cls);
      run.trace += kClassNames[cls];
      inspect("before");
      for (size_t f = 0; f < faults.size(); f++)
        if (faults[f].at == ordinal) {
          const Fault& ft = faults[f];
          now.push_back(f);
          run.applied[f] = true;
          switch (ft.kind) {
            case kKillBefore:
              run.killed = true;
              kill(pid, SIGKILL);
              break;
            case kErr:
              regs.orig_rax = static_cast<unsigned long long>(-1);
              ptrace(PTRACE_SETREGS, pid, nullptr, &regs);
              run.trace += Fmt("!%d", ft.err);
              break;
            case kShort:
              if (regs.rdx > ft.arg && ft.arg > 0) { regs.rdx = ft.arg; ptrace(PTRACE_SETREGS, pid, nullptr, &regs); run.trace += "~"; }
              break;
            default: break;
          }
        }
      run.trace += ' ';
    } else {
      entry = true;
      if (nr == kMark || !window) continue;
      if (!mine) continue;
      for (size_t f : now) {
        const Fault& ft = faults[f];
        if (ft.kind == kErr || ft.kind == kDoneErr) {
          regs.rax = static_cast<unsigned long long>(-static_cast<long>(ft.err));
          ptrace(PTRACE_SETREGS, pid, nullptr, &regs);
        } else if (ft.kind == kSize && static_cast<long>(regs.rax) == 0) {
          if (nr == SYS_statx) Poke64(pid, regs.r8 + 40, ft.arg);
          else Poke64(pid, (nr == SYS_newfstatat ? regs.rdx : regs.rsi) + 48, ft.arg);
        }
      }
      const long ret = static_cast<long>(regs.rax);
      if (opens_mine) {
        if (ret >= 0) fds.insert(static_cast<int>(ret));
        else run.open_failed = true;
      }
      if (cls == kClose && close_fd >= 0) fds.erase(static_cast<int>(close_fd));
      inspect("after");
      for (size_t f : now)
        if (faults[f].kind == kKillAfter) { run.killed = true; kill(pid, SIGKILL); }
    }
  }
  return run;
}

// ---------------------------------------------------------------- one run
uint64_t g_runs = 0;

std::string FaultStr(const std::vector<Fault>& fs) {
  static const char* const names[] = {"none", "error", "short", "size", "kill before", "kill after", "late error"};
  std::string s;
  for (auto& f : fs) s += Fmt("[%s %d/%llu at call %d]", names[f.kind], f.err, static_cast<unsigned long long>(f.arg), f.at);
  return s;
}

Run OneRun(const Scenario& sc, const std::vector<Fault>& faults) {
  g_runs++;
  const std::string dir = opt.scratch + Fmt("/f%llu", static_cast<unsigned long long>(g_runs));
  mkdir(dir.c_str(), 0755);
  std::string path = dir + "/" + sc.name;
  const std::string target = dir + "/target";
  int held = -1;
  switch (sc.dest) {
    case kAbsent: break;
    case kFile: Spit(path, sc.op == kRead ? sc.data : sc.old); break;
    case kLink:
      Spit(target, sc.op == kRead ? sc.data : sc.old);
      if (symlink(target.c_str(), path.c_str()) != 0) _exit(3);
      break;
    case kLinkUp: if (symlink((dir + "/nothing").c_str(), path.c_str()) != 0) _exit(3); break;
    case kDir: mkdir(path.c_str(), 0755); Spit(path + "/inner", "inner"); break;
    case kNoParent: path = dir + "/missing/" + sc.name; break;
  }
  if (sc.dest == kFile || sc.dest == kLink) held = open(path.c_str(), O_RDONLY | O_CLOEXEC);
  const std::string second = dir + "/second name";
  if (sc.linked && link(sc.dest == kLink ? target.c_str() : path.c_str(), second.c_str()) != 0) _exit(3);
  const auto before = List(dir);
  const bool had = sc.dest == kFile || sc.dest == kLink;
  const std::string what0 = sc.Str() + " with " + FaultStr(faults);
  uint64_t looks = 0;
  bool last_new = false;
  auto inspect = [&](const char* when) {
    if (sc.op != kImportant) return;
    looks++;
    if (sc.dest == kDir) {
      struct stat s;
      VH_CHECK(stat(path.c_str(), &s) == 0 && S_ISDIR(s.st_mode), "C14.atomic", "the directory is gone; %s", what0.c_str());
      return;
    }
    bool ok;
    if (sc.linked) {
      const std::string other = Slurp(second, &ok);
      VH_CHECK(ok && other == sc.old, "C14.reader", "%s a system call the other name of the file has %zu bytes of other content; %s", when, other.size(), what0.c_str());
    }
    const std::string c = Slurp(path, &ok);
    const bool is_old = had ? ok && c == sc.old : !ok;
    const bool is_new = ok && c == sc.data;
    last_new = is_new;
    VH_CHECK(is_old || is_new, "C14.atomic", "%s a system call the file %s; %s", when,
             ok ? Fmt("holds %zu bytes that are neither the old nor the new content", c.size()).c_str() : "is missing", what0.c_str());
  };
  Run run = Trace(sc, dir, path, faults, inspect);
  inspect("at the end, after");
  Stat("file_states_seen", looks);
  Stat("runs");
  const std::string what = what0 + " (" + run.trace + ")";
  // Which outcomes are right?
  bool must_fail = false, may_fail = false, open_fail = run.open_failed, unlink_failed = false;
  for (size_t i = 0; i < faults.size(); i++) {
    if (!run.applied[i]) continue;
    const Fault& f = faults[i];
    if (f.kind != kErr && f.kind != kDoneErr) continue;
    switch (run.calls[static_cast<size_t>(f.at)]) {
      case kReadC: case kWriteC: case kClose:
        if (f.err == EINTR) may_fail = true; else must_fail = true;
        break;
      case kRename: must_fail = true; break;
      case kUnlink: unlink_failed = true; break;
      case kSync: case kTrunc: may_fail = true; break;
      case kStat: if (sc.op != kRead) may_fail = true; break;
      default: break;
    }
  }
  const char* const key = sc.op == kImportant ? "C14" : "C13";
  if (run.crashed) Fail(sc.op == kImportant ? "C14.crash" : "C13.crash", Fmt("the process ended by %s; %s", run.crash.c_str(), what.c_str()));
  (void)key;
  if (run.killed) Stat("kills");
  else {
    const int kind = g_shared->kind;
    VH_CHECK(kind != 3, "C13.kind", "the error is no FileError; %s", what.c_str());
    VH_CHECK(g_shared->leaked == 0, "C13.handle", "%d file handles left open; %s", g_shared->leaked, what.c_str());
    bool open_must = false;
    if (faults.empty() && sc.dest == kNoParent) open_must = true;
    if (faults.empty() && sc.op == kRead && (sc.dest == kAbsent || sc.dest == kLinkUp)) open_must = true;
    if (faults.empty() && sc.op == kWrite && sc.dest == kDir) open_must = true;
    if (faults.empty() && sc.dest == kDir && sc.op != kWrite) must_fail = true;
    if (faults.empty()) VH_CHECK(!open_must || open_fail, "C13.harness", "the open should have failed; %s", what.c_str());
    if (kind == 0) {
      VH_CHECK(!must_fail, "C13.success", "success although a call failed; %s", what.c_str());
      if (open_fail) {
        // Only right if another try worked.
        bool opened = false;
        for (size_t i = 0; i < run.calls.size(); i++) opened = opened || run.calls[i] == (sc.op == kRead ? kReadC : kClose);
        VH_CHECK(opened, "C13.success", "success although the file could not be opened; %s", what.c_str());
      }
    } else if (kind == 1) {
      VH_CHECK(open_fail, "C13.kind", "an open error although the file was opened; %s", what.c_str());
    } else {
      VH_CHECK(!open_fail, "C13.kind", "the error of a failed open is not an open error; %s", what.c_str());
      VH_CHECK(must_fail || may_fail || sc.dest == kDir, "C13.error", "an error although nothing failed; %s", what.c_str());
    }
    Stat(kind == 0 ? "successes" : kind == 1 ? "open_errors" : "file_errors");
    if (sc.op == kRead && kind == 0)
      VH_CHECK(g_shared->content_ok, "C13.read", "the file was read as %llu other bytes; %s",
               static_cast<unsigned long long>(g_shared->size), what.c_str());
    if (sc.op == kWrite && kind == 0) {
      bool ok;
      const std::string c = Slurp(path, &ok);
      VH_CHECK(ok && c == sc.data, "C13.write", "success, but the file has %zu bytes of other content; %s", c.size(), what.c_str());
    }
    if (sc.op == kImportant) {
      const auto after = List(dir);
      auto want = before;
      if (kind == 0 && sc.dest == kAbsent) { want.push_back(sc.name); std::sort(want.begin(), want.end()); }
      if (kind == 0) {
        bool ok;
        const std::string c = Slurp(path, &ok);
        VH_CHECK(ok && c == sc.data, "C14.success", "success, but the file has %zu bytes of other content; %s", c.size(), what.c_str());
        VH_CHECK(sc.dest != kDir, "C14.success", "success over a directory; %s", what.c_str());
      } else if (sc.dest == kDir) {
        bool ok;
        VH_CHECK(Slurp(path + "/inner", &ok) == "inner", "C14.error", "the directory lost its content; %s", what.c_str());
      } else {
        bool ok;
        const std::string c = Slurp(path, &ok);
        VH_CHECK(had ? ok && c == sc.old : !ok, "C14.error", "an error, but the previous content is gone; %s", what.c_str());
      }
      // A name that a symbolic link now resolves to is no leftover.
      if (sc.dest == kLinkUp) {
        const auto it = std::find(after.begin(), after.end(), "nothing");
        if (it != after.end() && kind == 0) { want.push_back("nothing"); std::sort(want.begin(), want.end()); }
      }
      if (!unlink_failed) {
        std::string l;
        for (auto& x : after) l += x + " ";
        VH_CHECK(after == want, "C14.temp", "files left after %s: %s; %s", kind ? "an error" : "success", Esc(l).c_str(), what.c_str());
      }
    }
  }
  if (held >= 0) {
    if (sc.op == kImportant && sc.old.size() > 0) {
      std::string c(sc.old.size() + 100, '\0');
      const ssize_t n = pread(held, c.data(), c.size(), 0);
      VH_CHECK(n == static_cast<ssize_t>(sc.old.size()) && c.compare(0, sc.old.size(), sc.old) == 0, "C14.reader",
               "a reader that had the file open sees other content; %s", what.c_str());
    }
    close(held);
  }
  std::error_code ec;
  std::filesystem::remove_all(dir, ec);
  uint64_t h = HashStr(what);
  Distinct(h);
  return run;
}

std::string GenData(Rng& r) {
  static const size_t sizes[] = {0, 1, 2, 100, 4095, 4096, 4097, 8192, 20000, 131071, 131072, 131073, 200000, 262143, 262144};
  const size_t n = r.Chance(2, 3) ? sizes[r.Below(sizeof sizes / sizeof *sizes)] : r.Below(30000);
  std::string s(n, '\0');
  uint64_t x = r.U64();
  for (size_t i = 0; i < n; i++) { if (i % 8 == 0) x = Mix(x); s[i] = static_cast<char>(x >> (8 * (i % 8))); }
  return r.Chance(1, 8) ? WithSpecial(r, s) : s;
}

void Case(uint64_t index, Rng& r, bool important) {
  Scenario sc;
  sc.op = important ? kImportant : r.Chance(1, 2) ? kRead : kWrite;
  const auto d = r.Below(16);
  sc.dest = d < 8 ? kFile : d < 12 ? (sc.op == kRead ? kFile : kAbsent) : d == 12 ? kLink : d == 13 ? kLinkUp : d == 14 ? kDir : kNoParent;
  if (sc.op == kRead && d == 11) sc.dest = kAbsent;
  sc.linked = important && (sc.dest == kFile || sc.dest == kLink) && r.Chance(1, 4);
  sc.how = r.Chance(1, 3) ? static_cast<int>(r.In(1, 2)) : 0;
  sc.data = GenData(r);
  sc.old = r.Chance(1, 8) ? "" : GenData(r);
  if (r.Chance(1, 4)) { sc.old = sc.data; for (auto& c : sc.old) c = static_cast<char>(~c); }
  static const std::vector<std::string> names = {"file", "a b", "x.tmp", ".hidden", "\xc3\xa9\xff", "very-long-name-0123456789-0123456789-0123456789-0123456789",
                                                 "{}%s\\"};
  sc.name = r.Pick(names);
  // Names with no room for the rest of the temporary one.
  static const size_t lengths[] = {127, 128, 200, 214, 215, 216, 217, 219, 220, 251, 252, 254, 255};
  if (r.Chance(1, 6)) sc.name = std::string(lengths[r.Below(13)], 'n');
  const Run base = OneRun(sc, {});
  Stat("file_calls", static_cast<uint64_t>(base.n));
  if (index % 40 == 0) Sample(sc.Str() + ": " + base.trace);
  auto errs = [&](Class c) -> std::vector<int> {
    switch (c) {
      case kOpen: return {EACCES, EMFILE, ENOSPC};
      case kReadC: return {EIO, EINTR, EISDIR};
      case kWriteC: return {ENOSPC, EIO, EINTR, EDQUOT, EFBIG};
      case kClose: return {EIO, ENOSPC, EINTR};
      case kRename: return {EXDEV, EACCES, ENOSPC, EBUSY};
      case kUnlink: return {EACCES, EBUSY, EIO};
      case kStat: return {EACCES, EIO, EOVERFLOW};
      case kSync: return {EIO};
      default: return {};
    }
  };
  auto faults_for = [&](int at, Class c) {
    std::vector<Fault> out;
    for (int e : errs(c)) {
      Fault f;
      f.at = at;
      f.kind = c == kClose ? kDoneErr : kErr;
      f.err = e;
      out.push_back(f);
    }
    if (c == kReadC || c == kWriteC) {
      for (uint64_t n : {uint64_t{1}, 1 + r.Below(4096), 1 + r.Below(sc.data.size() + 1)}) {
        Fault f;
        f.at = at;
        f.kind = kShort;
        f.arg = n;
        out.push_back(f);
      }
    }
    if (c == kStat && sc.op == kRead) {
      const uint64_t n = sc.data.size();
      for (uint64_t v : {uint64_t{0}, uint64_t{1}, n / 2, n ? n - 1 : 0, n + 1, 2 * n + 7, uint64_t{131070}, uint64_t{131071}, uint64_t{131072}, uint64_t{5000000}}) {
        Fault f;
        f.at = at;
        f.kind = kSize;
        f.arg = v;
        out.push_back(f);
      }
    }
    return out;
  };
  // All single faults.  A function that has failed goes on to other calls; they
  // are faulted as well (the second fault of a pair).
  for (int at = 0; at < base.n && at < 60; at++) {
    for (const Fault& f : faults_for(at, base.calls[static_cast<size_t>(at)])) {
      const Run run = OneRun(sc, {f});
      Stat("single_faults");
      for (int at2 = at + 1; at2 < run.n && at2 < at + 12; at2++) {
        const bool fresh = at2 >= base.n || run.calls[static_cast<size_t>(at2)] != base.calls[static_cast<size_t>(at2)];
        if (!fresh && !r.Chance(1, 12)) continue;
        auto second = faults_for(at2, run.calls[static_cast<size_t>(at2)]);
        if (second.empty()) continue;
        OneRun(sc, {f, second[r.Below(second.size())]});
        Stat("fault_pairs");
        if (important && r.Chance(1, 3)) {
          Fault k;
          k.at = at2;
          k.kind = r.Chance(1, 2) ? kKillBefore : kKillAfter;
          OneRun(sc, {f, k});
        }
      }
    }
    if (important) {
      for (FaultKind k : {kKillBefore, kKillAfter}) {
        Fault f;
        f.at = at;
        f.kind = k;
        OneRun(sc, {f});
        Stat("crash_points");
      }
    }
  }
}

}  // namespace

int main(int argc, char** argv) {
  Init(argc, argv);
  if (opt.scratch.empty()) { fprintf(stderr, "needs --scratch\n"); return 3; }
  g_shared = static_cast<Shared*>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  cpu_set_t cpus;
  CPU_ZERO(&cpus);
  const long ncpu = sysconf(_SC_NPROCESSORS_ONLN);
  CPU_SET(opt.shard % static_cast<uint64_t>(ncpu > 0 ? ncpu : 1), &cpus);
  (void)sched_setaffinity(0, sizeof cpus, &cpus);  // tracing is faster on one processor
  const bool important = opt.mode == "c14";
  ForCases([&](uint64_t i, Rng& r) { Case(i, r, important); }, important ? 114 : 113);
  Flush();
}
