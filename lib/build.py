"""Builds harnesses against the library sources in /repo, with a cache.

An object is reused only if the compile command and the contents of every
file it was compiled from (under /repo and /verif) are the same.
"""
import concurrent.futures
import fcntl
import hashlib
import os
import subprocess
import sys
import tempfile

REPO = "/repo"
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(VERIF, "build")

COMMON = ["-std=c++17", "-fno-exceptions", "-fno-rtti", "-I" + REPO,
          "-I" + os.path.join(VERIF, "lib"), "-pthread",
          "-Wno-unknown-pragmas", "-Wno-unknown-warning-option", "-w"]
SAN = ["-O1", "-gline-tables-only", "-fno-omit-frame-pointer",
       "-fsanitize=address,undefined,float-cast-overflow",
       "-fno-sanitize=vptr", "-fno-sanitize-recover=all",
       "-D_GLIBCXX_ASSERTIONS"]
COV = ["-fsanitize-coverage=edge,trace-loads,trace-stores"]
TSAN = ["-O1", "-gline-tables-only", "-fno-omit-frame-pointer", "-fsanitize=thread"]

# name -> compiler, flags, extra flags for library code, link flags
CONFIGS = {
    "asan": ("clang++", SAN, [], []),
    "asan-nd": ("clang++", SAN + ["-DNDEBUG"], [], []),
    "vs": ("clang++", SAN + ["-DVH_VS"], COV, ["@vsched"]),
    "vs-nd": ("clang++", SAN + ["-DVH_VS", "-DNDEBUG"], COV, ["@vsched"]),
    "tsan": ("clang++", TSAN, [], []),
    "tsan-nd": ("clang++", TSAN + ["-DNDEBUG"], [], []),
    "plain": ("g++", ["-O1", "-g1"], [], []),
    "plain-nd": ("g++", ["-O2", "-g1", "-DNDEBUG"], [], []),
    "clang": ("clang++", ["-O0", "-gline-tables-only"], [], []),
}


class BuildError(Exception):
    pass


_sha = {}


def file_sha(path):
    h = _sha.get(path)
    if h is None:
        try:
            with open(path, "rb") as f:
                h = hashlib.sha256(f.read()).hexdigest()
        except OSError:
            h = "missing"
        _sha[path] = h
    return h


def digest(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p.encode())
        h.update(b"\0")
    return h.hexdigest()[:32]


def deps_key(cmdkey, deps):
    return digest(cmdkey, *[d + "=" + file_sha(d) for d in deps])


def atomic_write(path, data):
    d = os.path.dirname(path)
    fd, tmp = tempfile.mkstemp(dir=d)
    with os.fdopen(fd, "w") as f:
        f.write(data)
    os.replace(tmp, path)


def compile_unit(src, cxx, flags):
    """Returns the path of an up-to-date object for |src|."""
    odir = os.path.join(BUILD, "obj")
    cmd = [cxx] + COMMON + flags
    cmdkey = digest(src, *cmd)
    manifest = os.path.join(odir, cmdkey + ".deps")
    sets = []
    if os.path.exists(manifest):
        with open(manifest) as f:
            sets = [l.split("\t") for l in f.read().splitlines() if l]
        for deps in sets:
            obj = os.path.join(odir, deps_key(cmdkey, deps) + ".o")
            if os.path.exists(obj):
                return obj
    fd, tmp = tempfile.mkstemp(dir=odir, suffix=".o")
    os.close(fd)
    dfile = tmp + ".d"
    def go(extra):
        return subprocess.run(cmd + extra + ["-MD", "-MF", dfile, "-c", src, "-o", tmp],
                              stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    p = go([])
    if p.returncode != 0 and src.startswith(VERIF + "/harness/"):
        # The library may have stopped accepting some use: watch the rest of it.
        q = go(["-DVH_REDUCED"])
        if q.returncode == 0:
            print("NOTE: %s does not compile as a whole, its reduced form does" % os.path.basename(src))
            p = q
    if p.returncode != 0:
        for f in (tmp, dfile):
            if os.path.exists(f):
                os.unlink(f)
        raise BuildError("cannot compile %s:\n%s" % (src, p.stdout[-6000:]))
    with open(dfile) as f:
        text = f.read().replace("\\\n", " ")
    os.unlink(dfile)
    words = text.split(":", 1)[1].split()
    deps = sorted({os.path.normpath(w) for w in words})
    deps = [d for d in deps if d.startswith(REPO + "/") or d.startswith(VERIF + "/")]
    if deps not in sets:
        sets = [deps] + sets[:20]
        atomic_write(manifest, "\n".join("\t".join(s) for s in sets) + "\n")
    obj = os.path.join(odir, deps_key(cmdkey, deps) + ".o")
    os.replace(tmp, obj)
    return obj


def lib_sources():
    out = []
    for root, dirs, files in os.walk(os.path.join(REPO, "rst")):
        dirs.sort()
        for f in sorted(files):
            if f.endswith((".cc", ".cpp", ".cxx")) and not f.endswith(("_test.cc", "_tests.cc", "_unittest.cc")):
                out.append(os.path.join(root, f))
    return out


def test_sources():
    out = []
    for root, dirs, files in os.walk(os.path.join(REPO, "rst")):
        dirs.sort()
        out += [os.path.join(root, f) for f in sorted(files) if f.endswith("_test.cc")]
    return out


def build(targets, jobs=8):
    """targets: list of (harness, config).  Returns {(harness, config): binary}."""
    os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
    os.makedirs(os.path.join(BUILD, "bin"), exist_ok=True)
    _sha.clear()
    units = {}
    per = {}
    for harness, config in targets:
        cxx, flags, lib_extra, link = CONFIGS[config]
        mine = []
        if harness == "repo_tests":
            for s in test_sources():
                mine.append((s, cxx, tuple(flags)))
        else:
            mine.append((os.path.join(VERIF, "harness", harness + ".cc"), cxx, tuple(flags)))
        for s in lib_sources():
            mine.append((s, cxx, tuple(flags + lib_extra)))
        if "@vsched" in link:
            vflags = flags
            mine.append((os.path.join(VERIF, "lib", "vsched.cc"), cxx, tuple(vflags)))
        per[(harness, config)] = mine
        for u in mine:
            units[u] = None
    order = sorted(units, key=lambda u: (0 if "/harness/" in u[0] else 1))
    with concurrent.futures.ThreadPoolExecutor(jobs) as ex:
        futs = {u: ex.submit(compile_unit, u[0], u[1], list(u[2])) for u in order}
        err = None
        for u, f in futs.items():
            try:
                units[u] = f.result()
            except BuildError as e:
                err = err or e
        if err:
            raise err
        bins = {}
        lf = {}
        for t, mine in per.items():
            cxx, flags, lib_extra, link = CONFIGS[t[1]]
            lflags = []
            if "@vsched" in link:
                with open(os.path.join(VERIF, "lib", "vsched.flags")) as f:
                    lflags += f.read().split()
            if t[0] == "repo_tests":
                lflags += ["-lgtest", "-lgmock", "-lgtest_main"]
            objs = [units[u] for u in mine]
            out = os.path.join(BUILD, "bin", "%s.%s.%s" % (t[0], t[1], digest(*(objs + lflags))))
            bins[t] = out
            if not os.path.exists(out):
                lf[t] = ex.submit(_link, cxx, [f for f in flags + lib_extra if not f.startswith("-D")], objs, lflags, out)
        for t, f in lf.items():
            f.result()
    return bins


def _link(cxx, flags, objs, lflags, out):
    fd, tmp = tempfile.mkstemp(dir=os.path.dirname(out))
    os.close(fd)
    p = subprocess.run([cxx, "-pthread"] + flags + ["-o", tmp] + objs + lflags + ["-ldl"],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        os.unlink(tmp)
        raise BuildError("cannot link %s:\n%s" % (out, p.stdout[-6000:]))
    os.chmod(tmp, 0o755)
    os.replace(tmp, out)


def prune(limit_bytes=3 << 30):
    """Keeps the cache from growing without bound."""
    files = []
    total = 0
    for sub in ("obj", "bin"):
        d = os.path.join(BUILD, sub)
        if not os.path.isdir(d):
            continue
        for f in os.listdir(d):
            p = os.path.join(d, f)
            try:
                st = os.stat(p)
            except OSError:
                continue
            files.append((st.st_mtime, st.st_size, p))
            total += st.st_size
    files.sort()
    for _, size, p in files:
        if total <= limit_bytes:
            break
        try:
            os.unlink(p)
        except OSError:
            pass
        total -= size
