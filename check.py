#!/usr/bin/env python3
"""Runs the monitors.

  check.py <property> [quick|thorough]   decides one property
  check.py setup                         builds everything the quick checks need
  check.py replay <file>                 runs a recorded violation again
"""
import concurrent.futures
import copy
import json
import os
import re
import shutil
import signal
import struct
import subprocess
import sys
import tempfile
import threading
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "lib"))
import build  # noqa: E402
import plan  # noqa: E402

WORKERS = 8

# Nothing is started after this many seconds, and nothing runs for longer.
TIME_LIMIT = {"quick": 480, "thorough": 6 * 3600}

BASE_ENV = {
    "ASAN_OPTIONS": "detect_leaks=1:exitcode=86:abort_on_error=0:handle_abort=0:handle_sigill=0:"
                    "detect_stack_use_after_return=1:strict_string_checks=1:check_initialization_order=1:"
                    "detect_invalid_pointer_pairs=0:allocator_may_return_null=0:print_summary=1:"
                    "max_free_fill_size=4096:free_fill_byte=90:malloc_fill_byte=165:max_malloc_fill_size=65536",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:handle_abort=0:exitcode=87",
    "TSAN_OPTIONS": "halt_on_error=1:exitcode=66:second_deadlock_stack=1:history_size=4",
    "LSAN_OPTIONS": "exitcode=23",
}


def sanitizer_summary(out):
    for pat in (r"SUMMARY: \S+Sanitizer: .*", r"\S+: runtime error: .*", r"ERROR: \S+Sanitizer:? .*",
                r"WARNING: ThreadSanitizer: .*", r".*Assertion .* failed.*", r"==\d+== (?:Invalid|Conditional|Use of).*",
                r"Check failed.*"):
        m = re.search(pat, out)
        if m:
            return m.group(0).strip()[:300]
    return ""


class Control:
    """When the processes of a check have to end."""

    def __init__(self, tier):
        self.stop = threading.Event()
        self.deadline = time.time() + TIME_LIMIT[tier]


class Shard:
    """One process of one job."""

    def __init__(self, control, job, binary, idx, cases, seed, scratch, tier, only=None, start=0, timeout=None):
        self.control = control
        self.job, self.binary, self.idx, self.cases, self.seed = job, binary, idx, cases, seed
        self.tier, self.only, self.start = tier, only, start
        self.dir = tempfile.mkdtemp(prefix="%s-%s-%d-" % (job.harness, job.config, idx), dir=scratch)
        self.timeout = timeout or (150 if tier == "quick" else 1500)

    def args(self):
        j = self.job
        a = [self.binary, "--seed", str(self.seed), "--cases", str(self.cases), "--shard", str(self.idx),
             "--shards", str(j.shards), "--scratch", self.dir + "/work", "--hashes", os.path.join(self.dir, "hashes")]
        if j.mode:
            a += ["--mode", j.mode]
        if self.only is not None:
            a += ["--only", str(self.only)]
        if self.start:
            a += ["--from", str(self.start)]
        a += j.args
        if j.transcript:
            a += ["--transcript", os.path.join(self.dir, "transcript")]
        return j.wrapper + a

    def run(self):
        env = dict(os.environ)
        env.update(BASE_ENV)
        for k, v in self.job.env.items():
            env[k] = env[k] + ":" + v if k in env and k.endswith("_OPTIONS") else v
        env["TMPDIR"] = self.dir
        work = os.path.join(self.dir, "work")
        os.makedirs(work, exist_ok=True)
        p = subprocess.Popen(self.args(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, cwd=work,
                             stdin=subprocess.DEVNULL, start_new_session=True)
        self.hung = self.stopped = False
        t0 = time.time()
        out = None
        while out is None:
            left = self.timeout - (time.time() - t0)
            self.stopped = self.control.stop.is_set() or time.time() > self.control.deadline
            if left <= 0 or self.stopped:
                break
            try:
                out, _ = p.communicate(timeout=min(left, 1))
            except subprocess.TimeoutExpired:
                pass
        if out is None:
            self.hung = not self.stopped
            p.send_signal(signal.SIGTERM)
            try:
                out, _ = p.communicate(timeout=10)
            except subprocess.TimeoutExpired:
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except OSError:
                    pass
                out, _ = p.communicate()
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        self.wall = time.time() - t0
        self.rc = p.returncode
        self.out = out.decode("utf-8", "replace")
        return self

    def parse(self):
        r = {"stats": {}, "samples": [], "fail": None}
        for line in self.out.splitlines():
            if line.startswith("@STAT "):
                k, _, v = line[6:].rpartition(" ")
                if k and v.isdigit():  # a process ended by a signal can leave half a line
                    r["stats"][k] = r["stats"].get(k, 0) + int(v)
            elif line.startswith("@SAMPLE "):
                r["samples"].append(line[8:])
        m = re.search(r"^@FAIL key=(\S+) case=(-?\d+) seed=\d+ msg=(.*)$", self.out, re.M)
        if m:
            r["fail"] = {"key": m.group(1), "case": int(m.group(2)), "msg": m.group(3)}
            return r
        case = -1
        m = re.search(r"^@(?:DIED|HANG) case=(-?\d+)", self.out, re.M)
        if m:
            case = int(m.group(1))
        if self.stopped:
            return r
        if self.hung:
            r["fail"] = {"key": "hang", "case": case, "msg": "no end after %d s" % self.timeout}
            return r
        if self.rc != 0:
            if "LeakSanitizer has encountered a fatal error" in self.out:
                r["fail"] = {"key": "lsan-unavailable", "case": -1, "msg": "LeakSanitizer cannot run here"}
                return r
            if self.rc == 23 or "detected memory leaks" in self.out:
                key = "leak"
            elif "ThreadSanitizer: data race" in self.out:
                key = "race"
            elif self.rc == -9:
                key = "killed"
            elif self.rc == 3:
                key = "harness"
            elif self.rc == 2:
                key = "harness"
            else:
                key = "crash"
            r["fail"] = {"key": key, "case": case,
                         "msg": sanitizer_summary(self.out) or "exit status %d: %s" % (self.rc, self.out[-300:])}
        return r

    def hashes(self):
        try:
            with open(os.path.join(self.dir, "hashes"), "rb") as f:
                d = f.read()
            return set(struct.unpack("<%dQ" % (len(d) // 8), d))
        except OSError:
            return set()

    def cleanup(self):
        for root, dirs, _ in os.walk(self.dir):
            for d in dirs:
                try:
                    os.chmod(os.path.join(root, d), 0o700)
                except OSError:
                    pass
        shutil.rmtree(self.dir, ignore_errors=True)


def transcript_hash(out):
    m = re.search(r"^@TRANSCRIPT (\w+)", out, re.M)
    return m.group(1) if m else None


def first_difference(a, b):
    """The first line in which two transcripts differ: (case, text)."""
    with open(a, errors="replace") as fa, open(b, errors="replace") as fb:
        while True:
            la, lb = fa.readline(), fb.readline()
            if la != lb:
                case = (la or lb).split(" ", 1)[0]
                return (int(case) if case.lstrip("-").isdigit() else -1,
                        "debug build: %s | release build: %s" % (la.strip()[:600], lb.strip()[:600]))
            if not la:
                return -1, "no difference"


def pairs(check, job, bins, scratch, idx):
    """Runs the same cases in a debug and a release build and compares what was observed."""
    if check.stop.is_set() or time.time() > check.deadline:
        check.skipped += 1
        return []
    debug_config, release_config = job.config, job.config + "-nd"
    cases = job.cases[0 if check.tier == "quick" else 1]
    got = []
    for c in (debug_config, release_config):
        j = copy.copy(job)
        j.config = c
        sh = Shard(check, j, bins[(job.harness, c)], idx, cases, check.seed, scratch, check.tier).run()
        got.append((j, sh, sh.parse()))
    (dj, dsh, dr), (rj, rsh, rr) = got
    res = [(dsh, dr, "note"), (rsh, rr, "note")]
    if dsh.stopped or rsh.stopped:
        return res
    for _, sh, r in got:
        if r["fail"] and r["fail"]["key"] in ("harness", "killed", "lsan-unavailable"):
            check.errors.append("%s: %s" % (r["fail"]["key"], r["fail"]["msg"][:500]))
            return res
    if dr["fail"] is None and rr["fail"] is None:
        if not job.exact or transcript_hash(dsh.out) == transcript_hash(rsh.out):
            return res
        paths = []
        for j in (dj, rj):
            j = copy.copy(j)
            j.transcript = True
            sh = Shard(check, j, bins[(job.harness, j.config)], idx, cases, check.seed, scratch, check.tier).run()
            paths.append(sh)
        case, text = first_difference(*[os.path.join(p.dir, "transcript") for p in paths])
        stopped = any(p.stopped for p in paths)
        for p in paths:
            p.cleanup()
        if stopped:
            return res
        check.violation(rj, rsh, {"key": "C23.diff", "case": case, "msg": text})
        return res
    if (dr["fail"] or {}).get("key") == (rr["fail"] or {}).get("key"):
        return res  # the same in both builds: a matter of another property
    # One build fails and the other does not.  Only if the other one really never does is the difference the build's.
    bad, good = (got[0], got[1]) if dr["fail"] else (got[1], got[0])
    if bad[2]["fail"]["key"] == "race":
        return res
    if not (job.exact and good[2]["fail"] is None):
        for s in range(4):
            j = copy.copy(good[0])
            again = Shard(check, j, bins[(job.harness, j.config)], idx, cases, check.seed + 1000 + s, scratch, check.tier).run()
            ar = again.parse()
            again.cleanup()
            if ar["fail"] or again.stopped:
                return res
    f = dict(bad[2]["fail"])
    f["msg"] = "only in the %s build: %s: %s" % ("debug" if bad is got[0] else "release", f["key"], f["msg"])
    f["key"] = "C23.build"
    check.violation(bad[0], bad[1], f)
    return res


FUNCS = {"pairs": pairs}


def load_findings():
    out = []
    try:
        with open(os.path.join(VERIF, "KNOWN_FINDINGS.txt")) as f:
            for line in f:
                m = re.match(r"known: property=(\S+) match=(\S+) (.*)", line.strip())
                if m:
                    out.append((m.group(1), re.compile(m.group(2)), m.group(3)))
    except OSError:
        pass
    return out


class Check(Control):
    def __init__(self, prop, tier):
        super().__init__(tier)
        self.prop, self.tier = prop, tier
        self.seed = int(os.environ.get("VERIF_SEED", "1") or "1")
        self.spec = plan.CHECKS[prop]
        self.violations, self.errors, self.notes, self.known = [], [], [], []
        self.skipped = 0
        self.stats, self.samples, self.distinct = {}, [], set()
        self.jobs_done = []
        self.replays = {}

    def counts(self, job, key):
        """Does a failure with this key decide the property of this check?"""
        if key in ("crash", "hang", "leak", "race"):
            return key not in job.ignore
        return any(key.startswith(k) for k in [self.prop + "."] + list(job.also))

    def violation(self, job, shard, fail):
        for prop, rx, what in load_findings():
            if prop == self.prop and rx.search(fail["key"] + " " + fail["msg"]):
                self.known.append("%s (%s)" % (what, fail["key"]))
                return
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        path = os.path.join(VERIF, "replays", "%s-%s-%s-%d-%d.json" % (
            self.prop, job.harness, job.config, self.seed, fail["case"]))
        with open(path, "w") as f:
            json.dump({"property": self.prop, "tier": self.tier, "seed": self.seed, "harness": job.harness,
                       "config": job.config, "mode": job.mode, "case": fail["case"], "cases": shard.cases,
                       "shard": shard.idx, "shards": job.shards, "key": fail["key"], "message": fail["msg"],
                       "output": shard.out[-20000:]}, f, indent=1)
        self.violations.append((path, fail, job))
        self.stop.set()  # the rest would only find more of it

    def run_shard(self, job, binary, idx, cases, scratch):
        """Runs a shard; failures that belong to other properties are passed over."""
        res = []
        if self.stop.is_set() or time.time() > self.deadline:
            self.skipped += 1
            return res
        start, tries, retried, hangs = 0, 0, False, 0
        while True:
            sh = Shard(self, job, binary, idx, cases, self.seed, scratch, self.tier, start=start).run()
            r = sh.parse()
            fail = r["fail"]
            if fail and fail["key"] == "lsan-unavailable":
                job.env["ASAN_OPTIONS"] = "detect_leaks=0"
                if not retried:
                    retried = True
                    sh.cleanup()
                    continue
            if fail and fail["key"] == "killed" and not retried:
                retried = True
                sh.cleanup()
                continue
            if fail and fail["key"] == "hang":
                # Only a case that does not end on its own either is a hang.
                again = Shard(self, job, binary, idx, cases, self.seed, scratch, self.tier, only=fail["case"],
                              timeout=120 if self.tier == "quick" else 600).run()
                ar = again.parse()
                again.cleanup()
                if ar["fail"] is None:
                    res.append((sh, r, "stopped" if again.stopped else "slow"))
                    return res
            if fail and not self.counts(job, fail["key"]) and fail["key"] not in ("harness", "killed") \
                    and fail["case"] >= 0 and tries < 40:
                tries += 1
                res.append((sh, r, "other"))
                start = fail["case"] + 1
                hangs += fail["key"] == "hang"
                if hangs >= 3 or self.stop.is_set() or time.time() > self.deadline:
                    return res
                continue
            if fail and self.counts(job, fail["key"]):
                self.violation(job, sh, fail)
                res.append((sh, r, "counted"))
            else:
                res.append((sh, r, None))
            return res

    def run(self):
        t0 = time.time()
        jobs = [j for j in self.spec.jobs if self.tier in j.tiers]
        targets = sorted({(j.harness, j.config) for j in jobs} |
                         {t for j in jobs for t in j.targets})
        try:
            bins = build.build(targets, WORKERS)
        except build.BuildError as e:
            print(e)
            print("ERROR: build failed")
            return 2
        t_build = time.time() - t0
        scratch = tempfile.mkdtemp(prefix="rstverif-")
        os.chmod(scratch, 0o755)
        try:
            work = []
            with concurrent.futures.ThreadPoolExecutor(WORKERS) as ex:
                for j in jobs:
                    j.env = dict(j.env)
                    if j.func:
                        for i in range(j.shards):
                            work.append((j, ex.submit(FUNCS[j.func], self, j, bins, scratch, i)))
                        continue
                    cases = j.cases[0 if self.tier == "quick" else 1]
                    for i in range(j.shards):
                        work.append((j, ex.submit(self.run_shard, j, bins[(j.harness, j.config)], i, cases, scratch)))
                for j, f in work:
                    r = f.result()
                    for sh, parsed, how in (r or []):
                        self.collect(j, sh, parsed, how)
        finally:
            for root, dirs, _ in os.walk(scratch):
                for d in dirs:
                    try:
                        os.chmod(os.path.join(root, d), 0o700)
                    except OSError:
                        pass
            shutil.rmtree(scratch, ignore_errors=True)
        self.evidence(time.time() - t0, t_build)
        for k in sorted(set(self.known)):
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k))
        for e in self.errors:
            print("ERROR: " + e)
        if self.violations:
            for path, fail, job in self.violations[:8]:
                print("%s [%s/%s] case %d: %s" % (fail["key"], job.harness, job.config, fail["case"], fail["msg"][:1500]))
            print("VIOLATION property=%s replay=%s" % (self.prop, self.violations[0][0]))
            return 1
        if self.errors:
            return 2
        print("%s: held on everything explored (%d cases, %d distinct, %.1f s)" % (
            self.prop, self.stats.get("cases", 0), len(self.distinct), time.time() - t0))
        return 0

    def collect(self, job, sh, r, how):
        if os.environ.get("VERIF_TIMES"):
            print("%6.1f s %s/%s/%s shard %d" % (sh.wall, job.harness, sh.job.config, job.mode, sh.idx))
        for k, v in r["stats"].items():
            self.stats[k] = self.stats.get(k, 0) + v
            pk = "%s/%s%s" % (job.harness, job.config, "/" + job.mode if job.mode else "")
            if k == "cases":
                self.stats.setdefault("cases in " + pk, 0)
                self.stats["cases in " + pk] += v
        if len(self.samples) < 6:
            self.samples += ["[%s/%s] %s" % (job.harness, job.config, s) for s in r["samples"][:1]]
        self.distinct |= sh.hashes()
        fail = r["fail"]
        if how == "other":
            self.notes.append("passed over %s (case %d): %s" % (fail["key"], fail["case"], fail["msg"][:300]))
        elif how == "note":
            if fail:
                self.notes.append("in one of two builds: %s: %s" % (fail["key"], fail["msg"][:300]))
        elif how == "slow":
            self.notes.append("a shard ran out of time: %s/%s" % (job.harness, job.config))
        elif fail and how is None:
            if fail["key"] in ("harness", "killed", "lsan-unavailable"):
                self.errors.append("%s/%s: %s %s" % (job.harness, job.config, fail["key"], fail["msg"][:1000]))
                if fail["key"] == "harness":
                    self.errors.append(sh.out[-1500:])
            else:
                self.notes.append("stopped at %s: %s" % (fail["key"], fail["msg"][:300]))
        sh.cleanup()

    def evidence(self, wall, t_build):
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        ev = {
            "property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.spec.level,
            "coverage": {
                "evaluations": self.stats.get("cases", 0),
                "distinct_nontrivial": len(self.distinct),
                "rule": self.spec.rule,
                "samples": self.samples or ["(no sample recorded)"],
                "observed": {k: v for k, v in sorted(self.stats.items()) if k != "cases"},
            },
            "assumptions": self.spec.assumptions,
            "wall_s": round(wall, 2),
            "build_s": round(t_build, 2),
            "violations": len(self.violations),
        }
        if self.skipped:
            ev["shards_not_run"] = self.skipped
        if self.notes:
            ev["notes"] = self.notes[:20]
        if self.known:
            ev["known_findings"] = sorted(set(self.known))
        path = os.path.join(VERIF, "evidence", self.prop + ".json")
        with open(path + ".tmp", "w") as f:
            json.dump(ev, f, indent=1)
        os.replace(path + ".tmp", path)


def setup():
    targets = sorted({(j.harness, j.config) for c in plan.CHECKS.values() for j in c.jobs
                      if "quick" in j.tiers} |
                     {t for c in plan.CHECKS.values() for j in c.jobs if "quick" in j.tiers for t in j.targets})
    t0 = time.time()
    try:
        build.build(targets, WORKERS)
    except build.BuildError as e:
        print(e)
        return 2
    print("built %d harness binaries in %.0f s" % (len(targets), time.time() - t0))
    return 0


def replay(path):
    with open(path) as f:
        d = json.load(f)
    job = next(j for j in plan.CHECKS[d["property"]].jobs
               if j.harness == d["harness"] and j.mode == d["mode"] and
               d["config"] in [j.config] + [c for h, c in j.targets if h == j.harness])
    job = copy.copy(job)
    job.config = d["config"]
    bins = build.build([(job.harness, job.config)])
    scratch = tempfile.mkdtemp(prefix="rstverif-")
    sh = Shard(Control(d["tier"]), job, bins[(job.harness, job.config)], d["shard"], d["cases"], d["seed"], scratch, d["tier"],
               only=d["case"] if d["case"] >= 0 else None).run()
    print(sh.out)
    shutil.rmtree(scratch, ignore_errors=True)
    return 1 if sh.parse()["fail"] else 0


def main():
    if len(sys.argv) < 2:
        print(__doc__)
        return 2
    if sys.argv[1] == "setup":
        return setup()
    if sys.argv[1] == "replay":
        return replay(sys.argv[2])
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    build.prune()
    return Check(sys.argv[1], tier).run()


if __name__ == "__main__":
    sys.exit(main())
