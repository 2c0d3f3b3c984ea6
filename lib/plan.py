"""Which monitors decide which property."""


class Job:
    def __init__(self, harness, config, mode="", cases=(1000, 10000), shards=8, also=(), ignore=(), env=None,
                 tiers=("quick", "thorough"), func=None, targets=(), wrapper=(), transcript=False, args=(), exact=False):
        self.harness, self.config, self.mode, self.cases, self.shards = harness, config, mode, cases, shards
        self.also, self.ignore, self.env, self.tiers = also, ignore, env or {}, tiers
        self.func, self.targets, self.wrapper, self.transcript = func, targets, list(wrapper), transcript
        self.args, self.exact = list(args), exact


class Spec:
    def __init__(self, jobs, technique, rule, level="exploration", note="", assumptions=()):
        self.jobs, self.technique, self.rule, self.level, self.note = jobs, technique, rule, level, note
        self.assumptions = list(assumptions)


VS = ("the real library code runs under a seeded scheduler that owns every mutex, condition variable, thread, sleep and "
      "clock read")

CHECKS = {}


def pool(prop, mode, what):
    return Spec(
        [Job("pool", "vs", mode, cases=(16000, 400000)),
         Job("pool", "vs-nd", mode, cases=(6000, 150000))],
        "seeded-schedule execution with virtual time, event-log oracle, ASan+UBSan",
        "A case is a generated scenario (limit 1-4, keep-alive, posters, nested, delayed and synchronous-apply posts, tasks that "
        "wait for each other, destruction point) with one schedule; it is non-trivial if more than one task ran and more than "
        "four context switches happened, and distinct by the hash of its schedule and scenario.",
        note=what + " Sampled schedules and scenarios, not all of them; " + VS + ".",
        assumptions=["the wrappers model POSIX mutexes and condition variables (spurious wake-ups included)",
                     "sequentially consistent memory; data races are left to ThreadSanitizer (C21)"])


CHECKS["C01"] = pool("C01", "c01", "Every posted task must be run once, its callable released, without further calls.")
CHECKS["C02"] = pool("C02", "c02", "Start times are checked against the pool's own clock, start order against the post log.")
CHECKS["C03"] = pool("C03", "c03", "Running bodies are counted against the limit, and tasks that wait for each other must all start.")
CHECKS["C04"] = pool("C04", "c04", "Destruction at random points; nothing may run, live or be touched afterwards.")
CHECKS["C05"] = pool("C05", "c05", "Every index counted, apply's return checked against the ends of all calls; free-running calls under "
                     "ThreadSanitizer with plain memory for what the calls write.")
CHECKS["C05"].jobs.append(Job("free", "tsan", "apply", cases=(1600, 60000), shards=4))
CHECKS["C05"].technique += ", ThreadSanitizer on free-running threads with injected delays"


def model(prop, harness, mode, cases, technique, rule, note, configs=("asan", "asan-nd"), shards=4, extra=(), level="exploration",
          assumptions=(), first=None):
    jobs = []
    for i, c in enumerate(configs):
        n = cases if i == 0 else (max(1, cases[0] // 2), max(1, cases[1] // 2))
        jobs.append(Job(harness, c, mode, cases=n, shards=shards))
    return Spec(jobs + list(extra), technique, rule, level, note, assumptions)


CHECKS["C06"] = model(
    "C06", "polling", "", (32000, 600000), "seeded-schedule execution with virtual time, reference model of the due order, ASan+UBSan",
    "A case is a generated program of posters, polls and clock steps (nested posts, posts from other threads during a poll) with one "
    "schedule; distinct by the hash of the program and schedule.",
    "The order of a poll's tasks is compared with a model of due time and posting order; " + VS + ".",
    configs=("vs", "vs-nd"), shards=4)
CHECKS["C07"] = model(
    "C07", "barrier", "", (24000, 600000), "seeded-schedule execution with exact deadlock detection, ASan+UBSan",
    "A case is a count, waiters, counters and a destruction plan with one schedule; distinct by the hash of scenario and schedule.",
    "Early and lost releases and use of a destroyed barrier are observed; " + VS + ".",
    configs=("vs", "vs-nd"), shards=4, extra=[Job("free", "tsan", "barrier", cases=(1200, 60000), shards=4)])
CHECKS["C07"].technique += ", ThreadSanitizer on free-running threads with injected delays"
for _p in ("C01", "C02", "C03", "C04", "C05", "C07"):
    CHECKS[_p].jobs += [Job("longrun", "asan", _p.lower(), cases=({"C01": 200, "C02": 240, "C04": 120}.get(_p, 480), 20000), shards=2),
                        Job("longrun", "plain-nd", _p.lower(), cases=({"C04": 160}.get(_p, 400), 40000), shards=1)]
    CHECKS[_p].technique += ", long histories and large numbers on real threads"
CHECKS["C08"] = model(
    "C08", "timer", "", (60000, 2000000), "reference model of the timer stepped with a polling and a recording task runner, ASan+UBSan",
    "A case is a history of starts, fires, stops, clock steps, moves of time and destructions, also from inside tasks; distinct by its hash.",
    "Every start, fire, poll and destruction is compared with a model of the timer.")
CHECKS["C09"] = model(
    "C09", "weak", "", (60000, 2000000), "reference model of object lifetimes and pointer targets, ASan+UBSan+LSan",
    "A case is a history of creations, conversions, copies, moves, assignments and destructions of objects, factories and weak "
    "pointers, or of bound calls; distinct by its hash.",
    "After every step every pointer is read and compared with the model; freed objects are poisoned by ASan.")
CHECKS["C10"] = model(
    "C10", "value", "c10", (30000, 800000), "reference model tree compared after every step, debug rejections by death oracle, ASan+UBSan+LSan",
    "A case is a history of 5 to 40 edits of three trees (keys, paths, moves between and out of trees, clones); distinct by its hash.",
    "Every tree is compared as a whole with its model after every step.")
CHECKS["C11"] = model(
    "C11", "value", "c11", (60000, 2000000), "independent comparison and integer classification against exact arithmetic, UBSan, death oracle",
    "A case is a set of related values compared in all pairs with all six operators, or a number with its integer readings; distinct by its content.",
    "Order, equality and integer readings are compared with an independent definition.")
CHECKS["C12"] = model(
    "C12", "prefs", "", (16000, 400000), "map model of written and default values, every path read back after each write, ASan+UBSan, death oracle",
    "A case is a history of registrations, writes and reads on up to 10 dotted paths of one or two instances; distinct by its text.",
    "No path is a prefix of another (a precondition of the library). All registered paths are read after a write.")


def files(prop, mode, rule, note, assumptions):
    n = {"c13": (320, 6000), "c14": (240, 5000)}[mode]
    m = {"c13": (1600, 30000), "c14": (800, 12000)}[mode]
    return Spec([Job("faults", "plain", mode, cases=n, shards=6),
                 Job("faults", "plain-nd", mode, cases=(n[0] // 4, n[1] // 4), shards=2),
                 Job("files", "asan", mode, cases=m, shards=2),
                 Job("files", "asan-nd", mode, cases=(m[0] // 2, m[1] // 2), shards=1)],
                "system-call level fault injection with a tracer (ptrace), file state observed at every stop, ASan+UBSan on real and special files",
                rule, "fault_enumeration", note, assumptions)


CHECKS["C13"] = files(
    "C13", "c13",
    "A case is a file, a content and a call; every file system call it makes is failed with each of several errors, shortened or made "
    "to report a wrong size, in runs of their own, with pairs of faults. Runs are distinct by scenario, faults and resulting call trace.",
    "All single faults at all observed calls of each generated scenario, sampled pairs; the scenarios are sampled.",
    ["faults show at the system call boundary"])
CHECKS["C14"] = files(
    "C14", "c14",
    "A case is a destination, old and new content; every file system call of the write is failed, shortened, or the process is killed "
    "before or after it, in runs of their own, with pairs; the destination is read at every stop. Distinct by scenario, faults and trace.",
    "All single faults and all kill points at the system calls of each generated scenario, sampled pairs; scenarios are sampled. "
    "Loss of power is outside the property.",
    ["file contents change only in system calls of the process", "rename replaces atomically in the kernel"])
CHECKS["C15"] = model(
    "C15", "format", "", (60000, 2500000), "independent renderer, exactly sized buffers under ASan, canaries, death oracle, UBSan",
    "A case is a format string with its arguments, a concatenation, or an invalid format; distinct by its content.",
    "Every result is compared byte for byte with an independent rendering of the documented rules.")
CHECKS["C16"] = Spec(
    [Job("guid", "asan", cases=(16000, 600000), shards=4), Job("guid", "asan-nd", cases=(8000, 300000), shards=2),
     Job("guid", "tsan", cases=(1500, 60000), shards=2)],
    "uniqueness and form monitors over generation from many threads and processes, independent validity oracle, ThreadSanitizer",
    "A case is a batch of generated GUIDs (one or several threads) or a string given to the validity checks; distinct by text.",
    note="Uniqueness, fixed bits and the spread of every other digit over all generated GUIDs; near misses at every position.",
    assumptions=["the seeds of the random engine come from the operating system"])
CHECKS["C17"] = Spec(
    [Job("log", "asan", cases=(3000, 100000), shards=2), Job("log", "asan-nd", cases=(2000, 60000), shards=1),
     Job("log", "vs", "conc", cases=(2400, 60000), shards=2), Job("log", "vs-nd", "conc", cases=(800, 20000), shards=1),
     Job("log", "tsan", "conc", cases=(300, 8000), shards=2)],
    "line parser over the written file after every call, seeded schedules with I/O scheduling points, ThreadSanitizer, exit status oracle",
    "A case is a series of log calls (levels, messages of any bytes, sinks, threads) with its schedule; distinct by its hash.",
    note="Lines, order per thread, presence on return, level filter, closing and the end of the process after fatal; " + VS + ".")
CHECKS["C18"] = model(
    "C18", "status", "", (60000, 2500000), "reference model of outcomes and obligations, live-instance registry, death oracle in debug builds, ASan+UBSan+LSan",
    "A case is a history of 3 to 40 constructions, moves, assignments, queries and destructions of five Status or StatusOr<T> objects "
    "(eight value types); a third of the debug cases end in a violation that must be rejected. Distinct by history.",
    "Outcome, identity and content are compared after each query; every violation of the mandatory check must be rejected.")
CHECKS["C20"] = model(
    "C20", "rtti", "", (40000, 1500000), "exhaustive class pairs compared with the declared hierarchy, UBSan",
    "A case is an error of one of 28 classes (depth up to 8, three of the library) carried through a chain of statuses and queried for "
    "all classes; distinct by class, chain and data.",
    "All pairs of classes are queried and cast in every case.")
CHECKS["C25"] = model(
    "C25", "macros", "", (60000, 2000000), "execution traces compared with an independent interpretation of the same programs, ASan+UBSan+LSan, death oracle",
    "A case is a program of macros with a script of outcomes; distinct by program, return type and executed trace.",
    "Evaluations, scope exits, bound values and the identity of the returned error are compared; any debug rejection fails the run.")
CHECKS["C19"] = model(
    "C19", "notnull", "", (60000, 2500000), "reference model of targets, owners and checks, death oracle in debug builds, ASan+UBSan+LSan",
    "A case is a history of 3 to 60 constructions, conversions, copies, moves, assignments, comparisons and destructions of twelve "
    "wrappers over raw, unique or shared pointers to a base at an offset or the derived class; two fifths of the debug cases end in a "
    "violation that must be rejected. Distinct by history.",
    "Targets and owner counts of every wrapper are compared after every step; every sampled unchecked or null use must be rejected.")
CHECKS["C22"] = model(
    "C22", "algo", "", (60000, 2000000), "comparison with the standard algorithms on copies of the same containers, ASan+UBSan+LSan",
    "A case is one helper with a container, content and comparator, a function object history, or a hash of a sequence; distinct by its content.",
    "Results, effects and, for order-sensitive helpers, the exact resulting sequence are compared.")
CHECKS["C24"] = model(
    "C24", "misc", "defer", (40000, 1500000), "execution traces compared with an interpretation by hand, live-object registry, use during shutdown, ASan+UBSan+LSan",
    "A case is a nest of scopes with deferred actions and an exit path for each, or never-destroyed objects of one of four alignments in "
    "three forms; distinct by its trace.",
    "The same function static is also used from four threads, from exit handlers and from a static destructor.")
CHECKS["C26"] = model(
    "C26", "misc", "type", (60000, 2000000), "comparison of every operator with the underlying values, type traits, live-object registry, ASan+UBSan+LSan",
    "A case is a set of values of one of nine underlying types with all operators, hashes and transfers, or a history of clones and "
    "wrapped pointers; distinct by its content.",
    "One underlying type answers each of the six operators independently, so that none can stand in for another.")

CHECKS["C27"] = Spec(
    [Job("device", "asan", cases=(3000, 100000), shards=2), Job("device", "asan-nd", cases=(2000, 60000), shards=1),
     Job("device", "tsan", cases=(1500, 50000), shards=2)],
    "identity and repetition monitors over the devices of concurrently living threads, ThreadSanitizer",
    "A case is a set of 1 to 24 threads that take their device several times, directly and through GUID generation; distinct by its "
    "generator and by the numbers drawn.",
    note="Addresses seen by all threads alive at the same time, and every pair of numbers ever drawn, also from a forked process.",
    assumptions=["the numbers come from the operating system or the processor"])
CHECKS["C28"] = model(
    "C28", "misc", "helpers", (40000, 1500000), "execution against the stated effect, live-object registry, ASan+UBSan+LSan",
    "A case is one helper with a signature and arguments; distinct by its kind and generator.",
    "Emptiness, calls, arguments and evaluations are observed.")


def pair(harness, mode, cases, exact, config="plain", shards=2):
    return Job(harness, config, mode, cases=cases, shards=shards, func="pairs", exact=exact,
               targets=((harness, config), (harness, config + "-nd")), args=["--same"])


CHECKS["C23"] = Spec(
    [Job("misc", c, "check", cases=(20000, 600000), shards=1) for c in ("asan", "asan-nd", "plain", "plain-nd")] +
    [pair("value", "c10", (12000, 600000), True), pair("value", "c11", (30000, 1500000), True),
     pair("prefs", "", (6000, 300000), True), pair("format", "", (30000, 1500000), True),
     pair("status", "", (30000, 1500000), True), pair("notnull", "", (30000, 1500000), True),
     pair("rtti", "", (10000, 400000), True), pair("macros", "", (20000, 1000000), True),
     pair("algo", "", (20000, 800000), True), pair("timer", "", (30000, 1500000), True),
     pair("weak", "", (30000, 1500000), True), pair("misc", "defer", (10000, 400000), True),
     pair("misc", "type", (10000, 400000), True), pair("misc", "helpers", (10000, 400000), True),
     pair("device", "", (600, 20000), False, shards=1),
     pair("guid", "", (2000, 60000), False, shards=1), pair("log", "", (600, 20000), False, "asan", shards=1),
     pair("files", "c13", (300, 8000), False, "asan", shards=1), pair("files", "c14", (150, 4000), False, "asan", shards=1),
     pair("pool", "c01", (1200, 60000), False, "vs"), pair("pool", "c02", (1200, 60000), False, "vs"),
     pair("pool", "c04", (1200, 60000), False, "vs"), pair("pool", "c05", (1200, 60000), False, "vs"),
     pair("barrier", "", (2000, 60000), False, "vs", shards=1), pair("polling", "", (3000, 80000), False, "vs", shards=1),
     pair("log", "conc", (300, 8000), False, "vs", shards=1)],
    "differential runs of the same valid programs in debug and release builds (different optimisation levels), transcript comparison, death and evaluation oracles for the check macros",
    "A case is a valid program of one component (the generators of the other checks, keeping the preconditions) run in both builds, or a "
    "use of a check macro with its verdict and number of evaluations; distinct by program.",
    note="Single-threaded components by equality of transcripts of all results; concurrent ones, files, logs and GUIDs by their own "
         "monitors passing or failing in both builds.")


def memory(harness, mode, cases, configs=("asan", "asan-nd"), shards=1, **kw):
    return [Job(harness, c, mode, cases=cases, shards=shards, ignore=("hang",), **kw) for c in configs]


def uninit(harness, mode, cases, shards=1):
    return Job(harness, "clang", mode, cases=cases, shards=shards, ignore=("hang",), args=["--same"],
               wrapper=["valgrind", "-q", "--error-exitcode=99", "--leak-check=no", "--num-callers=20", "--fair-sched=yes"])


QT = ("quick", "thorough")
CHECKS["C21"] = Spec(
    [j for jobs in (
        [Job("free", "tsan", m, cases=(800, 40000), shards=2, ignore=("hang",)) for m in ("pool", "polling", "mix", "apply", "barrier")],
        [Job("free", "tsan-nd", m, cases=(300, 20000), ignore=("hang",), tiers=("thorough",)) for m in ("pool", "polling", "mix", "apply", "barrier")],
        [Job("free", "asan", m, cases=(300, 20000), shards=1, ignore=("hang",)) for m in ("pool", "mix")],
        [Job("log", "tsan", "conc", cases=(160, 6000), shards=1, ignore=("hang",)),
         Job("guid", "tsan", "", cases=(600, 30000), shards=1, ignore=("hang",)),
         Job("device", "tsan", "", cases=(400, 30000), shards=1, ignore=("hang",))],
        memory("value", "c10", (6000, 300000)), memory("value", "c11", (8000, 300000)), memory("prefs", "", (3000, 150000)),
        memory("format", "", (12000, 500000)), memory("status", "", (12000, 500000)), memory("notnull", "", (12000, 500000)),
        memory("weak", "", (12000, 500000)), memory("timer", "", (12000, 500000)), memory("rtti", "", (4000, 200000)),
        memory("macros", "", (8000, 400000)), memory("algo", "", (12000, 400000)), memory("misc", "defer", (8000, 300000)),
        memory("misc", "type", (8000, 300000)), memory("misc", "helpers", (4000, 200000)), memory("device", "", (400, 20000)), memory("guid", "", (2000, 100000)), memory("log", "", (500, 20000)),
        memory("files", "c13", (300, 8000)), memory("files", "c14", (150, 4000)),
        memory("pool", "c01", (800, 60000), ("vs", "vs-nd")), memory("pool", "c04", (1600, 80000), ("vs", "vs-nd")),
        memory("pool", "c05", (800, 60000), ("vs", "vs-nd")), memory("barrier", "", (2000, 80000), ("vs", "vs-nd")),
        memory("polling", "", (2000, 80000), ("vs", "vs-nd")),
        [Job("longrun", "tsan", m, cases=(40, 3000), shards=1, ignore=("hang",)) for m in ("c01", "c03", "c04", "c05", "c07")], memory("log", "conc", (300, 8000), ("vs", "vs-nd")),
        [uninit(h, m, c) for h, m, c in (
            ("value", "c10", (120, 6000)), ("value", "c11", (200, 8000)), ("prefs", "", (60, 4000)), ("format", "", (400, 20000)),
            ("status", "", (300, 15000)), ("notnull", "", (300, 15000)), ("weak", "", (300, 15000)), ("timer", "", (300, 15000)),
            ("rtti", "", (40, 2000)), ("macros", "", (200, 10000)), ("algo", "", (300, 15000)), ("misc", "defer", (150, 8000)),
            ("misc", "type", (200, 10000)), ("guid", "", (40, 2000)), ("log", "", (30, 1500)), ("files", "c13", (40, 1500)),
            ("files", "c14", (30, 1000)), ("free", "pool", (20, 600)), ("free", "mix", (10, 400)))],
    ) for j in jobs],
    "AddressSanitizer, UndefinedBehaviorSanitizer, LeakSanitizer, ThreadSanitizer and valgrind over the valid programs of all other checks, sequential, scheduled and free-running",
    "A case is one valid program of a component's generator; it counts for this property only by sanitizer and valgrind reports, "
    "unexpected aborts and leaks. Distinct by the generators' own hashes.",
    note="Every public component in debug and release builds; uninitialised reads by valgrind on an unoptimised build; races by "
         "ThreadSanitizer on real threads with injected delays. Precise, but only for what the sampled executions do.",
    assumptions=["the sanitizers' own coverage: intra-object overflows and use of moved-from objects are not detected as such"])
