#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text stays readable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=hook)))

TP = ["rst/task_runner/thread_pool_task_runner.h", "rst/task_runner/thread_pool_task_runner.cc",
      "rst/task_runner/task_runner.h", "rst/task_runner/item.h", "rst/task_runner/iteration_item.h"]
p("C01", "Thread pool runs every posted task exactly once and never loses one",
  "While a thread pool is alive, every task posted to it from any thread (including from inside its own tasks), immediate or delayed, is run exactly once, and its callable is released once it has run (a release can itself post tasks). Once a task's delay has passed and other tasks do not occupy every allowed worker for ever, the task is started without any further call into the pool; in particular worker threads expiring after their idle time, many posts in a row, and very long delays never leave a posted task behind.",
  ["schedules", "histories", "configurations"],
  "for every interleaving of posting threads, worker start-up, worker idle expiry and timer wake-ups (including spurious wake-ups), every sequence of immediate and delayed posts, every pool size and idle time",
  "The tests post a few tasks on an otherwise quiet machine with long idle times; the window between a worker's idle timeout and a concurrent post, or two posts before one wake-up, is a schedule they never meet.",
  TP, [("mutex-protected queue with a waiting-worker count and one wake-up handed on from worker to worker", "rst/task_runner/thread_pool_task_runner.cc"),
       ("service thread moving due tasks from a heap to the workers", "rst/task_runner/thread_pool_task_runner.cc")],
  [("ready queue", "tasks that can run now", "ThreadPoolTaskRunner::DelayedTaskRunner::tasks_"),
   ("delayed heap", "tasks waiting for their time", "ThreadPoolTaskRunner::ServiceTaskRunner::delayed_tasks_")],
  ["start and end of every task body", "destruction of every posted callable", "a state in which no thread can run"])
p("C02", "Delayed pool tasks never run early and one worker keeps the order",
  "A task posted to a thread pool with a delay never starts before the clock given to the pool has advanced by that delay since the post. In a pool limited to one thread, immediate tasks start in the order they were posted, and delayed tasks start in the order of their due times, tasks with equal due times in posting order.",
  ["schedules", "histories", "inputs"],
  "for every interleaving, every set of delays (equal, decreasing, increasing, up to the largest representable) and every way the clock advances between calls",
  "Timing tests sample a handful of delays with coarse sleeps; they cannot see a premature start that needs a spurious wake-up, an early timer, or a tie.",
  TP, [("heap ordered by due time then by a posting counter, re-checked against the clock after each wake-up", "rst/task_runner/thread_pool_task_runner.cc"),
       ("comparison of due time and counter", "rst/task_runner/item.h")],
  [], ["clock value at post and at start of every task", "start order"])
p("C03", "Thread pool never exceeds its thread limit and uses all of it when needed",
  "At no moment do more task bodies run at the same time in a thread pool than the limit it was created with. Whenever fewer than that many are running and due tasks are waiting, waiting tasks are started until the limit is reached, even if the running ones never finish: tasks that wait for each other always make progress as long as their number does not exceed the limit, whether they were posted one by one, as due delayed tasks, or as the iterations of one synchronous apply call.",
  ["schedules", "histories", "configurations"],
  "for every interleaving, limit, mix of busy, idle and expiring workers, and posting pattern",
  "The tests do not make tasks depend on each other while workers are idle, half woken or expiring, so a pool that silently serialises or under-provisions passes them.",
  TP, [("number of threads to create computed from the queue length, idle workers and the limit", "rst/task_runner/thread_pool_task_runner.cc")],
  [("idle worker count", "workers able to take a task", "ThreadPoolTaskRunner::DelayedTaskRunner::waiting_threads_num_")],
  ["number of task bodies between start and end", "rendezvous of mutually waiting tasks"])
p("C04", "Destroying a thread pool waits for running tasks and drops the rest safely",
  "Destroying a thread pool returns only after every task body that has started has finished; after it returns no task starts, and every task that was not started has been destroyed without being run. Destruction always completes when the running tasks do, whatever the workers are doing (starting, idle, expiring, running, posting further immediate or delayed tasks), and touches no freed memory.",
  ["schedules", "histories"],
  "for every interleaving of the destructor with workers in every state, with queued and delayed tasks, and with tasks that post more tasks while the pool is going down",
  "A test destroys a pool a few times with idle workers; shutdown races with a starting, expiring or posting worker need schedules it does not control, and a use after free is invisible without a sanitizer.",
  TP, [("exit flag plus waiting until the worker map is empty", "rst/task_runner/thread_pool_task_runner.cc"),
       ("service thread joined on shutdown", "rst/task_runner/thread_pool_task_runner.cc")],
  [], ["task starts and ends relative to destructor return", "destruction of every posted callable", "sanitizer reports", "a state in which no thread can run"])
p("C05", "Synchronous apply runs every index exactly once before it returns",
  "A synchronous apply of n iterations on any task runner calls the given function exactly once with each index from 0 to n-1. It returns only after all of those calls have returned, with everything they wrote visible to the caller, and it does return once the runner has executed them.",
  ["schedules", "inputs", "configurations"],
  "for every n, every interleaving of the iterations over workers, concurrent apply calls on one runner, and runners driven by polling or by a pool",
  "The tests check a count at the end for a few n; a torn index counter, an early release or missing visibility needs a particular interleaving and a race detector.",
  ["rst/task_runner/task_runner.cc", "rst/task_runner/task_runner.h", "rst/threading/barrier.cc", "rst/task_runner/polling_task_runner.cc", "rst/task_runner/thread_pool_task_runner.cc"],
  [("shared atomic index and a counting barrier", "rst/task_runner/task_runner.cc")],
  [], ["index of every call, and start and end of every call relative to return", "plain memory written by iterations and read by the caller"])
p("C06", "Polling runner runs exactly the due tasks, in due-time then posting order",
  "Each poll of a polling task runner runs exactly those not yet run tasks that were posted before the poll took its snapshot and whose due time (clock at post plus delay) is not later than the clock at the poll, each once, ordered by due time and then by posting order. A task posted while a poll is executing tasks runs in a later poll, posting from any thread at any time neither loses nor repeats a task, and no task ever runs outside a poll. The callables a poll has run are released by its end and can post tasks while they are, and destroying the runner releases the rest without running them.",
  ["histories", "schedules", "inputs"],
  "for every sequence of posts with arbitrary delays (zero, equal, huge), clock movements (also backwards), polls and posts from inside tasks, and every interleaving with threads that post concurrently",
  "The tests use a few fixed sequences with at most a few distinct delays and one stress loop that checks only the count.",
  ["rst/task_runner/polling_task_runner.cc", "rst/task_runner/polling_task_runner.h", "rst/task_runner/item.h", "rst/stl/algorithm.h"],
  [("heap ordered by due time then by a posting counter", "rst/task_runner/item.h"), ("pending batch taken under a lock and run outside it", "rst/task_runner/polling_task_runner.cc")],
  [("queue", "posted tasks not yet run", "PollingTaskRunner::queue_")],
  ["sequence of task ids run by each poll"])
p("C07", "Barrier releases every waiter exactly when its count reaches zero",
  "No thread waiting on a barrier returns before the count given at construction has been fully counted down, and once it has been, every waiting thread and every later waiter returns. Writes made before a count-down are visible to every released waiter, and a waiter may destroy the barrier as soon as it has returned, provided no other thread is still waiting and every count-down has been made.",
  ["schedules", "configurations"],
  "for every count, every number of waiters and of plain or waiting count-downs, every interleaving and spurious wake-up",
  "The tests start a few threads and join them; early release, a lost wake-up among several waiters, or a wake-up sent to an already destroyed barrier needs a specific interleaving.",
  ["rst/threading/barrier.cc", "rst/threading/barrier.h"],
  [("counter under a mutex, waiters pass the wake-up on", "rst/threading/barrier.cc")],
  [("counter", "count-downs still missing", "Barrier::counter_")],
  ["return of each waiter relative to each count-down", "a state in which no thread can run", "sanitizer reports"])
p("C08", "One-shot timer runs its latest task at most once and never after its life",
  "Starting a timer schedules its task for the given delay and replaces any task that is still pending, so a replaced task never runs; a pending task runs exactly once, when its delay has passed or at once when fired by hand, and never again after that. The timer reports running exactly from a start until its task begins, a task may restart or destroy the timer it belongs to, and after the timer is destroyed nothing it scheduled runs.",
  ["histories", "inputs"],
  "for every sequence of starts with arbitrary delays, hand fires, clock movements, destructions and restarts, including those made inside the timer's own tasks",
  "The tests cover single restarts and fires; stale posted callbacks from earlier starts, a restart inside a fired task, or a destruction inside one are multi-step histories they do not reach.",
  ["rst/timer/one_shot_timer.cc", "rst/timer/one_shot_timer.h", "rst/bind/bind.h", "rst/memory/weak_ptr.h"],
  [("start counter compared when the posted callback runs, and a weak reference to the timer", "rst/timer/one_shot_timer.cc")],
  [("task id", "identifies the latest start", "OneShotTimer::task_id_")],
  ["which task ran, and when", "running flag after every step", "sanitizer reports"])
p("C09", "Weak pointers and bound callbacks never reach a dead object",
  "A weak pointer yields its object exactly while that object is alive and null from then on, however it was copied, moved, assigned, converted between base and derived types or reset; assigning null empties only that pointer. A callable bound to a weak or standard weak pointer calls its target with the bound and passed arguments while the object lives and does nothing afterwards, and for a standard weak pointer the object stays alive during the call.",
  ["histories", "programs"],
  "for every history of creating, copying, moving, converting, assigning and resetting weak pointers and bound callables and of destroying objects, also from inside a bound call",
  "The tests check each operation once in isolation; a stale pointer after a chain of conversions and assignments, or one object's pointer surviving another's death, needs a history, and the dangling access only shows under a sanitizer.",
  ["rst/memory/weak_ptr.h", "rst/bind/bind.h", "rst/bind/bind_helpers.h"],
  [("liveness flag shared by the object and its weak pointers", "rst/memory/weak_ptr.h"), ("lock or check before invoking", "rst/bind/bind.h")],
  [], ["pointer returned by each weak pointer against the set of living objects", "calls made through bound callables", "sanitizer reports"])
p("C10", "Value tree operations behave like a tree of maps, lists and scalars",
  "For any sequence of key and path lookups, insertions, replacements, removals, moves and deep copies, a value tree returns and contains exactly what a simple tree of ordered maps, lists and scalars would: setting a key or path changes only that place (creating or replacing intermediate non-objects), finding returns it or nothing, typed finds succeed only for the matching type, and strings and keys of any bytes are kept intact. A deep copy is equal to and independent of its source, and moving any value, also one out of the very tree it is assigned to, transfers its content completely and without memory errors.",
  ["histories", "inputs"],
  "for every sequence of operations over arbitrary trees, keys (also empty, with dots or zero bytes), paths (also with empty components) and value types, including moves between places of one tree",
  "The tests check each operation on small fixed trees; aliasing moves, replacement of non-object intermediates, type changes by assignment and combinations of these are histories no fixed case covers.",
  ["rst/value/value.cc", "rst/value/value.h", "rst/clone/clone.h"],
  [("tagged union with placement construction and clean-up on type change", "rst/value/value.cc"), ("dotted path walking", "rst/value/value.cc")],
  [("type tag", "which union member is alive", "Value::type_")],
  ["full contents of the tree after every operation against a model", "sanitizer and leak reports"])
p("C11", "Value comparison and number classification are consistent",
  "Values order first by type (null, boolean, number, string, array, object) and then by content (numbers numerically, strings by bytes, arrays and objects lexicographically), and this order is strict, total over distinct content and consistent with its six operators, whose answer comes promptly also for equal values nested hundreds of levels deep; equality requires equal type and content, numbers being equal when they differ by less than the machine epsilon. A number is classified as a 64-bit integer exactly when it is integral and within plus or minus 2^53-1, as an int exactly when it is integral and fits an int, integral reads return exactly the stored number, and constructing a value from an integer outside plus or minus 2^53-1 or from a non-finite number is rejected in debug builds.",
  ["inputs"],
  "for every pair and triple of values of all types and depths and every number, in particular near the integer limits, near epsilon, negative zero and the extreme 64-bit integers",
  "The tests compare a few hand-picked pairs and integers; boundaries and mixed nested values are infinite.",
  ["rst/value/value.cc", "rst/value/value.h"],
  [("type-first comparison and range checks", "rst/value/value.cc"), ("classification predicates", "rst/value/value.h")],
  [], ["results of all comparison operators and classification queries against a model", "debug rejection at construction", "undefined-behaviour reports"])
p("C12", "A preference reads back its last written value or else its default",
  "After any sequence of registrations, writes and reads, reading a preference returns the value most recently written to exactly that path (also by an earlier user of the same store), or the registered default if there was none; a write never changes what any other registered path reads. In debug builds, registering a path twice, reading or writing an unregistered path, or using a path with a different type is always rejected.",
  ["histories", "inputs"],
  "for every set of dotted paths none of which is a dotted prefix of another, every type, and every interleaving of registrations, writes and reads",
  "The tests set and get one path per type; interference between sibling paths sharing components, repeated overwrites, late registrations and defaults after sibling writes are histories.",
  ["rst/preferences/preferences.cc", "rst/preferences/preferences.h", "rst/preferences/memory_preferences_store.cc", "rst/preferences/preferences_store.h", "rst/value/value.cc"],
  [("default map plus store lookup by path", "rst/preferences/preferences.cc"), ("path tree store", "rst/preferences/memory_preferences_store.cc")],
  [], ["value returned by each read against a map model", "debug rejections"])
p("C13", "File reads and writes report success only for exact content",
  "A file write that reports success has replaced the file's content with exactly the given bytes, and a file read that reports success returns exactly the bytes of the file, for any content and size and for files whose reported size is wrong or unknown. Whenever opening, reading, writing or closing fails the call reports an error, of the open-failure kind exactly when the file could not be opened and otherwise of the general file-error kind that also covers open failures, and no file handle is left open.",
  ["inputs", "fault_sequences"],
  "for every content (empty, binary, around buffer sizes, large), every kind of file (regular, missing, directory, pipe, special file, unreadable) and a failure or short transfer at every operating-system call",
  "The tests write and read a few files and one missing path; they never meet a failing or short write, a failing close, or a file that changes size or reports none.",
  ["rst/files/file_utils.cc", "rst/files/file_utils.h"],
  [("checked open, transfer and close results", "rst/files/file_utils.cc"), ("read until end of file in chunks", "rst/files/file_utils.cc")],
  [], ["result kind and bytes on disk against the bytes asked for", "open file descriptors before and after", "system calls with injected failures"])
p("C14", "Important file writes are atomic under crashes, faults and readers",
  "At every moment during an important file write, also if the process is killed at that moment, the destination holds either its complete previous content (or is still absent) or the complete new content. A write that reports success leaves the complete new content, a write that reports an error leaves the previous content, and in both cases no temporary file remains unless removing it failed too.",
  ["crash_points", "fault_sequences", "inputs", "schedules"],
  "for every point of the operation at which the process can be killed, every system call that can fail or transfer short, every previous and new content and size, and concurrent readers and writers of the same file",
  "A unit test can only look before and after an undisturbed call; the intermediate states and the clean-up after a failure are never observed.",
  ["rst/files/file_utils.cc", "rst/files/file_utils.h", "rst/guid/guid.cc"],
  [("write to a uniquely named neighbour created exclusively, then rename", "rst/files/file_utils.cc")],
  [], ["destination content and directory listing at every system call", "result after injected failures"])
p("C15", "Formatting and concatenation produce exactly the documented text",
  "Formatting replaces the n-th placeholder by the text of the n-th argument, turns doubled braces into single ones and keeps all other characters; concatenation yields the texts of its arguments in order. Arguments render as documented for every value (integers in full decimal, floating point as the C %g conversion, booleans as true or false, characters and strings byte for byte including zero bytes, enumerations as their underlying integer), no byte outside the result or the arguments is touched, and in debug builds an invalid placeholder, an unmatched brace or a wrong number of arguments is always rejected.",
  ["inputs"],
  "for every format string of braces and text, every number of arguments, and every value of every supported type including extremes",
  "The tests list some tens of formats and values; extremes of each type, zero bytes, empty arguments, adjacent braces and their combinations are unbounded, and a one byte overrun shows only under a sanitizer.",
  ["rst/strings/format.cc", "rst/strings/format.h", "rst/strings/str_cat.cc", "rst/strings/arg.h"],
  [("size computed first, then one pass copying", "rst/strings/format.cc"), ("conversion into a small inline buffer", "rst/strings/arg.h")],
  [], ["returned text against an independent reference", "debug rejections", "sanitizer reports"])
p("C16", "GUIDs are well-formed, unique, stable and correctly validated",
  "Every generated GUID is 36 characters of the form xxxxxxxx-xxxx-4xxx-yxxx-xxxxxxxxxxxx with lower-case hexadecimal digits and y one of 8, 9, a, b, all other digits vary over all values, no two generated GUIDs are equal, whichever threads generate them, and both text forms of one GUID are the same every time. The validity check accepts exactly the 36-character strings with dashes at positions 8, 13, 18 and 23 and hexadecimal digits elsewhere, and the output-validity check accepts exactly those of them without upper-case digits.",
  ["inputs", "schedules", "histories"],
  "for every string (any length and bytes, near misses in each position) and for long runs of generation from many threads",
  "The tests generate one million in sequence and check a dozen strings; position-dependent mistakes, stuck digits, per-thread repetition and non-ASCII bytes are outside that sample.",
  ["rst/guid/guid.cc", "rst/guid/guid.h", "rst/random/random_device.cc"],
  [("version and variant bits forced, rest random per thread", "rst/guid/guid.cc"), ("per-thread random device", "rst/random/random_device.cc")],
  [], ["every generated text", "validators against an independent reference"])
p("C17", "Log lines arrive whole, once, in order, and only at enabled levels",
  "Every message logged at or above the current level reaches the sink exactly once as one line consisting of level, file, line and the message bytes unchanged, and messages below the level never do; lines from concurrent threads are never mixed, lines of one thread keep their order, and a line is in the file when the call returns. An enabled fatal message is written and then ends the process, other messages never do, a sink closes its file exactly when it owns it, and failure to open a log file is reported as an error.",
  ["schedules", "inputs", "histories"],
  "for every message (empty, long, with percent signs, braces or zero bytes), every level setting, every sink and every interleaving of logging threads",
  "The tests log a few short constant messages from one thread and look at the text; interleaving, special bytes and large messages are never tried.",
  ["rst/logger/logger.cc", "rst/logger/logger.h", "rst/logger/file_name_sink.cc", "rst/logger/file_ptr_sink.cc", "rst/logger/log_error.cc"],
  [("mutex around write and flush", "rst/logger/file_name_sink.cc"), ("level comparison and fatal abort", "rst/logger/logger.cc")],
  [], ["bytes in the log file after every call", "calls received by a custom sink", "process end after fatal", "race detector reports"])
p("C18", "Status results cannot be ignored, lost or mixed up",
  "A status or status-or-value carries exactly the success, value or error object it was made from through any chain of moves and assignments, and every contained value and error object is destroyed exactly once. In debug builds destroying or overwriting one whose outcome has not been asked for (or explicitly ignored) since it was constructed, assigned or moved into is always rejected, as is reading a value, error or inner status before asking or of the wrong kind, while asking, ignoring or moving from one always clears the obligation.",
  ["histories", "programs"],
  "for every history of construction, move, assignment (between success and error in all combinations), asking, ignoring, extraction and destruction, with trivially copyable, move-only and large value types",
  "The tests check each single transition; chains of assignments between success and error, with leaks or double destruction of the contained object, are histories that only a model and a sanitizer judge.",
  ["rst/status/status.h", "rst/status/status_or.h", "rst/status/status.cc"],
  [("checked flag moved with the content", "rst/status/status.h"), ("tagged union of value and status", "rst/status/status_or.h")],
  [("checked flag", "whether the outcome was asked for", "Status::was_checked_, StatusOr::was_checked_")],
  ["outcome, content and rejections after every step against a model", "live instances of contained objects"])
p("C19", "Checked pointers keep their target and reject every unchecked or null use",
  "Non-null and nullable pointer wrappers over raw, unique and shared pointers always hold exactly the pointer given to them through any chain of construction, copy, move, assignment and conversion (also between each other and to base types), with ownership neither leaked nor duplicated, and comparison and hashing agree with the underlying pointer. In debug builds making a non-null wrapper from null, dereferencing a nullable one that is null or that was not compared with null since it was created or assigned a new pointer (a plain copy or move inherits the checked state), and converting such an unchecked nullable to non-null, are always rejected, and checked or non-null uses never are.",
  ["histories", "programs"],
  "for every history of constructions, conversions, assignments, comparisons and dereferences over raw, unique and shared pointers and base/derived types",
  "The tests instantiate each overload once; the checked state and ownership after chains of assignments and conversions are not covered.",
  ["rst/not_null/not_null.h", "rst/memory/memory.h"],
  [("debug-only checked flag and null assertions", "rst/not_null/not_null.h")],
  [], ["underlying pointer, reference counts, live objects and rejections after every step against a model"])
p("C20", "Error class queries and casts follow the declared hierarchy",
  "For every error object, asking whether it is of some error class, and casting it to that class, succeeds exactly when its own class is that class or was declared as derived from it at any depth, and a successful cast yields that same object with its data. Distinct error classes are never confused, siblings and derived classes never match, and this holds for errors carried inside a status through moves.",
  ["programs", "histories"],
  "for every pair of classes in hierarchies of any depth and breadth, including the library's own error classes, through raw, non-null, const and non-const pointers",
  "The tests use one small hierarchy.",
  ["rst/rtti/rtti.h", "rst/status/status.h", "rst/status/status.cc", "rst/files/file_utils.cc", "rst/logger/log_error.cc"],
  [("address of a per-class static as identity, walked up the parents", "rst/status/status.h")],
  [], ["result of every class query and cast over all pairs against the declared hierarchy"])
p("C21", "Correct use never causes undefined behaviour, data races or leaks",
  "No program that respects the documented preconditions triggers undefined behaviour, an out-of-bounds, use-after-free or uninitialised memory access, a leak, or a data race inside the library, through any of its components and combinations of them. In particular, threads may use the documented thread-safe parts (posting to task runners, barriers, log sinks, GUID generation) concurrently without external locking.",
  ["programs", "schedules", "inputs"],
  "for every valid single- and multi-threaded use of the public components",
  "The existing tests are built without any sanitizer, so out-of-contract memory accesses and races that happen to give the right answer pass.",
  ["rst/value/value.cc", "rst/status/status_or.h", "rst/task_runner/thread_pool_task_runner.cc", "rst/task_runner/polling_task_runner.cc", "rst/task_runner/task_runner.cc", "rst/threading/barrier.cc", "rst/logger/file_name_sink.cc", "rst/logger/file_ptr_sink.cc", "rst/guid/guid.cc", "rst/random/random_device.cc", "rst/strings/format.cc", "rst/strings/str_cat.cc", "rst/strings/arg.h", "rst/files/file_utils.cc", "rst/timer/one_shot_timer.cc", "rst/memory/weak_ptr.h", "rst/not_null/not_null.h", "rst/no_destructor/no_destructor.h", "rst/stl/hash.cc", "rst/stl/resize_uninitialized.h"],
  [("RAII ownership, explicit union management, mutexes", "rst/")],
  [], ["address, undefined-behaviour, leak and thread sanitizer reports", "valgrind memcheck reports (thorough)"])
p("C22", "Container helpers agree with the standard algorithms they wrap",
  "Each container helper has exactly the effect and result of the corresponding standard algorithm over the whole container, for arrays, vectors and other ranges, any comparison or predicate and any content including duplicates and empty ranges: sorting, stable sorting, searching, heap operations, sortedness, shuffling, reverse iteration, in-place vector building, and resizing that preserves existing content. Taking a function object transfers its behaviour and leaves the source empty, and the combined hash is a deterministic function of the sequence of element hashes that depends on every element and on their order, is zero for none and the element's own hash for one.",
  ["inputs", "programs"],
  "for every container type, content, comparator and predicate; for every sequence of hashable elements",
  "The tests call each helper on one short container.",
  ["rst/stl/algorithm.h", "rst/stl/hash.cc", "rst/stl/hash.h", "rst/stl/reversed.h", "rst/stl/vector_builder.h", "rst/stl/function.h", "rst/stl/resize_uninitialized.h"],
  [("thin forwarding", "rst/stl/algorithm.h"), ("Murmur-like mixing", "rst/stl/hash.cc")],
  [], ["result and container content against the standard algorithm and stated laws"])
p("C23", "Release builds behave the same as debug builds for correct programs",
  "For every program that satisfies the documented preconditions, building with debug checks disabled changes no observable result: every call returns the same values, leaves the same state and runs the same callbacks in the same order. Always-on checks abort exactly when their condition is false in both build modes, debug-only checks abort exactly when false in debug builds, and in release builds debug-only checks and debug-only log calls evaluate none of their arguments.",
  ["programs", "configurations", "inputs"],
  "for every valid call sequence over all components, executed in both build configurations",
  "The test binary exists in one configuration only; a side effect inside a debug-only check, or code that depends on the debug flag, cannot show up in it.",
  ["rst/check/check.h", "rst/status/status.h", "rst/status/status_or.h", "rst/not_null/not_null.h", "rst/value/value.cc", "rst/strings/format.cc", "rst/task_runner/polling_task_runner.cc", "rst/logger/logger.h", "rst/guid/guid.cc", "rst/threading/barrier.cc"],
  [("preprocessor switch on the build mode", "rst/check/check.h")],
  [], ["transcripts of identical seeded workloads in both builds", "evaluation counters inside check arguments"])
p("C24", "Deferred actions run once at scope exit; never-destroyed objects stay usable",
  "A deferred action runs exactly once, when its scope is left by any path (falling through, return, break, continue, goto), after everything later in the scope and in reverse order of the other deferred actions, sees the current state of what it captured by reference, and never runs earlier. A never-destroyed object is constructed exactly once from its arguments, is usable at the same correctly aligned address through every accessor for the rest of the program, also during its shutdown, and is never destroyed.",
  ["programs", "histories"],
  "for every nesting, exit path and callable kind; for every type, alignment and construction form, and use from exit handlers and static destructors",
  "The tests check one scope and one string.",
  ["rst/defer/defer.h", "rst/no_destructor/no_destructor.h"],
  [("destructor of a scope object", "rst/defer/defer.h"), ("placement construction into aligned storage", "rst/no_destructor/no_destructor.h")],
  [], ["event order around scope exits against a model", "constructor and destructor counts and addresses"])
p("C25", "Error propagation macros return the error unchanged and only on error",
  "Each error propagation macro evaluates its statement exactly once; on error the enclosing function returns at once with that same error object, whether it returns a status or a status-or-value, and executes nothing that follows. On success the enclosing function continues with the value stored in or bound to the target, unchanged and without copies so that move-only types work, and the propagated or consumed results satisfy the mandatory-check rule so that no debug check fires.",
  ["programs", "inputs"],
  "for every macro, enclosing return type, value type, chain depth and position of the failing statement, also several uses in one function",
  "The tests use each macro once for success and once for failure in a single function.",
  ["rst/status/status_macros.h", "rst/status/status.h", "rst/status/status_or.h"],
  [("statement bound to a uniquely named variable, early return on error", "rst/status/status_macros.h")],
  [], ["trace of evaluated statements, identity of the returned error object, values bound, debug rejections"])
p("C26", "Strong aliases behave as their underlying value and never convert silently",
  "A strong alias holds exactly the value it was made from through copies, moves and assignments, converts back to exactly that value, compares in all six ways and hashes as the underlying values do, for any underlying type. Explicit cloning yields an equal and independent copy, and wrapping a raw pointer as owned yields sole ownership of that same object, which is destroyed exactly once.",
  ["inputs", "programs"],
  "for every underlying type (scalars, strings, containers, move-only types) and value, including unordered floating point values",
  "The tests use integers and one move-only type with a few values.",
  ["rst/type/type.h", "rst/clone/clone.h", "rst/memory/memory.h"],
  [("single member forwarded to", "rst/type/type.h")],
  [], ["results of each operation against the same operation on the underlying value", "live instances"])
p("C27", "Every thread has its own random device for its whole life",
  "On any one thread every request for the random device yields the same device, and threads that live at the same time never share one, so that each can use its own without locking while others use theirs. The numbers drawn from all devices, also by other processes started from the same state, are unpredictable: they follow no common sequence and every bit takes both values.",
  ["schedules", "histories"],
  "for every number of threads starting, drawing and ending concurrently, directly or through GUID generation, and for forked processes",
  "The only test compares two calls on one thread; sharing between threads and repetition need several threads and many draws.",
  ["rst/random/random_device.cc", "rst/random/random_device.h", "rst/guid/guid.cc"],
  [("one device per thread", "rst/random/random_device.cc")],
  [], ["address of the device in every call of every thread", "every number drawn", "race detector reports"])
p("C28", "Empty and do-nothing callbacks and branch hints have no effect of their own",
  "A null function becomes an empty function object of whatever signature is asked for, also when assigned over one in use, whose target is then released. A do-nothing function becomes a callable of whatever argument types are asked for (references, values, move-only types), which can be copied, moved and called any number of times, leaves everything its arguments refer to unchanged and keeps nothing. A branch hint evaluates its operand exactly once and never changes which branch is taken.",
  ["programs", "inputs"],
  "for every signature, argument, use as initialiser, argument or assigned value, and every operand of a branch hint",
  "The tests convert to a handful of signatures and call each once.",
  ["rst/bind/bind_helpers.h", "rst/macros/optimization.h"],
  [("conversion operators to function objects", "rst/bind/bind_helpers.h"), ("compiler builtin", "rst/macros/optimization.h")],
  [], ["emptiness of each result", "arguments and live objects after each call", "evaluations of a hint's operand and the branch taken"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
import re
for x in P:
    n = len(re.findall(r"[.](?=\s|$)", x["statement"]))
    if n > 3: print("too many sentences", x["id"], n)
print(len(P))
