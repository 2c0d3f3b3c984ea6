// A seeded scheduler with virtual time for running the real threaded code.
//
// While vs::Run() is active, every mutex, condition variable, std::thread,
// sleep and clock read in code linked with the wrappers (see vsched.flags) goes
// through this scheduler: exactly one registered thread runs at a time, the
// next one is chosen from the seed at every synchronisation operation and - in
// code compiled with load/store callbacks - between memory accesses.  Timed
// waits use virtual time.  A state in which no thread can run is detected
// exactly, without wall-clock limits.
#ifndef VERIF_LIB_VSCHED_H_
#define VERIF_LIB_VSCHED_H_

#include <cstdint>
#include <functional>
#include <string>

namespace vs {

struct Config {
  uint64_t seed = 1;
  // Called (on the thread that notices) when no thread can run any more, or
  // when the run makes no progress within the step limit.  Must not return.
  std::function<void(const std::string& why)> on_stuck;
  // Called when no thread can run at |now| and time is about to move on to |next|.
  std::function<void(int64_t now, int64_t next)> on_idle;
  bool fine = true;        // allow preemption at memory accesses
  int64_t max_jump_ns = 0; // random advances of virtual time up to this much
};

struct Result {
  uint64_t trace_hash = 0;
  uint64_t points = 0;     // scheduling points passed
  uint64_t switches = 0;   // context switches
  uint64_t mem_points = 0; // preemptions considered at memory accesses
  uint64_t spurious = 0;   // spurious wake-ups delivered
  uint64_t timeouts = 0;   // timed waits that ran out
  uint64_t threads = 0;    // threads created
};

// Runs |body| as thread 0 and returns after all threads it created ended.
Result Run(const Config& config, const std::function<void()>& body);

bool Active();             // is the calling thread scheduled?
int64_t Now();             // virtual nanoseconds
int Self();                // logical thread number
void Point();              // a place where another thread may be chosen
void Sleep(int64_t ns);    // virtual sleep
// Blocks until |pred| holds or nothing else can happen any more (no other
// thread can run and no timer is pending within |horizon_ns|).  Returns pred().
bool WaitFor(const std::function<bool()>& pred, int64_t horizon_ns);
int LiveThreads();         // registered threads that have not ended
uint64_t Rand();           // from the schedule's random stream

}  // namespace vs

#endif  // VERIF_LIB_VSCHED_H_
