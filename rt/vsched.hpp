// vsched: deterministic user-level control of thread schedules, blocking calls and time.
//
// Code under test is compiled with clang's thread-sanitizer pass (atomics only, or with memory
// accesses for the race detector) and linked against this runtime INSTEAD of TSan's.  Between
// vs::begin() and vs::end() exactly one thread runs at a time; every atomic operation, lock
// operation, yield, sleep, poll and clock read is a point at which the seeded scheduler may hand
// control to another thread.  Time is virtual.
#ifndef VSCHED_HPP
#define VSCHED_HPP
#include <cstdint>
#include <string>

namespace vs {

struct Options {
    uint64_t seed       = 1;
    uint64_t max_steps  = 3000000;  ///< scheduling points before the run is called endless
    uint64_t tick_ns    = 25;       ///< virtual time per scheduling point
    bool spurious       = true;     ///< inject spurious condition variable wake ups
    bool time_jumps     = false;    ///< let virtual time occasionally jump while threads are runnable
    uint64_t sleep_jitter_ns = 0;   ///< random extra latency of sleeps and timed waits
    bool stalls         = true;     ///< allow strategies which stall a thread for a long time
    bool spin_jump      = true;     ///< let time move to the next deadline when threads have been busy for long
    int strategy        = -1;       ///< -1: derived from the seed
};

enum class Quiet { STUCK, TIMED, BUSY };

void begin(const Options& o);
void end();
bool active();
int self();
/// A scheduling point
void point();
/// A scheduling point that prefers other threads
void yield();
uint64_t now_ns();
uint64_t steps();
uint64_t switches();
void sleep_ns(uint64_t ns);
/// Block until no other thread can run without time passing (BUSY: this did not happen within the time given).
Quiet wait_quiet(uint64_t max_ns = ~0ULL);
/// Number of virtual threads that have not finished (including the caller)
int live_threads();
/// Has the thread finished?
bool thread_finished(int id);
/// Called (in the context of any thread) when no thread can ever run again, or at the step limit.
/// Must not return.
extern void (*on_stuck)(const char* kind, const std::string& report);
/// race / use-after-free reports (only in builds with the memory pass)
extern void (*on_race)(const char* kind, const std::string& report);
std::string describe_threads();
/// The name of the strategy used
std::string strategy_name();
/// Disable preemption at points for a block of harness code
struct NoPreempt {
    NoPreempt();
    ~NoPreempt();
};
/// Fault injection for system calls: fd based (see vsched.cpp)
}  // namespace vs
#endif
