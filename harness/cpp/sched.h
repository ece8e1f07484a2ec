// A deterministic scheduler for the threads of this process: only one managed thread runs at a time, and a scheduling
// decision is taken at every mutex, condition variable, join and explicit yield.  pthread's own functions are replaced by
// the definitions in sched.cc, so that unmodified code (std::thread, std::mutex, ...) is scheduled too.
#pragma once
#include <cstdint>
#include <vector>
namespace sched {
extern bool active;
void start(const std::vector<int> &choices, uint64_t seed, int stick);  // the calling thread becomes a managed thread
void stop();      // the calling thread goes on unmanaged; threads that still wait stay where they are
void yield();
int self();
int64_t now();    // number of log entries and steps so far; strictly increasing
extern bool deadlock_is_fatal;
extern void (*on_deadlock)();
}  // namespace sched
