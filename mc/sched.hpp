// Controlled thread scheduler with a happens-before race detector.
//
// The code under test is compiled with -fsanitize=thread, but linked with the runtime in sched.cpp instead of
// the sanitizer's: threads with stacks of their own, of which exactly one runs at a time, and which one is a choice of the
// explorer. Choices are made at every synchronisation operation (locks, condition variables, atomics,
// function-local static initialisation, explicit points), which is enough for programs without data races; data races
// themselves are reported, from vector clocks kept for every access, in every execution explored.
#ifndef MC_SCHED_HPP
#define MC_SCHED_HPP

#include <functional>
#include <vector>

#include "mc.hpp"

namespace sched
{

// Forgets all locks, clocks and shadow state of an earlier execution. First thing in a scenario.
void begin(mc::Ctx& c);
// Runs the functions as concurrent threads until all have returned. Their interleaving is explored: switching away
// from a thread that could go on is a deviation, choosing among the rest when it cannot is free.
// A race, a deadlock, a livelock or an exception leaving a thread fails the execution.
// One of the first `starters` threads (0: of all) goes first.
void run(mc::Ctx& c, std::vector<std::function<void()>> threads, int starters = 0);

// For use inside a managed thread.
int self();                                     // 0.. in this run; -1 outside
void point();                                   // a scheduling point
uint64_t tick();                                // a logical time stamp, strictly increasing along the execution
void fail(const char* fmt, ...) __attribute__((format(printf, 1, 2))); // does not return; fails the execution
bool wait_until(const std::function<bool()>& enabled); // blocks the thread; false if abandoned
void join_others();                             // blocks until every other thread of this run has returned
void acquire(const void* sync);                 // happens-before edges for stand-ins
void release(const void* sync);
void acquire_release(const void* sync);
struct Ignore { Ignore(); ~Ignore(); };         // accesses in scope are not recorded and there are no points
void ignore_begin();
void ignore_end();
// Additions to atomics (reference counts) and relaxed loads are scheduling points unless switched off for this execution.
void rmw_points(bool on);
// Delay bounding: when a thread cannot go on, the next one in turn does; any other costs a deviation too.
void delay_bounded(bool on);
// Work that runs on whichever thread is free, in an order of its own: in scope, the thread has the clock of the role
// instead of its own, so that having run on the same thread orders nothing. Inside managed threads only.
int make_role();
struct Role { explicit Role(int role); ~Role(); private: int m_gid; };
bool managed();
uint64_t switches();                            // context switches in this execution
uint64_t accesses();

} // namespace sched

#endif
