// Controlled scheduler: the threads of one execution run one at a time, and every lock operation,
// every explicit point and (in instrumented code) every function boundary is a place where another
// thread may be chosen. The choice is a function of the seed.
#ifndef SCHED_HPP_
#define SCHED_HPP_
#include <cstdint>
#include <functional>
#include <string>
#include <vector>

namespace sched
{
struct Stats
{
  uint64_t switches = 0, points = 0, lock_points = 0, contended = 0;
  uint64_t hash = 0;       // identifies the interleaving
};
// Runs the bodies to completion under one schedule. A body that throws ends that thread; the first
// exception is rethrown here once all threads are done. A victim is held up at its lock operations, one after the
// other, while the others go on.
Stats run(std::vector<std::function<void()>> bodies, uint64_t seed, int length_hint, int lock_hint = 64, int victim = -1);
void point();                                        // the current thread may be preempted here
void wait_until(const char * what, std::function<bool()> pred);   // blocks the current thread
// No voluntary preemption: for the monitor's own shared state.
struct Quiet
{
  Quiet();
  ~Quiet();
};
uint64_t now();                                      // logical time, grows with every call
int self();                                          // index of the current thread, -1 outside
}  // namespace sched
#endif
