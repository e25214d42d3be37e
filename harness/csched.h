// Controlled scheduler: the threads of the code under test become coroutines,
// every synchronization call is a scheduling point whose outcome is drawn from
// the explorer, and (in the "sched" build) every instrumented memory access is
// checked for happens-before races.  See csched.cc.
#ifndef VERIF_SCHED_H
#define VERIF_SCHED_H
#include <functional>
#include <string>
#include "mc.h"
namespace sched {
struct Options {
  int preemptions = -1;     // bound on switches away from a runnable thread, -1: none
  int spurious = 0;         // spurious wake-ups to inject
  bool races = true;        // report unordered conflicting accesses
  bool loadPoints = true;   // plain atomic loads are scheduling points
  int maxSteps = 20000;
};
enum class End { Done, Deadlock, Livelock, Race, Misuse };
struct Result {
  End end;
  std::string text;         // which threads wait for what / which race
};
// Runs mainFn as thread 0; returns when all threads ended or nothing can run.
Result run(mc::Ctx& c, const Options& o, const std::function<void()>& mainFn);
// inside a run
int spawn(const std::function<void()>& f);   // a new thread
void join(int t);
void point();                                // an explicit scheduling point
void stall(int n);                            // the other threads take n steps in turn, retrying even in vain: one schedule
unsigned long now();                         // logical time, strictly increasing
int self();
int live();                                  // threads which have not ended, without thread 0
extern unsigned long gSteps, gSwitches;      // of the last run
}
#endif
