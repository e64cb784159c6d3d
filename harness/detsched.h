// Deterministic scheduler: while active, exactly one managed thread runs at a time, every blocking
// primitive (pthread mutexes, condition variables, joins, once, static guards, std::future waits)
// is modelled here, the clock is virtual, and every scheduling decision is drawn from the case's
// choice sequence.  Threads, schedules and timers of a case are hence replayable and shrinkable.
#ifndef VERIF_DETSCHED_H_
#define VERIF_DETSCHED_H_

#include "pbt.h"

#include <cstdint>
#include <functional>
#include <string>

namespace ds
{
struct Options
{
  bool spurious = true;         // inject spurious condition variable wake-ups
  bool time_jumps = false;      // fire timers early although threads are runnable (slow threads)
  uint64_t max_steps = 400000;  // scheduling points
  // Called on a deadlock (no runnable thread, no timer) to describe the state.  The result is
  // appended to the failure message.
  std::function<std::string()> describe;
  // When set: called on deadlock; returning true means the situation is acceptable: not a failure,
  // process ends as success of the case (used when blocking forever is legal). Not used normally.
};

// Runs body as managed thread 0. Returns when body has returned and all threads it created have
// finished. A deadlock, an exceeded step budget or a leaked (unjoined, unfinished) thread ends the
// process with a failure.
void Run(pbt::Case& c, const Options& opts, const std::function<void()>& body);

bool Active();
void Yield();             // explicit scheduling point
uint64_t NowNs();         // virtual time
void SleepNs(uint64_t);   // virtual sleep
uint64_t Step();          // number of scheduling points so far (total order over the history)
int Self();
uint64_t Switches();      // number of preemptive context switches so far

// Records an event in the (serial) history, for the log.
void Note(const std::string& what);

// No preemption while one of these is alive (for the book-keeping of harnesses).
struct Quiet
{
  Quiet();
  ~Quiet();
};

// The current thread keeps running while one of these is alive, unless it blocks.
struct Keep
{
  Keep();
  ~Keep();
};

struct Stats
{
  uint64_t steps, switches, threads, spurious, blocks;
};
Stats LastStats();
}  // namespace ds

#endif
