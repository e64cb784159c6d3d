// C30: those who wait for a state of a job, any number of them at once, are woken up when the job
// gets there.
#include "conc.h"
#include "oac.h"

#include <sup/oac-tree/application_utils.h>
#include <sup/oac-tree/job_states.h>

#include <mutex>
#include <thread>

using namespace oac;

namespace
{
const JobState kStates[] = {JobState::kInitial, JobState::kPaused, JobState::kStepping, JobState::kRunning, JobState::kSucceeded, JobState::kFailed, JobState::kHalted};
bool Finished(JobState s) { return s == JobState::kSucceeded || s == JobState::kFailed || s == JobState::kHalted; }

enum Op { kFinished, kState, kCurrent, kSleep };
struct Step
{
  Op op;
  int state;
  int ms;
};
struct Set
{
  JobState state;
  uint64_t begin, end, ms;
};
struct Wait
{
  Step step;
  uint64_t begin = 0, end = 0, begin_ms = 0, end_ms = 0;
  bool ok = false;
  JobState seen = JobState::kInitial;
};

// Longer than anything lasts: also numbers of seconds too large for usual clocks.
const int kForever = 1000005;
double Seconds(int ms)
{
  if (ms > kForever) return conc::kHuge[ms - kForever - 1];
  return conc::kSched ? ms / 1000.0 : ms / 1000.0 / 50;
}

void Monitor(pbt::Case& c)
{
  auto& g = c.g;
  std::vector<std::pair<int, int>> changes;   // (pause before it, state)
  for (size_t i = 0, n = g.Draw(7); i < n; ++i)
  {
    const int ms = 10 * static_cast<int>(g.Draw(4));
    changes.emplace_back(ms, static_cast<int>(g.Draw(7)));
  }
  changes.emplace_back(10 * static_cast<int>(g.Draw(4)), 4 + static_cast<int>(g.Draw(3)));
  const int last = changes.back().second;
  std::vector<std::vector<Step>> plans(1 + g.Draw(4));
  for (auto& p : plans)
    for (size_t i = 0, n = 1 + g.Draw(3); i < n; ++i)
    {
      const Op op = static_cast<Op>(g.Draw(4));
      const bool forever = g.Draw(3) == 0;
      const int state = forever ? last : static_cast<int>(g.Draw(7));
      const int ms = op == kSleep ? 10 * static_cast<int>(g.Draw(8)) : forever ? kForever + static_cast<int>(g.Draw(2) ? g.Draw(conc::kHuges + 1) : 0) : 5 + 10 * static_cast<int>(g.Draw(12));
      p.push_back({op, state, ms});
    }
  PLOG(c) << "changes:";
  for (auto& [ms, s] : changes) PLOG(c) << " after " << ms << " ms " << ToString(kStates[s]) << ",";
  for (auto& p : plans)
  {
    PLOG(c) << "\nthread:";
    for (auto& s : p)
      PLOG(c) << (s.op == kFinished ? " wait for the end" : s.op == kCurrent ? " get state" : s.op == kSleep ? pbt::Str(" sleep ", s.ms) :
                  pbt::Str(" wait ", Seconds(s.ms), " s for ", ToString(kStates[s.state]))) << ",";
  }
  PLOG(c) << "\n";

  std::mutex mtx;
  uint64_t clock = 0;
  auto at = [&]
  {
    std::lock_guard<std::mutex> lk(mtx);
    return ++clock;
  };
  std::vector<Set> sets = {{JobState::kInitial, 0, 0, 0}};
  std::vector<std::vector<Wait>> waits(plans.size());
  conc::Run(c, [&]
  {
    const auto t0 = conc::NowMs();
    utils::SimpleJobStateMonitor monitor;
    std::vector<std::thread> threads;
    for (size_t k = 0; k < plans.size(); ++k)
      threads.emplace_back([&, k]
      {
        for (auto& s : plans[k])
        {
          if (s.op == kSleep)
          {
            conc::SleepMs(s.ms);
            continue;
          }
          Wait w{s};
          w.begin = at();
          w.begin_ms = conc::NowMs() - t0;
          if (s.op == kFinished) w.seen = monitor.WaitForFinished();
          else if (s.op == kCurrent) w.seen = monitor.GetCurrentState();
          else w.ok = monitor.WaitForState(kStates[s.state], Seconds(s.ms));
          w.end = at();
          w.end_ms = conc::NowMs() - t0;
          waits[k].push_back(w);
        }
      });
    for (auto& [ms, s] : changes)
    {
      if (ms) conc::SleepMs(ms);
      Set x{kStates[s], at(), 0, 0};
      monitor.OnStateChange(kStates[s]);
      x.end = at();
      x.ms = conc::NowMs() - t0;
      sets.push_back(x);
    }
    for (auto& t : threads) t.join();
  });

  size_t together = 0, slept = 0;
  for (auto& ws : waits)
    for (auto& w : ws)
    {
      // Was a state for which 'good' holds current at some moment of the wait, for sure or perhaps?
      auto perhaps = [&](auto good)
      {
        for (size_t i = 0; i < sets.size(); ++i)
        {
          const uint64_t until = i + 1 < sets.size() ? sets[i + 1].end : UINT64_MAX;
          if (good(sets[i].state) && sets[i].begin < w.end && until > w.begin) return true;
        }
        return false;
      };
      // When was such a state first current for some time, seen from the wait?
      auto since = [&](auto good)
      {
        for (size_t i = 0; i < sets.size(); ++i)
        {
          const uint64_t until = i + 1 < sets.size() ? sets[i + 1].ms : UINT64_MAX;
          if (good(sets[i].state) && until > sets[i].ms && until > w.begin_ms) return std::max(sets[i].ms, w.begin_ms);
        }
        return UINT64_MAX;
      };
      if (w.step.op == kCurrent)
      {
        PCHECK(c, perhaps([&](JobState s) { return s == w.seen; }), "the state is said to be ", ToString(w.seen), ", which it is not");
        continue;
      }
      if (w.end_ms > w.begin_ms) ++slept;
      if (w.step.op == kFinished)
      {
        PCHECK(c, Finished(w.seen), "the wait for the end returns ", ToString(w.seen));
        PCHECK(c, perhaps([&](JobState s) { return s == w.seen; }), "the wait for the end returns ", ToString(w.seen), ", which it never was meanwhile");
        if (conc::kSched)
        {
          const auto t = since(Finished);
          PCHECK(c, w.end_ms <= t, "the wait for the end begun at ", w.begin_ms, " ms ends at ", w.end_ms, " ms, the job at ", t, " ms");
        }
        continue;
      }
      auto is = [&](JobState s) { return s == kStates[w.step.state]; };
      if (w.ok)
      {
        PCHECK(c, perhaps(is), "the wait for ", ToString(kStates[w.step.state]), " is successful, but the state never was");
      }
      else if (conc::kSched)
      {
        PCHECK(c, w.end_ms == w.begin_ms + w.step.ms, "the wait of ", w.step.ms, " ms from ", w.begin_ms, " ms on is given up at ", w.end_ms, " ms");
      }
      if (conc::kSched)
      {
        const auto t = since(is);
        if (t < w.begin_ms + w.step.ms)
          PCHECK(c, w.ok && w.end_ms <= t, "the wait for ", ToString(kStates[w.step.state]), " from ", w.begin_ms, " ms on ",
                 w.ok ? "ends" : "is given up", " at ", w.end_ms, " ms, but the state was reached at ", t, " ms");
      }
    }
  for (size_t i = 0; i < waits.size(); ++i)
    for (size_t j = 0; j < i; ++j)
      for (auto& a : waits[i])
        for (auto& b : waits[j])
          if (a.step.op <= kState && b.step.op <= kState && a.begin < b.end && b.begin < a.end) ++together;
  c.Label(together > 1 ? "several at once" : together ? "two at once" : "one at a time");
  if (slept && together) c.NonTrivial();
}
CONC_FACET("C30", "monitor", Monitor, conc::Opts(100000, 2000000, "two threads wait at the same time, and one does so for some time"));
}  // namespace
