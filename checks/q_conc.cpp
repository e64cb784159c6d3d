// C02: job command queue under concurrent use.
//  - sched variant: controlled schedules; the recorded history must be linearizable with respect to
//    the sequential queue model, nobody sleeps while commands are available, and the action of a
//    priority push has run exactly once before its command can be consumed.
//  - tsan variant: real threads under ThreadSanitizer; conservation of commands and no data race.
#include "pbt.h"

#include <sup/oac-tree/job_command_queue.h>

#include <atomic>
#include <chrono>
#include <deque>
#include <map>
#include <memory>
#include <set>
#include <stdexcept>
#include <string>
#include <thread>
#include <vector>

#ifdef VERIF_SCHED
#include "detsched.h"
#endif

using namespace sup::oac_tree;

namespace
{
const char* kNames[] = {"Start", "Step", "Pause", "Reset", "Halt", "Terminate"};

enum OpKind { kPush, kPrio, kPrioThrow, kTryPop, kWait, kSize, kEmpty };
const char* kOps[] = {"Push", "PriorityPush", "PriorityPush(throwing action)", "TryPop",
                      "WaitForNextCommand", "GetSize", "IsEmpty"};

struct Op
{
  OpKind kind;
  int cmd;
};

struct Event
{
  Op op;
  uint64_t inv = 0, res = 0;
  int result = -1;   // pushes: accepted; pops: command or -1; size
  int actions = 0;   // how often the action ran
  uint64_t action_end = 0;
  int thread = 0;
  bool threw = false;
};

std::string Describe(const Event& e)
{
  std::string r = pbt::Str("thread ", e.thread, " [", e.inv, ",", e.res, "] ", kOps[e.op.kind]);
  if (e.op.kind <= kPrioThrow) r += pbt::Str("(", kNames[e.op.cmd], ")");
  if (e.op.kind == kTryPop || e.op.kind == kWait)
    r += std::string(" -> ") + (e.result < 0 ? "nothing" : kNames[e.result]);
  else
    r += pbt::Str(" -> ", e.result);
  if (e.actions) r += pbt::Str(" (action ran ", e.actions, "x, until ", e.action_end, ")");
  return r;
}

// Applies the operation to the model; false if its result is impossible in this state.
bool Apply(const Event& e, std::string& q)
{
  switch (e.op.kind)
  {
  case kPush:
    q.push_back(static_cast<char>('0' + e.op.cmd));
    return true;
  case kPrio:
  case kPrioThrow:
  {
    const bool ok = q.empty() || e.op.cmd > q.front() - '0';
    if (e.op.kind == kPrioThrow) return e.threw == ok;
    if (ok != (e.result == 1)) return false;
    if (ok) q.insert(q.begin(), static_cast<char>('0' + e.op.cmd));
    return true;
  }
  case kTryPop:
    if (q.empty()) return e.result == -1;
    if (e.result != q.front() - '0') return false;
    q.erase(q.begin());
    return true;
  case kWait:
    if (q.empty() || e.result != q.front() - '0') return false;
    q.erase(q.begin());
    return true;
  case kSize:
    return e.result == static_cast<int>(q.size());
  case kEmpty:
    return e.result == (q.empty() ? 1 : 0);
  }
  return false;
}

bool Linearize(const std::vector<Event>& ev, uint64_t done, const std::string& q,
               std::set<std::pair<uint64_t, std::string>>& seen)
{
  if (done + 1 == (uint64_t{1} << ev.size())) return true;
  if (!seen.insert({done, q}).second) return false;
  uint64_t min_res = UINT64_MAX;
  for (size_t i = 0; i < ev.size(); ++i)
    if (!(done >> i & 1)) min_res = std::min(min_res, ev[i].res);
  for (size_t i = 0; i < ev.size(); ++i)
  {
    if (done >> i & 1) continue;
    const uint64_t lower = ev[i].actions ? ev[i].action_end : ev[i].inv;
    if (lower > min_res) continue;
    std::string q2 = q;
    if (Apply(ev[i], q2) && Linearize(ev, done | uint64_t{1} << i, q2, seen)) return true;
  }
  return false;
}

void Execute(JobCommandQueue& q, Event& e, const std::function<uint64_t()>& stamp)
{
  const auto cmd = static_cast<JobCommand>(e.op.cmd);
  e.inv = stamp();
  switch (e.op.kind)
  {
  case kPush:
    q.Push(cmd);
    e.result = 1;
    break;
  case kPrio:
    e.result = q.PriorityPush(cmd, [&] {
      ++e.actions;
      e.action_end = stamp();
    }) ? 1 : 0;
    break;
  case kPrioThrow:
    try
    {
      e.result = q.PriorityPush(cmd, [&] {
        ++e.actions;
        e.action_end = stamp();
        throw std::runtime_error("action");
      }) ? 1 : 0;
    }
    catch (const std::runtime_error&)
    {
      e.threw = true;
    }
    break;
  case kTryPop:
  {
    JobCommand out = JobCommand::kStart;
    e.result = q.TryPop(out) ? static_cast<int>(out) : -1;
    break;
  }
  case kWait:
    e.result = static_cast<int>(q.WaitForNextCommand());
    break;
  case kSize:
    e.result = static_cast<int>(q.GetSize());
    break;
  case kEmpty:
    e.result = q.IsEmpty() ? 1 : 0;
    break;
  }
  e.res = stamp();
}

OpKind RandomKind(pbt::Gen& g, bool allow_throw)
{
  static const OpKind kinds[] = {kPush, kWait, kPrio, kTryPop, kPrio, kWait, kSize, kEmpty, kPush,
                                 kPrioThrow};
  OpKind k = kinds[g.Draw(10)];
  if (k == kPrioThrow && !allow_throw) k = kPrio;
  return k;
}

#ifdef VERIF_SCHED
void Scheduled(pbt::Case& c)
{
  // Either anybody does anything, or some only wait and the others only push.
  const bool roles = c.g.Coin(1, 3);
  const int n_threads = (roles ? 3 : 2) + static_cast<int>(c.g.Draw(3));
  std::vector<std::vector<Event>> ev(n_threads + 1);
  size_t total = 0;
  for (int t = 0; t < n_threads; ++t)
  {
    const bool consumer = roles && (t < 2 || (t < n_threads - 1 && c.g.Coin()));
    const int n = 1 + static_cast<int>(c.g.Draw(consumer ? 2 : roles ? 4 : 5));
    for (int i = 0; i < n; ++i)
    {
      Event e;
      const auto kind = !roles ? RandomKind(c.g, true) : consumer ? kWait : c.g.Coin() ? kPush : kPrio;
      e.op = {kind, static_cast<int>(c.g.Range(0, 5))};
      e.thread = t + 1;
      ev[t].push_back(e);
      ++total;
    }
  }
  std::vector<int> feed;
  for (int i = 0; i < 32; ++i) feed.push_back(0);
  std::atomic<uint64_t> clock{0};
  const std::function<uint64_t()> stamp = [&] { return clock.fetch_add(1) + 1; };
  size_t fed = 0;
  ds::Options opts;
  opts.describe = [&] { return std::string("(job command queue)"); };
  bool stuck = false;
  ds::Run(c, opts, [&] {
    JobCommandQueue q;
    std::atomic<int> done{0};
    std::vector<std::thread> threads;
    for (int t = 0; t < n_threads; ++t)
    {
      threads.emplace_back([&, t] {
        for (auto& e : ev[t])
        {
          Execute(q, e, stamp);
          ds::Note(Describe(e));
        }
        ++done;
      });
    }
    ev[n_threads].reserve(64);
    while (true)
    {
      // virtual: all others are finished or blocked in a wait when this returns
      ds::SleepNs(uint64_t{3600} * 1000000000ULL);
      if (done.load() == n_threads) break;
      const auto size = q.GetSize();
      if (size != 0)
      {
        stuck = true;
        throw pbt::Failure("", pbt::Str("a consumer sleeps although the queue holds ", size,
                                        " command(s)"));
      }
      Event e;
      e.op = {kPush, 0};
      e.thread = 0;
      Execute(q, e, stamp);
      ev[n_threads].push_back(e);
      if (++fed > 40) throw pbt::Failure("", "consumers not woken by pushes");
    }
    for (auto& t : threads) t.join();
    // what is left comes out as well
    while (true)
    {
      Event e;
      e.op = {kTryPop, 0};
      Execute(q, e, stamp);
      ev[n_threads].push_back(e);
      if (e.result < 0 || ev[n_threads].size() > 60) break;
    }
  });
  std::vector<Event> all;
  for (auto& v : ev) all.insert(all.end(), v.begin(), v.end());
  bool prio = false, popped = false, waited = false;
  for (auto& e : all)
  {
    const int expect = (e.op.kind == kPrio && e.result == 1) || (e.op.kind == kPrioThrow && e.threw);
    if (e.op.kind == kPrio || e.op.kind == kPrioThrow)
    {
      PCHECK(c, e.actions == expect, "action ran ", e.actions, " times in ", Describe(e));
      prio = prio || expect;
    }
    if (e.op.kind == kWait) waited = true;
    if (e.op.kind == kTryPop && e.result >= 0 && e.thread) popped = true;
  }
  if (all.size() < 63)
  {
    std::set<std::pair<uint64_t, std::string>> seen;
    if (!Linearize(all, 0, "", seen))
    {
      std::string h;
      for (auto& e : all) h += "\n  " + Describe(e);
      c.Fail("history is not linearizable:" + h);
    }
  }
  auto st = ds::LastStats();
  if (st.switches >= 2 && (waited || popped)) c.NonTrivial();
  if (waited) c.Label("blocking consumer");
  if (fed) c.Label("consumer really slept");
  if (prio) c.Label("priority push accepted");
  if (st.spurious) c.Label("spurious wake-up injected");
  if (total >= 8) c.Label("at least 8 operations");
}

pbt::FacetOpts Opts()
{
  pbt::FacetOpts o;
  o.quick = 150000;
  o.thorough = 1500000;
  o.quick_cap_s = 90;
  o.thorough_cap_s = 900;
  o.rule = "2-4 threads with 1-5 random queue operations each under a random controlled schedule "
           "(preemption at synchronisation and memory accesses, spurious wake-ups); oracle: "
           "linearizability w.r.t. the queue model, no sleeping consumer with commands available, "
           "action exactly once before the command is consumable; non-trivial: at least two "
           "preemptions and a consumer";
  return o;
}
pbt::Facet f1("C02", "schedules", Scheduled, Opts());
#else
void Stress(pbt::Case& c)
{
  const int n_threads = 3 + static_cast<int>(c.g.Draw(2));
  std::vector<std::vector<Event>> ev(n_threads);
  for (int t = 0; t < n_threads; ++t)
  {
    const int n = 20 + static_cast<int>(c.g.Draw(60));
    for (int i = 0; i < n; ++i)
    {
      Event e;
      e.op = {RandomKind(c.g, false), static_cast<int>(c.g.Range(0, 5))};
      e.thread = t + 1;
      ev[t].push_back(e);
    }
  }
  std::map<int, long> balance;
  {
    JobCommandQueue q;
    std::atomic<int> done{0};
    std::vector<std::thread> threads;
    // each thread has its own clock: the stamps must not synchronise the threads
    for (int t = 0; t < n_threads; ++t)
    {
      threads.emplace_back([&q, &done, &ev, t] {
        uint64_t n = 0;
        for (auto& e : ev[t]) Execute(q, e, [&n] { return ++n; });
        done.fetch_add(1, std::memory_order_relaxed);
      });
    }
    while (done.load(std::memory_order_relaxed) < n_threads)
    {
      std::this_thread::sleep_for(std::chrono::microseconds(300));
      if (done.load(std::memory_order_relaxed) >= n_threads) break;
      if (q.GetSize() == 0)
      {
        q.Push(JobCommand::kStart);
        ++balance[0];
      }
    }
    for (auto& t : threads) t.join();
    JobCommand cmd;
    while (q.TryPop(cmd)) --balance[static_cast<int>(cmd)];
  }
  int pops = 0;
  for (auto& v : ev)
    for (auto& e : v)
    {
      if (e.op.kind == kPush) ++balance[e.op.cmd];
      if (e.op.kind == kPrio)
      {
        PCHECK(c, e.actions == e.result, "action ran ", e.actions, " times in ", Describe(e));
        if (e.result == 1) ++balance[e.op.cmd];
      }
      if ((e.op.kind == kTryPop || e.op.kind == kWait) && e.result >= 0)
      {
        --balance[e.result];
        ++pops;
      }
    }
  for (auto& b : balance)
    PCHECK(c, b.second == 0, "command ", kNames[b.first], ": accepted minus popped is ", b.second);
  if (pops >= 10) c.NonTrivial();
}

pbt::FacetOpts Opts()
{
  pbt::FacetOpts o;
  o.quick = 10000;
  o.thorough = 30000;
  o.workers = 3;
  o.hang_s = 30;
  o.confirm_needed = 2;
  o.confirm_runs = 8;
  o.quick_cap_s = 40;
  o.rule = "3-4 real threads with 20-80 random queue operations each under ThreadSanitizer; "
           "oracle: commands accepted = commands popped, actions run once, no data race; "
           "non-trivial: at least 10 commands popped";
  return o;
}
pbt::Facet f1("C02", "stress", Stress, Opts());
#endif
}  // namespace
