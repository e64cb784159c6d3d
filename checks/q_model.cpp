// C01: job command queue, sequential histories against a reference model.
#include "pbt.h"

#include <sup/oac-tree/job_command_queue.h>

#include <algorithm>
#include <deque>
#include <stdexcept>

using namespace sup::oac_tree;

namespace
{
const char* kNames[] = {"Start", "Step", "Pause", "Reset", "Halt", "Terminate"};

void SequentialHistory(pbt::Case& c)
{
  JobCommandQueue queue;
  std::deque<int> model;
  JobCommandQueue other;
  std::deque<int> other_model;
  unsigned long pops = 0, refused = 0, jumped = 0, failed = 0, n = 0;
  const uint64_t mean = 4 + 4 * c.g.Size();
  while (c.g.More(mean) && n < 2000)
  {
    ++n;
    switch (c.g.Draw(8))
    {
    case 0:
    case 1:
    case 2:
    {
      int cmd = c.g.Range(0, 5);
      PLOG(c) << "Push(" << kNames[cmd] << ")\n";
      queue.Push(static_cast<JobCommand>(cmd));
      model.push_back(cmd);
      break;
    }
    case 3:
    case 4:
    {
      int cmd = c.g.Range(0, 5);
      const bool with_func = !c.g.Coin(1, 8);
      int calls = 0;
      std::function<void()> func;
      const bool throws = with_func && c.g.Coin(1, 10);
      if (with_func)
        func = [&calls, throws, cmd, &other] {
          ++calls;
          other.Push(static_cast<JobCommand>(cmd));  // queues are independent
          if (throws) throw std::runtime_error("action");
        };
      const bool expect = model.empty() || cmd > model.front();
      if (expect && throws)
      {
        // the command is not accepted when its action fails
        PLOG(c) << "PriorityPush(" << kNames[cmd] << ", action that throws)\n";
        bool threw = false;
        try
        {
          (void)queue.PriorityPush(static_cast<JobCommand>(cmd), func);
        }
        catch (const std::runtime_error&)
        {
          threw = true;
        }
        other_model.push_back(cmd);
        PCHECK(c, threw && calls == 1, "the exception of the action is lost, or it ran ", calls, " times");
        ++failed;
        break;
      }
      if (expect && !model.empty()) ++jumped;
      const bool got = queue.PriorityPush(static_cast<JobCommand>(cmd), func);
      PLOG(c) << "PriorityPush(" << kNames[cmd] << (with_func ? "" : ", no action") << ") -> "
              << got << "\n";
      PCHECK(c, got == expect, "PriorityPush(", kNames[cmd], ") returned ", got, ", front is ",
             model.empty() ? "none" : kNames[model.front()]);
      PCHECK(c, calls == (expect && with_func ? 1 : 0), "action ran ", calls, " times");
      if (expect && with_func) other_model.push_back(cmd);
      if (expect) model.push_front(cmd);
      else ++refused;
      break;
    }
    case 5:
    {
      int before = c.g.Range(0, 5);
      JobCommand cmd = static_cast<JobCommand>(before);
      const bool got = queue.TryPop(cmd);
      PLOG(c) << "TryPop() -> " << got << "\n";
      PCHECK(c, got == !model.empty(), "TryPop returned ", got);
      if (got)
      {
        PCHECK(c, static_cast<int>(cmd) == model.front(), "TryPop gave ",
               kNames[static_cast<int>(cmd)], " expected ", kNames[model.front()]);
        model.pop_front();
        ++pops;
      }
      else
      {
        PCHECK(c, static_cast<int>(cmd) == before, "failed TryPop changed its argument");
      }
      break;
    }
    case 6:
    {
      if (model.empty()) break;
      auto cmd = queue.WaitForNextCommand();
      PLOG(c) << "WaitForNextCommand() -> " << kNames[static_cast<int>(cmd)] << "\n";
      PCHECK(c, static_cast<int>(cmd) == model.front(), "WaitForNextCommand gave ",
             kNames[static_cast<int>(cmd)], " expected ", kNames[model.front()]);
      model.pop_front();
      ++pops;
      break;
    }
    default:
      break;
    }
    PCHECK(c, queue.GetSize() == model.size(), "size ", queue.GetSize(), " expected ",
           model.size());
    PCHECK(c, queue.IsEmpty() == model.empty(), "IsEmpty ", queue.IsEmpty());
  }
  // drain: everything accepted comes out, in order
  while (!model.empty())
  {
    JobCommand cmd;
    PCHECK(c, queue.TryPop(cmd), "TryPop on a queue of ", model.size());
    PCHECK(c, static_cast<int>(cmd) == model.front(), "drain gave ",
           kNames[static_cast<int>(cmd)], " expected ", kNames[model.front()]);
    model.pop_front();
  }
  PCHECK(c, queue.IsEmpty(), "not empty after drain");
  for (int want : other_model)
  {
    JobCommand cmd;
    PCHECK(c, other.TryPop(cmd) && static_cast<int>(cmd) == want, "the queue that the actions push to");
  }
  PCHECK(c, other.IsEmpty(), "the queue that the actions push to has more");
  if (pops >= 2 && (refused || jumped)) c.NonTrivial();
  if (refused) c.Label("with a refused priority command");
  if (jumped) c.Label("with a priority command overtaking");
  if (n > 50) c.Label("more than 50 operations");
  if (failed) c.Label("with an action that failed");
}

// Long queues: bulks of pushes and pops.
void LongQueue(pbt::Case& c)
{
  JobCommandQueue queue;
  std::deque<int> model;
  size_t longest = 0;
  unsigned long popped = 0;
  for (uint64_t s = 0, n = 2 + c.g.Draw(6); s < n; ++s)
  {
    const uint64_t count = c.g.Coin() ? c.g.Draw(300) : c.g.Draw(6000);
    const int a = c.g.Range(0, 5), b = c.g.Coin() ? a : c.g.Range(0, 5);
    const uint64_t every = 1 + c.g.Draw(5);
    switch (c.g.Draw(4))
    {
    case 0:
    case 1:
      PLOG(c) << count << " times Push(" << kNames[a] << "), each " << every << "th " << kNames[b] << "\n";
      for (uint64_t i = 0; i < count; ++i)
      {
        const int cmd = i % every ? a : b;
        queue.Push(static_cast<JobCommand>(cmd));
        model.push_back(cmd);
      }
      break;
    case 2:
      PLOG(c) << count << " pops\n";
      for (uint64_t i = 0; i < count; ++i)
      {
        JobCommand cmd = JobCommand::kStart;
        const bool got = queue.TryPop(cmd);
        PCHECK(c, got == !model.empty(), "TryPop returned ", got, " with ", model.size(), " commands");
        if (!got) break;
        PCHECK(c, static_cast<int>(cmd) == model.front(), "TryPop gave ", kNames[static_cast<int>(cmd)], " expected ", kNames[model.front()]);
        model.pop_front();
        ++popped;
      }
      break;
    default:
    {
      int calls = 0;
      const bool expect = model.empty() || a > model.front();
      const bool got = queue.PriorityPush(static_cast<JobCommand>(a), [&calls] { ++calls; });
      PLOG(c) << "PriorityPush(" << kNames[a] << ") -> " << got << "\n";
      PCHECK(c, got == expect && calls == (expect ? 1 : 0), "PriorityPush returned ", got, ", action ran ", calls, " times");
      if (expect) model.push_front(a);
    }
    }
    longest = std::max(longest, model.size());
    PCHECK(c, queue.GetSize() == model.size() && queue.IsEmpty() == model.empty(), "size ", queue.GetSize(), " expected ", model.size());
  }
  while (!model.empty())
  {
    auto cmd = queue.WaitForNextCommand();
    PCHECK(c, static_cast<int>(cmd) == model.front(), "drain gave ", kNames[static_cast<int>(cmd)], " expected ", kNames[model.front()]);
    model.pop_front();
  }
  PCHECK(c, queue.IsEmpty(), "not empty after drain");
  if (longest > 500 && popped) c.NonTrivial();
  if (longest > 10000) c.Label("more than 10000 commands in the queue");
}

pbt::FacetOpts Opts()
{
  pbt::FacetOpts o;
  o.quick = 400000;
  o.thorough = 6000000;
  o.rule = "random histories of Push/PriorityPush/TryPop/WaitForNextCommand over all commands, "
           "checked step by step against a deque model; non-trivial: at least two commands popped "
           "and a priority command that overtook or was refused";
  return o;
}
pbt::Facet f1("C01", "sequential", SequentialHistory, Opts());
pbt::FacetOpts LongOpts()
{
  pbt::FacetOpts o;
  o.quick = 4000;
  o.thorough = 60000;
  o.rule = "bulks of up to 6000 pushes and pops, with priority commands between them, against a deque model; non-trivial: more than "
           "500 commands in the queue at once and some popped";
  return o;
}
pbt::Facet f2("C01", "long", LongQueue, LongOpts());
}  // namespace
