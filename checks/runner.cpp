// C13: Runner executes, pauses, stops at breakpoints and reports as documented.
#include "tree.h"

#include <sup/oac-tree/breakpoint.h>
#include <sup/oac-tree/runner.h>

using namespace tree;

namespace
{
struct MBreak
{
  int node;
  bool released;
};

void Drive(pbt::Case& c, const GenOpts& opts)
{
  Maker maker(c, opts);
  Spec spec = maker.Make();
  auto xml = SpecXml(spec);
  c.Identity(xml);
  PLOG(c) << xml;
  if (c.logging)
    for (size_t i = 0; i < spec.scripts.size(); ++i)
    {
      c.log << "leaf pid " << i << ":";
      for (auto& st : spec.scripts[i].steps) c.log << " " << St(st.status);
      c.log << "\n";
    }
  Model model(spec);
  Real real(c, spec);
  HubScope hub(&real);
  auto proc = ParseProcedureString(xml);
  PCHECK(c, proc, "could not parse the procedure");
  std::vector<std::string> updates;
  real.ui.on_variable = [&](const std::string& n, const AnyValue& v, bool) {
    if (!sup::dto::IsEmptyValue(v)) updates.push_back(n);
  };
  // A second procedure, the instructions of which are unknown to the runner.
  auto other = ParseProcedureString(xml);
  Runner runner(real.ui);
  PCHECK(c, runner.IsFinished() && !runner.IsRunning(), "a runner without procedure is not finished");
  runner.ExecuteProcedure();
  runner.ExecuteSingle();
  PCHECK(c, runner.GetBreakpoints().empty() && runner.GetCurrentBreakpointInstructions().empty(), "a new runner has breakpoints");
  if (c.g.Draw(4) == 3)
  {
    // without a procedure there is nothing to do, and nothing happens
    int ticks = 0;
    runner.SetTickCallback([&](const Procedure&) { ++ticks; });
    for (size_t i = 0, n = 1 + c.g.Draw(4); i < n; ++i)
    {
      switch (c.g.Draw(6))
      {
      case 0: runner.ExecuteProcedure(); break;
      case 1: runner.ExecuteSingle(); break;
      case 2: runner.Halt(); break;
      case 3: runner.Pause(); break;
      case 4: PCHECK(c, !runner.RemoveBreakpoint(proc->RootInstruction()), "a breakpoint was removed without a procedure"); break;
      default:
        try
        {
          runner.SetBreakpoint(proc->RootInstruction());
          c.Fail("a breakpoint was accepted without a procedure");
        }
        catch (const InvalidOperationException&) {}
      }
      PCHECK(c, runner.IsFinished() && !runner.IsRunning(), "without a procedure the runner is not finished");
      PCHECK(c, runner.GetBreakpoints().empty() && runner.GetCurrentBreakpointInstructions().empty() && !ticks, "breakpoints or ticks without a procedure");
    }
    runner.SetTickCallback();
  }
  runner.SetProcedure(proc.get());
  PCHECK(c, proc->RootInstruction() && real.Map(*model.root, proc->RootInstruction()), "the instruction tree is not the one described");
  for (auto& v : spec.vars)
    PCHECK(c, std::find(updates.begin(), updates.end(), v.name) != updates.end(), "the user interface does not know the initial value of ", v.name);

  std::vector<MBreak> breaks;
  std::vector<int> current;
  bool halted = false;
  auto compare = [&](const std::string& what) {
    for (auto* v : {&model.ev, &real.ev})
      v->erase(std::remove_if(v->begin(), v->end(), [](const Event& e) { return e.t == Event::kHalted; }), v->end());
    auto want = Normal(model.ev), got = Normal(real.ev);
    PLOG(c) << what << " =>" << Show(real.ev) << "\n";
    if (want != got) c.Fail(what + ": expected:" + Show(want) + "\n  observed:" + Show(got));
    model.ev.clear();
    real.ev.clear();
    bool fin = Model::Done(model.root->st) || model.root->halt;
    if (runner.IsFinished() != fin) c.Fail(pbt::Str(what, ": IsFinished is ", runner.IsFinished(), " with root ", St(model.root->st)));
    if (runner.IsRunning() != (model.root->st == ES::RUNNING)) c.Fail(pbt::Str(what, ": IsRunning is ", runner.IsRunning(), " with root ", St(model.root->st)));
    auto bps = runner.GetBreakpoints();
    PCHECK(c, bps.size() == breaks.size(), what, ": ", bps.size(), " breakpoints, expected ", breaks.size());
    for (auto& b : breaks)
    {
      bool found = false;
      for (auto& r : bps)
        if (real.Id(r.GetInstruction()) == b.node)
        {
          found = true;
          PCHECK(c, (r.GetStatus() == Breakpoint::kReleased) == b.released, what, ": breakpoint at #", b.node, " is ",
                 r.GetStatus() == Breakpoint::kReleased ? "" : "not ", "released");
        }
      PCHECK(c, found, what, ": breakpoint at #", b.node, " is lost");
    }
  };
  auto hits = [&] {
    std::vector<int> next, r;
    if (Model::Ready(model.root->st)) model.Next(*model.root, next);
    for (auto& b : breaks)
      if (!b.released && std::find(next.begin(), next.end(), b.node) != next.end()) r.push_back(b.node);
    std::sort(r.begin(), r.end());
    return r;
  };
  auto model_tick = [&] {
    model.Exec(*model.root);
    for (auto& b : breaks) b.released = false;
  };
  auto check_current = [&](const std::string& what) {
    std::vector<int> got;
    for (auto* i : runner.GetCurrentBreakpointInstructions()) got.push_back(real.Id(i));
    std::sort(got.begin(), got.end());
    if (got != current)
    {
      std::string a, b;
      for (int i : current) a += " #" + std::to_string(i);
      for (int i : got) b += " #" + std::to_string(i);
      c.Fail(what + ": stopped at breakpoints" + b + ", expected" + a);
    }
  };

  int stops = 0, ticks_total = 0;
  bool stop_now = false;
  int ops = 0;
  while (ops < 40 && (ops == 0 || c.g.More(14)))
  {
    ++ops;
    ++model.now;
    real.now = model.now;
    uint64_t r = c.g.Draw(24);
    if (r < 9)
    {
      // Run until finished, stopped or paused.
      int pause_after = 1 + static_cast<int>(c.g.Draw(6));
      bool halt_in = c.g.Coin(1, 12);
      int set_var = c.g.Coin(1, 3) ? 1 + static_cast<int>(c.g.Draw(3)) : 0;
      auto& var = spec.vars[c.g.Draw(spec.vars.size() - 3)];
      Val val{false, {var.elem == "bool" ? static_cast<int64_t>(c.g.Draw(2)) : c.g.Range(0, 3)}};
      int n = 0;
      bool over = Model::Done(model.root->st) || model.root->halt;
      PLOG(c) << "run, pause after " << pause_after << (halt_in ? " with halt" : "") << "\n";
      stop_now = false;
      std::vector<int> expect_hit = over ? std::vector<int>{} : hits();
      runner.SetTickCallback([&](const Procedure& p) {
        PCHECK(c, std::addressof(p) == proc.get(), "the tick callback got another procedure");
        PCHECK(c, !over, "an instruction was executed although the procedure is finished");
        PCHECK(c, expect_hit.empty(), "the procedure did not stop at the breakpoint at #", expect_hit.empty() ? -1 : expect_hit[0]);
        PCHECK(c, !stop_now, "the procedure went on after it was paused or halted");
        ++n;
        ++ticks_total;
        model_tick();
        compare("tick");
        if (set_var == n)
        {
          model.ws[var.name] = val;
          updates.clear();
          PCHECK(c, proc->GetWorkspace().SetValue(var.name, MakeValue(var, val)), "could not set ", var.name);
          PCHECK(c, updates == std::vector<std::string>{var.name}, "an update of ", var.name, " was not reported exactly once");
        }
        if (n == pause_after)
        {
          stop_now = true;
          if (halt_in)
          {
            runner.Halt();
            model.Halt(*model.root);
            halted = true;
          }
          else runner.Pause();
        }
        over = Model::Done(model.root->st) || model.root->halt;
        expect_hit = over ? std::vector<int>{} : hits();
        ++model.now;
        real.now = model.now;
      });
      runner.ExecuteProcedure();
      if (over || stop_now) current.clear();
      else
      {
        PCHECK(c, !expect_hit.empty(), "execution stopped without reason");
        current = expect_hit;
        for (auto& b : breaks)
          if (std::find(current.begin(), current.end(), b.node) != current.end()) b.released = true;
        ++stops;
      }
      check_current("after run");
      compare("after run");
    }
    else if (r < 14)
    {
      int n = 0;
      runner.SetTickCallback([&](const Procedure&) { ++n; });
      model_tick();
      runner.ExecuteSingle();
      PCHECK(c, n == 1, "the tick callback was called ", n, " times by a single step");
      current.clear();
      check_current("after a step");
      compare("step");
      ++ticks_total;
    }
    else if (r < 19)
    {
      int node = static_cast<int>(c.g.Draw(model.nodes.size()));
      bool known = false;
      for (auto& b : breaks) known = known || b.node == node;
      bool added = runner.SetBreakpoint(model.nodes[node]->real);
      PLOG(c) << "breakpoint at #" << node << "\n";
      PCHECK(c, added != known, "setting a breakpoint at #", node, " gives ", added);
      if (!known) breaks.push_back({node, false});
      compare("set breakpoint");
    }
    else if (r < 21)
    {
      int node = static_cast<int>(c.g.Draw(model.nodes.size()));
      bool known = false;
      for (size_t i = 0; i < breaks.size(); ++i)
        if (breaks[i].node == node)
        {
          breaks.erase(breaks.begin() + i);
          known = true;
          break;
        }
      PLOG(c) << "remove breakpoint at #" << node << "\n";
      PCHECK(c, runner.RemoveBreakpoint(model.nodes[node]->real) == known, "removing a breakpoint at #", node);
      compare("remove breakpoint");
    }
    else if (r == 21)
    {
      const Instruction* strange = c.g.Coin() ? other->RootInstruction() : nullptr;
      bool threw = false;
      try
      {
        runner.SetBreakpoint(strange);
      }
      catch (const InvalidOperationException&)
      {
        threw = true;
      }
      PCHECK(c, threw, "a breakpoint at an unknown instruction was accepted");
      PCHECK(c, !runner.RemoveBreakpoint(strange), "a breakpoint at an unknown instruction was removed");
      compare("strange breakpoint");
    }
    else if (r == 22 && c.g.Coin(1, 3))
    {
      runner.Halt();
      model.Halt(*model.root);
      halted = true;
      PLOG(c) << "halt\n";
      compare("halt");
    }
    else
    {
      proc->Reset(real.ui);
      model.ev.clear();
      model.Reset(*model.root);
      model.ResetVars();
      PLOG(c) << "reset\n";
      real.ev.clear();
      model.ev.clear();
      compare("reset");
    }
  }
  if (stops) c.Label("stopped at a breakpoint");
  if (halted) c.Label("halted");
  if (stops && ticks_total >= 3) c.NonTrivial();
}

void Any(pbt::Case& c)
{
  GenOpts o;
  Drive(c, o);
}
void Small(pbt::Case& c)
{
  GenOpts o;
  o.max_nodes = 6;
  o.focus = {kSeq, kRepeat, kFb, kRSeq};
  Drive(c, o);
}

#define RULE "execution stopped at a breakpoint and at least three ticks were executed"
OAC_FACET("C13", "runner", Any, oac::Opts(60000, 1500000, RULE));
OAC_FACET("C13", "small", Small, oac::Opts(60000, 1500000, RULE));

struct Init
{
  Init() { pbt::SetWorkerInit([] { RegisterProbe(); }); }
} init;
}  // namespace
