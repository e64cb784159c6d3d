// C14: AsyncRunner, the state machine of an asynchronously executed procedure.
#include "async_model.h"

using namespace amodel;

namespace
{
#ifdef VERIF_SCHED
void Scripted(pbt::Case& c)
{
  GenOpts o;
  o.max_nodes = 9;
  ScriptedCase sc(c, o);
  AModel model(sc.spec, sc.table);
  Real real(c, sc.spec);
  HubScope hub(&real);
  auto proc = ParseProcedureString(sc.xml);
  PCHECK(c, proc, "could not parse the procedure");
  int handled = 0;
  conc::Run(c, [&] {
    Target target;
    ScriptedEars ears(real, sc.table, target);
    JobUI ui(real.ui, ears);
    target.ar = std::make_unique<AsyncRunner>(*proc, ui);
    {
      conc::Quiet quiet;
      if (!real.Map(*model.tree.root, proc->RootInstruction())) conc::Die("the instruction tree is not the one described");
      if (real.ev.size() != 1 || real.ev[0].ctx != "<Initial>") conc::Die("a new runner reports" + Show(real.ev));
      real.ev.clear();
    }
    ears.root = proc->RootInstruction();
    ears.timeout = sc.timeout;
    auto set_break = [&](int node, bool set) {
      auto* instr = node < 0 ? nullptr : model.tree.nodes[node]->real;
      if (set) target.ar->SetBreakpoint(instr);
      else target.ar->RemoveBreakpoint(instr);
    };
    handled = RunOps(c, sc, model, real, ears, target, set_break, [] {});
    // Ending the runner does not execute anything any more.
    target.ar.reset();
    real.ev.erase(std::remove_if(real.ev.begin(), real.ev.end(), [](const Event& e) { return e.t == Event::kHalted; }), real.ev.end());
    if (!real.ev.empty()) conc::Die("while ending:" + Show(real.ev));
    proc.reset();
  });
  if (model.stops) c.Label("stopped at a breakpoint");
  if (model.ticks >= 2 && handled >= 2) c.NonTrivial();
}
CONC_FACET("C14", "scripted", Scripted, conc::Opts(14000, 400000, "at least two ticks and two handled batches of commands"));
#endif

// ------------------------------------------------------------------------------- racing commands
GenOpts RacingOpts()
{
  GenOpts o;
  o.work = 2;
  o.timed = conc::kSched;
  o.max_nodes = 6;
  return o;
}

void Racing(pbt::Case& c)
{
  auto o = RacingOpts();
  o.any_leaves = c.g.Coin(1, 4);
  o.parallel = c.g.Coin(1, 2);
  Spec spec = Maker(c, o).Make();
  auto xml = SpecXml(spec);
  AddTimeout(xml, conc::kSched ? "tickTimeout=\"0.01\" timingAccuracy=\"0.01\"" : "tickTimeout=\"0.0002\" timingAccuracy=\"0.0002\"");
  LogSpec(c, spec, xml);
  auto clients = MakeClients(c);
  auto breaks = MakeBreakOps(c);
  bool end_now = c.g.Coin(1, 4), restart = c.g.Coin();
  Monitor mon(c, spec);
  HubScope hub(&mon);
  auto proc = ParseProcedureString(xml);
  PCHECK(c, proc, "could not parse the procedure");
  Automaton autom(mon);
  autom.threads = o.parallel;
  auto protocol = mon.ui.on_status;
  mon.ui.on_status = [&](const Instruction* i) {
    autom.OnStatus(i);
    protocol(i);
  };
  conc::Run(c, [&] {
    Target target;
    JobUI ui(mon.ui, autom);
    target.ar = std::make_unique<AsyncRunner>(*proc, ui);
    mon.Load(proc->RootInstruction());
    autom.root.store(proc->RootInstruction(), kRelaxed);
    if (autom.Now() != JobState::kInitial) conc::Die("a new runner is not in its initial state");
    std::vector<const Instruction*> all;
    std::function<void(const Instruction*)> walk = [&](const Instruction* i) {
      all.push_back(i);
      for (auto* k : i->ChildInstructions()) walk(k);
    };
    walk(proc->RootInstruction());
    RunClients(clients, target, breaks.empty() ? std::function<void()>() : [&] {
      std::set<const Instruction*> set;
      for (auto& b : breaks)
      {
        auto* i = all[b.node % all.size()];
        const bool change = b.set ? set.insert(i).second : set.erase(i) > 0;
        const int before = autom.breaks.load(kRelaxed);
        b.set ? target.ar->SetBreakpoint(i) : target.ar->RemoveBreakpoint(i);
        if (autom.breaks.load(kRelaxed) != before + (change ? 1 : 0)) conc::Die("a change of a breakpoint is not reported once");
        if (b.pause) conc::SleepMs(b.pause);
      }
      for (auto* i : set) target.ar->RemoveBreakpoint(i);
    });
    if (!end_now)
    {
      target.Do(kCHalt);
      auto fin = [&] { return autom.Now() == JobState::kHalted || autom.Now() == JobState::kFailed || autom.Now() == JobState::kSucceeded; };
      // Commands that were queued before (Reset, Start) are handled first.
      int rounds = 0, still = 0;
      while (still < 3)
      {
        if (++rounds > (conc::kSched ? 60 : 6000)) conc::Die(std::string("halted, but the state stays ") + StateName(autom.Now()));
        conc::SleepMs(200);
        if (fin())
        {
          ++still;
          continue;
        }
        still = 0;
        target.Do(kCHalt);
      }
      if (conc::kSched && mon.active.load(kRelaxed)) conc::Die("a leaf is still executed after the halt");
      target.Do(kCReset);
      if (!WaitFor([&] { return autom.Now() == JobState::kInitial; }, 3000)) conc::Die(std::string("reset, but the state stays ") + StateName(autom.Now()));
      auto ticks = autom.ticks.load(kRelaxed);
      target.Do(kCPause);
      target.Do(kCReset);
      target.Do(kCStep);
      if (!WaitFor([&] { return autom.Now() != JobState::kInitial; }, 3000)) conc::Die("a step after the reset was ignored");
      if (!WaitFor([&] { return autom.ticks.load(kRelaxed) == ticks + 1 || autom.Now() == JobState::kStepping; }, 3000)) conc::Die("a step after the reset made no tick");
      if (restart) target.Do(kCStart);
    }
    target.ar.reset();
    if (o.parallel) proc.reset();
    mon.closed = true;
    if (mon.active.load(kRelaxed)) conc::Die("a leaf is still executed after the end of the runner");
    proc.reset();
    if (mon.live.load(kRelaxed)) conc::Die("a user request is still open after the end");
  });
  if (autom.states.load() >= 3 && autom.ticks.load() >= 2) c.NonTrivial();
}
CONC_FACET("C14", "racing", Racing, conc::Opts(9000, 300000, "at least three state changes and two ticks"));

struct Init
{
  Init() { pbt::SetWorkerInit([] { RegisterProbe(); }); }
} init;
}  // namespace
