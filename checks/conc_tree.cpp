// C09 (status notifications) and C11 (halt) with asynchronous instructions, over thread schedules.
#include "conc_tree.h"

using namespace ctree;

namespace
{
struct Fixture
{
  Fixture(pbt::Case& c, const GenOpts& o) : spec(Maker(c, o).Make()), mon(c, spec), hub(&mon)
  {
    xml = SpecXml(spec);
    auto pos = xml.find("<Procedure");
    xml.insert(pos + 10, conc::kSched ? " tickTimeout=\"0.02\" timingAccuracy=\"0.01\"" : " tickTimeout=\"0.0002\" timingAccuracy=\"0.0002\"");
    PLOG(c) << xml;
    if (c.logging)
      for (size_t i = 0; i < spec.scripts.size(); ++i)
      {
        c.log << "leaf pid " << i << ":";
        for (auto& st : spec.scripts[i].steps) c.log << " " << St(st.status) << (st.work < 0 ? "(until halted)" : st.work ? pbt::Str("(", st.work, " ms)") : std::string());
        c.log << "\n";
      }
    proc = ParseProcedureString(xml);
  }
  ~Fixture() { proc.reset(); }
  Spec spec;
  std::string xml;
  Monitor mon;
  HubScope hub;
  std::unique_ptr<Procedure> proc;
};

GenOpts ConcOpts()
{
  GenOpts o;
  o.parallel = true;
  o.work = 2;
  o.any_leaves = true;
  o.timed = conc::kSched;
  o.max_nodes = 9;
  o.focus = {kParallel, kAsync, kRSeq, kRFb, kRepeat, kSeq};
  return o;
}

void Protocol(pbt::Case& c)
{
  auto opts = ConcOpts();
  opts.any_leaves = c.g.Coin(1, 3);
  Fixture f(c, opts);
  f.mon.endless = false;
  int rounds = 1 + static_cast<int>(c.g.Draw(2));
  std::vector<int> ticks;
  for (int i = 0; i < rounds; ++i) ticks.push_back(1 + static_cast<int>(c.g.Draw(12)));
  conc::Run(c, [&] {
    auto owned = std::make_unique<Runner>(f.mon.ui);
    Runner& runner = *owned;
    runner.SetProcedure(f.proc.get());
    f.mon.Load(f.proc->RootInstruction());
    for (int r = 0; r < rounds; ++r)
    {
      for (int i = 0; i < ticks[r] && !runner.IsFinished(); ++i)
      {
        runner.ExecuteSingle();
        conc::SleepMs(15);
        auto st = f.proc->RootInstruction()->GetStatus();
        if (static_cast<int>(st) != f.mon.slots[0].last.load(kRelaxed)) conc::Die("status of the root is not the one last reported");
      }
      f.proc->Reset(f.mon.ui);
      f.mon.CheckReported("after a reset");
      for (auto& sl : f.mon.slots)
        if (sl.instr->GetStatus() != ES::NOT_STARTED) conc::Die("after a reset " + f.mon.Name(f.mon.ids.at(sl.instr)) + " is " + St(sl.instr->GetStatus()));
      if (f.mon.active.load(kRelaxed) != 0) conc::Die("a leaf is still being executed after the reset");
    }
    f.mon.closed = true;
    owned.reset();
    f.proc.reset();
  });
  if (f.mon.max_active > 1) c.Label("leaves in parallel");
  if (f.mon.notifications > 6 && f.mon.slots.size() >= 3) c.NonTrivial();
}

void Halting(pbt::Case& c)
{
  auto opts = ConcOpts();
  opts.any_leaves = c.g.Coin(1, 2);
  opts.endless_wait = true;
  Fixture f(c, opts);
  uint64_t when = c.g.Draw(120);
  int yields = static_cast<int>(c.g.Draw(40));
  bool via_proc = c.g.Coin(1, 4);
  bool after = false;
  conc::Run(c, [&] {
    auto owned = std::make_unique<Runner>(f.mon.ui);
    Runner& runner = *owned;
    runner.SetProcedure(f.proc.get());
    f.mon.Load(f.proc->RootInstruction());
    TimeoutWhenRunning timeout(TickTimeoutNs(*f.proc));
    // An endless loop of immediate instructions never lets time pass: the tick takes some.
    runner.SetTickCallback([&](const Procedure& p) {
      timeout(p);
      conc::SleepMs(1);
    });
    std::atomic<bool> returned{false};
    std::thread t([&] {
      runner.ExecuteProcedure();
      returned.store(true, kRelaxed);
    });
    conc::SleepMs(when);
    for (int i = 0; i < yields; ++i) conc::Yield();
    after = returned.load(kRelaxed);
    conc::Note("halt");
    if (via_proc) f.proc->Halt();
    else runner.Halt();
    conc::Note("halt done");
    const int patience = conc::kSched ? 1 : 2000;
    for (int i = 0; i < patience && !returned.load(kRelaxed); ++i) conc::SleepMs(conc::kSched ? 4000 : 50);
    if (!returned.load(kRelaxed)) conc::Die("the procedure still executes four seconds after it was halted");
    t.join();
    for (int i = 0; i < patience && f.mon.active.load(kRelaxed) != 0; ++i) conc::SleepMs(conc::kSched ? 4000 : 50);
    if (f.mon.active.load(kRelaxed) != 0) conc::Die("a leaf is still being executed eight seconds after the procedure was halted");
    conc::SleepMs(100);
    f.mon.closed = true;
    conc::SleepMs(500);
    if (!runner.IsFinished()) conc::Die("a halted procedure does not count as finished");
    f.proc->Reset(f.mon.ui);
    for (auto& sl : f.mon.slots)
    {
      if (sl.instr->GetStatus() != ES::NOT_STARTED) conc::Die("after a reset " + f.mon.Name(f.mon.ids.at(sl.instr)) + " is " + St(sl.instr->GetStatus()));
      if (sl.instr->IsHaltRequested()) conc::Die("after a reset " + f.mon.Name(f.mon.ids.at(sl.instr)) + " is still told to halt");
    }
    if (f.mon.live.load(kRelaxed) != 0) conc::Die("a request to the user survived the reset");
    owned.reset();
    f.proc.reset();
  });
  if (f.mon.max_active > 1) c.Label("leaves in parallel");
  if (!after && f.mon.notifications > 3)
  {
    c.NonTrivial();
    c.Label("halted while executing");
  }
}

CONC_FACET("C09", "protocol", Protocol, conc::Opts(12000, 150000, "more than six status notifications of a tree of at least three nodes"));
CONC_FACET("C11", "halt", Halting, conc::Opts(16000, 150000, "the procedure had started and was still executing when it was halted"));

struct Init
{
  Init() { pbt::SetWorkerInit([] { RegisterProbe(); }); }
} init;
}  // namespace
