// C13: breakpoints in the branches of parallel and asynchronous instructions, over thread schedules.
#include "conc.h"
#include "oac.h"

#include <sup/oac-tree/breakpoint.h>
#include <sup/oac-tree/procedure.h>
#include <sup/oac-tree/runner.h>

#include <atomic>

using namespace oac;

namespace
{
constexpr auto kRelaxed = std::memory_order_relaxed;

struct Step
{
  ES status;
  int work;
};

class BreakHub : public ProbeHub
{
public:
  struct State
  {
    std::atomic<int> pos{0}, inside{0}, execs{0}, last{0};
    std::atomic<bool> armed{false};   // the runner has a breakpoint here
    std::atomic<int> allowed{0};      // stops that were not followed by an execution yet
  };
  BreakHub(const std::vector<std::vector<Step>>& s, const std::vector<char>& r) : scripts(s), repeated(r), st(s.size()) {}

  bool Init(VProbe& p, UserInterface&, Workspace&) override
  {
    st[p.Pid()].last.store(static_cast<int>(ES::NOT_STARTED), kRelaxed);
    return true;
  }
  ES Exec(VProbe& p, UserInterface&, Workspace&) override
  {
    auto& s = st[p.Pid()];
    if (s.inside.fetch_add(1, kRelaxed) != 0) conc::Die("leaf " + std::to_string(p.Pid()) + " is executed by two threads at once");
    if (s.armed.load(kRelaxed))
    {
      const auto last = static_cast<ES>(s.last.load(kRelaxed));
      if (s.allowed.load(kRelaxed)) s.allowed.fetch_sub(1, kRelaxed);
      else if (last != ES::RUNNING && !repeated[p.Pid()])
        conc::Die("leaf " + std::to_string(p.Pid()) + ", " + St(last) + " before, is executed although its breakpoint did not stop the procedure");
    }
    s.execs.fetch_add(1, kRelaxed);
    conc::Note("leaf " + std::to_string(p.Pid()) + " begins");
    auto& steps = scripts[p.Pid()];
    auto step = steps[s.pos.fetch_add(1, kRelaxed) % steps.size()];
    if (step.work) conc::SleepMs(step.work);
    s.last.store(static_cast<int>(step.status), kRelaxed);
    conc::Note("leaf " + std::to_string(p.Pid()) + " ends with " + St(step.status));
    s.inside.fetch_sub(1, kRelaxed);
    return step.status;
  }

  const std::vector<std::vector<Step>>& scripts;
  const std::vector<char>& repeated;
  std::vector<State> st;
};

struct Gen
{
  pbt::Case& c;
  std::vector<std::vector<Step>> scripts;
  std::vector<char> repeated;  // below a Repeat, which resets its child only when it executes it again
  int parallel = 0, repeats = 0;

  Node Leaf()
  {
    std::vector<Step> steps;
    int n = static_cast<int>(c.g.Draw(3));
    for (int i = 0; i < n; ++i) steps.push_back({c.g.Coin() ? ES::RUNNING : ES::NOT_FINISHED, static_cast<int>(c.g.Draw(4))});
    steps.push_back({c.g.Coin(1, 6) ? ES::FAILURE : ES::SUCCESS, static_cast<int>(c.g.Draw(6))});
    scripts.push_back(steps);
    repeated.push_back(repeats > 0);
    return Probe(static_cast<int>(scripts.size()) - 1);
  }
  Node Make(int depth)
  {
    if (depth > 3 || scripts.size() > 8 || (depth && c.g.Coin(1, 3))) return Leaf();
    switch (c.g.Draw(depth ? 7 : 3))
    {
    case 0: return Many("ParallelSequence", depth, 1 + static_cast<int>(c.g.Draw(3)));
    case 1: return Many("Sequence", depth, 1 + static_cast<int>(c.g.Draw(3)));
    case 2:
    {
      auto r = Node("Repeat").A("maxCount", std::to_string(1 + c.g.Draw(3)));
      ++repeats;
      r.K(Make(depth + 1));
      --repeats;
      return r;
    }
    case 3: return Many("Fallback", depth, 1 + static_cast<int>(c.g.Draw(3)));
    case 4: return Node("Inverter").K(Make(depth + 1));
    case 5: return Node("ForceSuccess").K(Make(depth + 1));
    default: return Node("Async").K(Make(depth + 1));
    }
  }
  Node Many(const std::string& type, int depth, int n)
  {
    Node p(type);
    if (type == "ParallelSequence") ++parallel;
    for (int i = 0; i < n; ++i) p.K(Make(depth + 1));
    return p;
  }
};

void Branches(pbt::Case& c)
{
  Gen gen{c, {}, {}};
  auto top = gen.Make(0);
  if (!gen.parallel) top = Node("ParallelSequence").K(top).K(gen.Make(2));
  auto xml = ProcXml({top});
  c.Identity(xml);
  const int n = static_cast<int>(gen.scripts.size());
  std::vector<char> set(n);
  for (int i = 0; i < n; ++i) set[i] = c.g.Coin();
  std::vector<int> changes;
  for (int i = 0; i < 12; ++i) changes.push_back(c.g.Coin(1, 4) ? static_cast<int>(c.g.Draw(n)) : -1);
  const int pause = c.g.Coin(1, 3) ? 1 + static_cast<int>(c.g.Draw(10)) : 0;
  const int rounds = 1 + static_cast<int>(c.g.Draw(2));
  PLOG(c) << xml;
  if (c.logging)
    for (int i = 0; i < n; ++i)
    {
      c.log << "leaf " << i << (set[i] ? " (breakpoint):" : ":");
      for (auto& s : gen.scripts[i]) c.log << " " << St(s.status) << "(" << s.work << " ms)";
      c.log << "\n";
    }
  BreakHub hub(gen.scripts, gen.repeated);
  HubScope scope(&hub);
  HookUI ui;
  auto proc = ParseProcedureString(xml);
  int stops = 0, late = 0;
  conc::Run(c, [&] {
    Runner runner(ui);
    runner.SetProcedure(proc.get());
    std::vector<const Instruction*> leaf(n);
    std::map<const Instruction*, int> id;
    std::function<void(const Instruction*)> find = [&](const Instruction* i) {
      if (auto* p = dynamic_cast<const VProbe*>(i)) leaf[p->Pid()] = i, id[i] = p->Pid();
      for (auto* k : i->ChildInstructions()) find(k);
    };
    find(proc->RootInstruction());
    for (int i = 0; i < n; ++i)
      if (set[i])
      {
        hub.st[i].armed.store(true, kRelaxed);
        if (!runner.SetBreakpoint(leaf[i])) conc::Die("setting a breakpoint at leaf " + std::to_string(i));
      }
    for (int r = 0; r < rounds; ++r)
    {
      int ticks = 0;
      runner.SetTickCallback([&](const Procedure& p) {
        ++ticks;
        if (ticks == pause) runner.Pause();
        conc::SleepMs(p.GetStatus() == ES::RUNNING ? 2 : 0);
        if (ticks > 3000) conc::Die("a procedure of leaves that finish does not finish");
      });
      size_t turn = 0;
      for (int i = 0; !runner.IsFinished(); ++i)
      {
        if (i > 1000) conc::Die("a procedure of leaves that finish does not finish in 1000 runs");
        const int before = ticks;
        runner.ExecuteProcedure();
        auto at = runner.GetCurrentBreakpointInstructions();
        if (at.empty())
        {
          if (!runner.IsFinished() && !(pause && before < pause && ticks >= pause)) conc::Die("execution stopped without reason");
          continue;
        }
        ++stops;
        if (ticks > 1) ++late;
        for (auto* k : at)
        {
          auto it = id.find(k);
          if (it == id.end()) conc::Die("stopped at an instruction without breakpoint");
          auto& s = hub.st[it->second];
          conc::Note("stopped at leaf " + std::to_string(it->second));
          if (!s.armed.load(kRelaxed)) conc::Die("stopped at leaf " + std::to_string(it->second) + " without breakpoint");
          if (s.inside.load(kRelaxed)) conc::Die("stopped at leaf " + std::to_string(it->second) + " while it is executed");
          auto status = k->GetStatus();
          if (!gen.repeated[it->second] && status != ES::NOT_STARTED && status != ES::NOT_FINISHED) conc::Die("stopped at leaf " + std::to_string(it->second) + " which is " + St(status));
          if (s.allowed.load(kRelaxed)) conc::Die("stopped at leaf " + std::to_string(it->second) + " again without execution");
          s.allowed.store(1, kRelaxed);
        }
        // a change of the breakpoints at leaves that are not about to be executed
        const int ch = turn < changes.size() ? changes[turn] : -1;
        ++turn;
        if (ch >= 0 && hub.st[ch].armed.load(kRelaxed) && runner.RemoveBreakpoint(leaf[ch]))
        {
          hub.st[ch].armed.store(false, kRelaxed);
          hub.st[ch].allowed.store(0, kRelaxed);
          conc::Note("removed the breakpoint at leaf " + std::to_string(ch));
        }
      }
      proc->Reset(ui);
      for (auto& s : hub.st)
      {
        s.allowed.store(0, kRelaxed);
        s.pos.store(0, kRelaxed);
        s.last.store(static_cast<int>(ES::NOT_STARTED), kRelaxed);
        if (s.inside.load(kRelaxed)) conc::Die("a reset returned while a leaf is executed");
      }
    }
  });
  if (stops > 1 && late) c.NonTrivial();
  if (gen.parallel > 1) c.Label("nested");
}

CONC_FACET("C13", "branches", Branches, conc::Opts(16000, 300000, "at least two stops at breakpoints, one of them after the first tick", 12));

struct Init
{
  Init() { pbt::SetWorkerInit([] { RegisterProbe(); }); }
} init;
}  // namespace
