// C12: parallel and asynchronous execution, over thread schedules.
#include "conc.h"
#include "oac.h"

#include <sup/oac-tree/procedure.h>

#include <atomic>

using namespace oac;

namespace
{
constexpr auto kRelaxed = std::memory_order_relaxed;

struct Step
{
  ES status;
  int work;  // ms; negative: until halted
};

struct Leaf
{
  std::vector<Step> steps;
  int Work() const
  {
    int w = 0;
    for (auto& s : steps) w += s.work < 0 ? 0 : s.work + 1;
    return w;
  }
};

Leaf MakeLeaf(pbt::Case& c, bool endless)
{
  Leaf l;
  int n = static_cast<int>(c.g.Draw(3));
  for (int i = 0; i < n; ++i) l.steps.push_back({c.g.Coin() ? ES::RUNNING : ES::NOT_FINISHED, static_cast<int>(c.g.Draw(4))});
  Step last{c.g.Coin() ? ES::FAILURE : ES::SUCCESS, static_cast<int>(c.g.Draw(6))};
  if (endless && c.g.Coin(1, 6)) last = {ES::FAILURE, -1};
  l.steps.push_back(last);
  return l;
}

class ParHub : public ProbeHub
{
public:
  struct State
  {
    std::atomic<int> pos{0}, inside{0}, begun{0}, reset{0};
  };
  explicit ParHub(const std::vector<Leaf>& l) : leaves(l), st(l.size()) {}

  bool Init(VProbe& p, UserInterface&, Workspace&) override
  {
    st[p.Pid()].pos.store(0, kRelaxed);
    return true;
  }
  ES Exec(VProbe& p, UserInterface&, Workspace&) override
  {
    auto& s = st[p.Pid()];
    if (s.inside.fetch_add(1, kRelaxed) != 0) conc::Die("leaf " + std::to_string(p.Pid()) + " is executed by two threads at once");
    if (closed.load(kRelaxed)) conc::Die("leaf " + std::to_string(p.Pid()) + " is executed although everything was reset");
    if (stopped_at.load(kRelaxed) && conc::kSched && conc::NowMs() > stopped_at.load(kRelaxed))
      conc::Die("leaf " + std::to_string(p.Pid()) + " is executed after the result was known");
    int a = active.fetch_add(1, kRelaxed) + 1;
    int seen = max_active.load(kRelaxed);
    while (seen < a && !max_active.compare_exchange_weak(seen, a, kRelaxed)) {}
    s.begun.fetch_add(1, kRelaxed);
    conc::Note("leaf " + std::to_string(p.Pid()) + " begins");
    auto& steps = leaves[p.Pid()].steps;
    auto pos = s.pos.fetch_add(1, kRelaxed);
    if (pos >= static_cast<int>(steps.size())) conc::Die("leaf " + std::to_string(p.Pid()) + " is executed although it is finished");
    auto& step = steps[pos];
    auto res = step.status;
    if (rendezvous)
    {
      if (arrived.fetch_add(1, kRelaxed) + 1 < rendezvous)
        for (int i = 0; i < 400 && arrived.load(kRelaxed) < rendezvous; ++i) conc::SleepMs(10);
      if (arrived.load(kRelaxed) < rendezvous) conc::Die("the children of a parallel sequence are not executed at the same time");
    }
    if (step.work < 0)
    {
      for (int i = 0; !p.IsHaltRequested(); ++i)
      {
        if (conc::kSched && i > 1000) conc::Die("leaf " + std::to_string(p.Pid()) + " was not halted");
        conc::SleepMs(5);
      }
      res = ES::FAILURE;
    }
    else if (step.work) conc::SleepMs(step.work);
    conc::Note("leaf " + std::to_string(p.Pid()) + " ends with " + St(res));
    active.fetch_sub(1, kRelaxed);
    s.inside.fetch_sub(1, kRelaxed);
    return res;
  }

  const std::vector<Leaf>& leaves;
  std::vector<State> st;
  std::atomic<int> active{0}, max_active{0}, arrived{0};
  std::atomic<uint64_t> stopped_at{0};
  std::atomic<bool> closed{false};
  int rendezvous = 0;
};

struct Thresholds
{
  bool s_set = false, f_set = false, from_var = false;
  int s = 0, f = 0;  // as written
  int S = 0, F = 0;  // effective
};

Thresholds MakeThresholds(pbt::Case& c, int n)
{
  Thresholds t;
  t.s_set = c.g.Coin();
  t.f_set = c.g.Coin();
  t.s = static_cast<int>(c.g.Draw(n + 3));
  t.f = static_cast<int>(c.g.Draw(n + 3));
  t.S = t.s_set ? std::min(n, t.s) : n;
  t.F = t.f_set ? std::min(n, t.f) : 1;
  if (t.s_set) t.F = std::min(t.F, n - t.S + 1);
  else if (t.f_set) t.S = n + 1 - t.F;
  return t;
}

Node ParNode(const Thresholds& t)
{
  Node p("ParallelSequence");
  if (t.s_set) p.A("successThreshold", std::to_string(t.s));
  if (t.f_set) p.A("failureThreshold", std::to_string(t.f));
  return p;
}

void LogLeaves(pbt::Case& c, const std::vector<Leaf>& leaves)
{
  if (!c.logging) return;
  for (size_t i = 0; i < leaves.size(); ++i)
  {
    c.log << "leaf " << i << ":";
    for (auto& s : leaves[i].steps) c.log << " " << St(s.status) << (s.work < 0 ? "(until halted)" : s.work ? pbt::Str("(", s.work, " ms)") : std::string());
    c.log << "\n";
  }
}

// Ticks far apart: every child is idle when the parallel sequence is ticked, so that its status is
// determined by the children that had finished before.
void Settled(pbt::Case& c)
{
  int n = 1 + static_cast<int>(c.g.Draw(5));
  auto t = MakeThresholds(c, n);
  if (t.s_set && t.s == 0 && !c.g.Coin(1, 4)) t = MakeThresholds(c, n);
  std::vector<Leaf> leaves;
  auto node = ParNode(t);
  for (int i = 0; i < n; ++i)
  {
    leaves.push_back(MakeLeaf(c, false));
    auto leaf = Probe(i);
    int wrap = static_cast<int>(c.g.Draw(6));
    if (wrap == 1) node.K(Node("Inverter").K(leaf));
    else if (wrap == 2) node.K(Node("ForceSuccess").K(leaf));
    else if (wrap == 3) node.K(Node("Async").K(leaf));
    else node.K(leaf);
  }
  int rounds = 1 + static_cast<int>(c.g.Draw(2));
  auto xml = ProcXml({node});
  PLOG(c) << xml;
  LogLeaves(c, leaves);
  ParHub hub(leaves);
  HubScope scope(&hub);
  HookUI ui;
  auto proc = ParseProcedureString(xml);
  proc->Setup();
  bool mixed = false;
  conc::Run(c, [&] {
    auto* root = proc->RootInstruction();
    auto kids = root->ChildInstructions();
    for (int r = 0; r < rounds; ++r)
    {
      int ticks = 0;
      while (true)
      {
        int ns = 0, nf = 0;
        for (auto* k : kids)
        {
          ns += k->GetStatus() == ES::SUCCESS;
          nf += k->GetStatus() == ES::FAILURE;
        }
        auto before = conc::NowMs();
        root->ExecuteSingle(ui, proc->GetWorkspace());
        if (conc::kSched && conc::NowMs() != before) conc::Die("executing a parallel sequence waits for its children");
        auto st = root->GetStatus();
        conc::Note(pbt::Str("tick ", ticks, ": ", ns, " succeeded, ", nf, " failed before; ", St(st)));
        ES want = ns >= t.S ? ES::SUCCESS : nf >= t.F ? ES::FAILURE : ES::RUNNING;
        bool finished = st == ES::SUCCESS || st == ES::FAILURE;
        if (finished != (want != ES::RUNNING) || (finished && st != want))
          conc::Die(pbt::Str("with ", ns, " successful and ", nf, " failed of ", n, " children the parallel sequence (success at ", t.S, ", failure at ", t.F, ") is ", St(st)));
        if (ns && nf) mixed = true;
        if (finished) break;
        if (++ticks > 24) conc::Die("a parallel sequence does not finish although its children do");
        conc::SleepMs(60);
      }
      conc::SleepMs(60);
      if (hub.active.load(kRelaxed)) conc::Die("a child is still executed long after the parallel sequence finished");
      root->Reset(ui);
      if (root->GetStatus() != ES::NOT_STARTED) conc::Die("status after reset is " + St(root->GetStatus()));
      for (auto* k : kids)
        if (k->GetStatus() != ES::NOT_STARTED) conc::Die("status of a child after reset is " + St(k->GetStatus()));
    }
  });
  if (n >= 2 && mixed) c.NonTrivial();
  if (t.s_set && t.f_set) c.Label("both thresholds");
}

// Ticks at arbitrary moments: the result must follow from the children that have finished.
void Racing(pbt::Case& c)
{
  int n = 1 + static_cast<int>(c.g.Draw(4));
  auto t = MakeThresholds(c, n);
  std::vector<Leaf> leaves;
  auto node = ParNode(t);
  for (int i = 0; i < n; ++i)
  {
    leaves.push_back(MakeLeaf(c, true));
    node.K(c.g.Coin(1, 5) ? Node("Async").K(Probe(i)) : Probe(i));
  }
  bool wrapped = c.g.Coin(1, 4);
  auto xml = ProcXml({wrapped ? Node("Sequence").K(node) : node});
  std::vector<int> gaps;
  for (int i = 0; i < 30; ++i) gaps.push_back(static_cast<int>(c.g.Draw(5)));
  int reset_at = c.g.Coin(1, 3) ? static_cast<int>(c.g.Draw(12)) : 1000;
  PLOG(c) << xml;
  LogLeaves(c, leaves);
  ParHub hub(leaves);
  HubScope scope(&hub);
  HookUI ui;
  auto proc = ParseProcedureString(xml);
  proc->Setup();
  bool interesting = false;
  conc::Run(c, [&] {
    auto* top = proc->RootInstruction();
    auto* root = wrapped ? top->ChildInstructions()[0] : top;
    auto kids = root->ChildInstructions();
    auto count = [&](ES s) {
      int k = 0;
      for (auto* i : kids) k += i->GetStatus() == s;
      return k;
    };
    bool endless = false;
    int unfinished_can = n;
    for (auto& l : leaves)
      if (l.steps.back().work < 0) endless = true, --unfinished_can;
    int ticks = 0;
    uint64_t start = conc::NowMs();
    for (;; ++ticks)
    {
      if (ticks == reset_at) break;
      int s0 = count(ES::SUCCESS), f0 = count(ES::FAILURE);
      top->ExecuteSingle(ui, proc->GetWorkspace());
      int s1 = count(ES::SUCCESS), f1 = count(ES::FAILURE);
      auto st = root->GetStatus();
      conc::Note(pbt::Str("tick ", ticks, ": ", St(st)));
      if (s0 != s1 || f0 != f1) interesting = true;
      if (st == ES::SUCCESS && s1 < t.S) conc::Die(pbt::Str("success although ", s1, " of ", t.S, " children succeeded"));
      if (st == ES::FAILURE && f1 < t.F) conc::Die(pbt::Str("failure although ", f1, " of ", t.F, " children failed"));
      if (st == ES::SUCCESS || st == ES::FAILURE) break;
      if (conc::kSched && !endless && conc::NowMs() - start > 2000) conc::Die("a parallel sequence does not finish although its children do");
      if (ticks > (endless ? 50 : 300)) break;
      conc::SleepMs(ticks < 30 ? gaps[ticks] : 10);
    }
    auto st = root->GetStatus();
    if (st == ES::SUCCESS || st == ES::FAILURE)
    {
      // The remaining children are halted: what has not begun yet does not begin any more.
      hub.stopped_at.store(conc::NowMs(), kRelaxed);
      for (auto* k : kids)
        if (!k->IsHaltRequested()) conc::Die("a child of a finished parallel sequence is not told to halt");
      conc::SleepMs(40);
      if (conc::kSched && hub.active.load(kRelaxed)) conc::Die("a child is still executed long after the parallel sequence finished");
    }
    hub.stopped_at.store(0, kRelaxed);
    proc->Reset(ui);
    if (hub.active.load(kRelaxed)) conc::Die("a reset returned while a child is executed");
    hub.closed = true;
    if (root->GetStatus() != ES::NOT_STARTED) conc::Die("status after reset is " + St(root->GetStatus()));
    for (auto* k : kids)
    {
      if (k->GetStatus() != ES::NOT_STARTED) conc::Die("status of a child after reset is " + St(k->GetStatus()));
      if (k->IsHaltRequested()) conc::Die("a child is still told to halt after a reset");
    }
    conc::SleepMs(50);
  });
  if (n >= 2 && interesting) c.NonTrivial();
}

// All children really run at the same time, also nested ones.
void Together(pbt::Case& c)
{
  std::vector<Leaf> leaves;
  int budget = 2 + static_cast<int>(c.g.Draw(5));
  std::function<Node(int)> make = [&](int depth) -> Node {
    if (depth && (leaves.size() + 1 >= static_cast<size_t>(budget) || c.g.Coin()))
    {
      leaves.push_back({{{ES::SUCCESS, static_cast<int>(c.g.Draw(3))}}});
      auto leaf = Probe(static_cast<int>(leaves.size()) - 1);
      return c.g.Coin(1, 4) ? Node("Async").K(leaf) : leaf;
    }
    Node p(depth < 3 && c.g.Coin(2, 3) ? "ParallelSequence" : "ParallelSequence");
    int n = 1 + static_cast<int>(c.g.Draw(3));
    for (int i = 0; i < n; ++i) p.K(make(depth + 1));
    return depth && c.g.Coin(1, 4) ? Node("Sequence").K(p) : p;
  };
  auto xml = ProcXml({make(0)});
  PLOG(c) << xml;
  ParHub hub(leaves);
  hub.rendezvous = static_cast<int>(leaves.size());
  HubScope scope(&hub);
  HookUI ui;
  auto proc = ParseProcedureString(xml);
  proc->Setup();
  conc::Run(c, [&] {
    auto* root = proc->RootInstruction();
    for (int i = 0; i < 400; ++i)
    {
      root->ExecuteSingle(ui, proc->GetWorkspace());
      auto st = root->GetStatus();
      if (st == ES::FAILURE) conc::Die("a tree of successful leaves fails");
      if (st == ES::SUCCESS) break;
      conc::SleepMs(3);
    }
    if (root->GetStatus() != ES::SUCCESS) conc::Die("a tree of successful leaves does not finish");
    proc->Reset(ui);
    hub.closed = true;
  });
  if (leaves.size() >= 2) c.NonTrivial();
}

// Async: the status of the child, without waiting for it.
void AsyncOne(pbt::Case& c)
{
  std::vector<Leaf> leaves{MakeLeaf(c, false)};
  if (c.g.Coin())
  {
    leaves[0].steps.insert(leaves[0].steps.begin(), {ES::RUNNING, 1 + static_cast<int>(c.g.Draw(8))});
  }
  auto xml = ProcXml({Node("Async").K(Probe(0))});
  PLOG(c) << xml;
  LogLeaves(c, leaves);
  int gap = 1 + static_cast<int>(c.g.Draw(12));
  int rounds = 1 + static_cast<int>(c.g.Draw(2));
  int stop = c.g.Coin(1, 3) ? static_cast<int>(c.g.Draw(6)) : 1000;
  ParHub hub(leaves);
  HubScope scope(&hub);
  HookUI ui;
  auto proc = ParseProcedureString(xml);
  proc->Setup();
  int total = 0;
  conc::Run(c, [&] {
    auto* root = proc->RootInstruction();
    auto* leaf = root->ChildInstructions()[0];
    for (int r = 0; r < rounds; ++r)
    {
      hub.st[0].begun.store(0, kRelaxed);
      for (int i = 0; i < stop; ++i)
      {
        if (i > 300) conc::Die("an asynchronous instruction does not finish although its child does");
        auto settled = leaf->GetStatus();
        bool idle = hub.active.load(kRelaxed) == 0;
        auto before = conc::NowMs();
        root->ExecuteSingle(ui, proc->GetWorkspace());
        if (conc::kSched && conc::NowMs() != before) conc::Die("executing an asynchronous instruction waits for its child");
        auto st = root->GetStatus();
        conc::Note("tick: " + St(st));
        if (st == ES::SUCCESS || st == ES::FAILURE)
        {
          if (leaf->GetStatus() != st) conc::Die("an asynchronous instruction is " + St(st) + " while its child is " + St(leaf->GetStatus()));
        }
        else if (conc::kSched && gap > 10 && idle && (settled == ES::SUCCESS || settled == ES::FAILURE))
          conc::Die("an asynchronous instruction is " + St(st) + " although its child is " + St(settled) + " for long");
        if (st == ES::NOT_STARTED) conc::Die("an executed asynchronous instruction is not started");
        ++total;
        if (st == ES::SUCCESS || st == ES::FAILURE)
        {
          if (st != leaves[0].steps.back().status) conc::Die("the result is not the one of the last execution of the child");
          if (hub.st[0].begun.load(kRelaxed) != static_cast<int>(leaves[0].steps.size())) conc::Die("the child was not executed until it finished");
          break;
        }
        conc::SleepMs(gap);
      }
      root->Reset(ui);
      if (hub.active.load(kRelaxed)) conc::Die("a reset returned while the child is executed");
      if (root->GetStatus() != ES::NOT_STARTED || leaf->GetStatus() != ES::NOT_STARTED) conc::Die("status after a reset");
    }
    hub.closed = true;
  });
  if (total >= 3) c.NonTrivial();
}

CONC_FACET("C12", "settled", Settled, conc::Opts(8000, 150000, "at least two children, successful and failed ones seen together", 10));
CONC_FACET("C12", "racing", Racing, conc::Opts(16000, 300000, "at least two children and a child finished during a tick", 10));
CONC_FACET("C12", "together", Together, conc::Opts(4000, 80000, "at least two leaves", 10));
CONC_FACET("C12", "async", AsyncOne, conc::Opts(10000, 200000, "at least three ticks", 10));

struct Init
{
  Init() { pbt::SetWorkerInit([] { RegisterProbe(); }); }
} init;
}  // namespace
