// The state machine of an asynchronously executed procedure: reference model and drivers shared by
// the checks of AsyncRunner and LocalJob.
#ifndef VERIF_ASYNC_MODEL_H_
#define VERIF_ASYNC_MODEL_H_

#include "conc_tree.h"

#include <sup/oac-tree/async_runner.h>
#include <sup/oac-tree/i_job_info_io.h>
#include <sup/oac-tree/job_info.h>
#include <sup/oac-tree/job_interface.h>
#include <sup/oac-tree/local_job.h>

#include <condition_variable>
#include <deque>
#include <set>

namespace amodel
{
using namespace ctree;

enum Cmd { kCStart, kCStep, kCPause, kCReset, kCHalt };
inline const char* CmdName(Cmd m)
{
  static const char* n[] = {"Start", "Step", "Pause", "Reset", "Halt"};
  return n[m];
}
inline const char* StateName(JobState s)
{
  static const char* n[] = {"Initial", "Paused", "Stepping", "Running", "Succeeded", "Failed", "Halted"};
  return n[static_cast<int>(s)];
}
inline bool Busy(JobState s) { return s == JobState::kRunning || s == JobState::kStepping; }

inline void AddTimeout(std::string& xml, const std::string& t)
{
  auto pos = xml.find("<Procedure");
  xml.insert(pos + 10, " " + t);
}

// Either an AsyncRunner or a LocalJob.
struct Target
{
  std::unique_ptr<AsyncRunner> ar;
  std::unique_ptr<LocalJob> job;
  void Do(Cmd m)
  {
    switch (m)
    {
    case kCStart: ar ? ar->Start() : job->Start(); break;
    case kCStep: ar ? ar->Step() : job->Step(); break;
    case kCPause: ar ? ar->Pause() : job->Pause(); break;
    case kCReset: ar ? ar->Reset() : job->Reset(); break;
    case kCHalt: ar ? ar->Halt() : job->Halt(); break;
    }
  }
};

using Table = std::vector<std::vector<Cmd>>;
constexpr size_t kMaxEvents = 50;

inline std::string TickText(const std::set<int>& leaves)
{
  std::string r = "tick(next";
  for (int n : leaves) r += " #" + std::to_string(n);
  return r + ")";
}

// ------------------------------------------------------------------------------- reference model
struct MBreak
{
  int node;
  bool released;
};

class AModel
{
public:
  AModel(const Spec& s, const Table& t) : tree(s), table(t) {}

  void Other(const std::string& s) { tree.ev.push_back({Event::kOther, 0, 0, s}); }
  void Scripted(bool tick)
  {
    size_t n = events++;
    if (n < table.size())
      for (auto m : table[n]) Push(m);
    else if (tick && n >= kMaxEvents) Push(kCPause);
  }
  void Emit(JobState s)
  {
    Other(std::string("<") + StateName(s) + ">");
    if (s != JobState::kStepping) state = s;
    Scripted(false);
  }
  void Push(Cmd m)
  {
    if (m != kCHalt)
    {
      q.push_back(m);
      return;
    }
    if (!q.empty() && q.front() == kCHalt) return;
    tree.Halt(*tree.root);
    q.push_front(m);
  }
  void Exec()
  {
    ++ticks;
    tree.Exec(*tree.root);
    for (auto& b : breaks) b.released = false;
  }
  void TickEvent()
  {
    std::vector<int> next;
    if (Model::Ready(tree.root->st)) tree.Next(*tree.root, next);
    std::set<int> in(next.begin(), next.end()), leaves;
    for (int n : next)
    {
      bool inner = false;
      for (auto& k : tree.nodes[n]->kids) inner = inner || in.count(k->id);
      if (!inner) leaves.insert(n);
    }
    Other(TickText(leaves));
    ++tree.now;
    Scripted(true);
  }
  bool Done() { return Model::Done(tree.root->st); }
  bool Finished()
  {
    if (!Done()) return false;
    Emit(tree.root->st == ES::SUCCESS ? JobState::kSucceeded : JobState::kFailed);
    return true;
  }
  void RunAll()
  {
    bool stop = false;
    while (!Done() && !tree.root->halt && !stop)
    {
      std::vector<int> next;
      if (Model::Ready(tree.root->st)) tree.Next(*tree.root, next);
      bool hit = false;
      for (auto& b : breaks)
        if (!b.released && std::find(next.begin(), next.end(), b.node) != next.end()) hit = b.released = true;
      if (hit)
      {
        ++stops;
        Emit(JobState::kPaused);
        return;
      }
      Exec();
      if (!Finished() && !q.empty())
      {
        auto m = q.front();
        q.pop_front();
        if (m == kCStep || m == kCPause)
        {
          stop = true;
          Emit(JobState::kPaused);
        }
        else if (m == kCHalt) Emit(JobState::kHalted);
      }
      TickEvent();
    }
  }
  void Loop()
  {
    while (!q.empty())
    {
      auto m = q.front();
      q.pop_front();
      switch (state)
      {
      case JobState::kInitial:
      case JobState::kPaused:
        if (m == kCStart)
        {
          Emit(JobState::kRunning);
          RunAll();
        }
        else if (m == kCStep)
        {
          Emit(JobState::kStepping);
          Exec();
          TickEvent();
          if (!Finished()) Emit(JobState::kPaused);
        }
        else if (m == kCHalt) Emit(JobState::kHalted);
        break;
      case JobState::kRunning:
        // The halt request ended the execution before its command was handled.
        if (m == kCHalt) Emit(JobState::kHalted);
        break;
      default:
        if (m == kCReset)
        {
          tree.Reset(*tree.root);
          tree.ResetVars();
          Emit(JobState::kInitial);
        }
        break;
      }
    }
  }

  Model tree;
  const Table& table;
  std::deque<Cmd> q;
  JobState state = JobState::kInitial;
  std::vector<MBreak> breaks;
  size_t events = 0;
  int ticks = 0, stops = 0;
};

// --------------------------------------------------------------------------------- the real side
struct Ears
{
  virtual ~Ears() = default;
  virtual void State(JobState s) = 0;
  virtual void Tick(const std::vector<const Instruction*>& next) = 0;
  virtual void Break(const Instruction* i, bool set) = 0;
};

class JobUI : public JobInterface
{
public:
  JobUI(HookUI& u, Ears& e) : ui(u), ears(e) {}
  void UpdateInstructionStatus(const Instruction* i) override { ui.UpdateInstructionStatus(i); }
  void VariableUpdated(const std::string& n, const AnyValue& v, bool c) override { ui.VariableUpdated(n, v, c); }
  bool PutValue(const AnyValue& v, const std::string& d) override { return ui.PutValue(v, d); }
  std::unique_ptr<IUserInputFuture> RequestUserInput(const UserInputRequest& r) override { return ui.RequestUserInput(r); }
  void Message(const std::string& m) override { ui.Message(m); }
  void Log(int s, const std::string& m) override { ui.Log(s, m); }
  void OnStateChange(JobState s) noexcept override { ears.State(s); }
  void OnBreakpointChange(const Instruction* i, bool b) noexcept override { ears.Break(i, b); }
  void OnProcedureTick(const Procedure& p) override { ears.Tick(GetNextLeaves(p)); }
  HookUI& ui;
  Ears& ears;
};

struct ScriptedEars : Ears
{
  ScriptedEars(Real& r, const Table& t, Target& x) : real(r), table(t), target(x) {}
  void Other(const std::string& s)
  {
    real.ev.push_back({Event::kOther, 0, 0, s});
    conc::Note(s);
  }
  void Scripted(bool tick)
  {
    size_t n = events++;
    if (n < table.size())
      for (auto m : table[n])
      {
        conc::Note(std::string("scripted ") + CmdName(m));
        target.Do(m);
      }
    else if (tick && n >= kMaxEvents) target.Do(kCPause);
  }
  void State(JobState s) override
  {
    state = s;
    Other(std::string("<") + StateName(s) + ">");
    if (s == JobState::kInitial && first)
    {
      first = false;
      return;
    }
    Scripted(false);
  }
  void Tick(const std::vector<const Instruction*>& next) override
  {
    std::set<int> ids;
    for (auto* i : next)
      if (!ids.insert(real.Id(i)).second) conc::Die("an instruction is reported twice as next");
    TickNext(ids);
  }
  void TickNext(const std::set<int>& leaves)
  {
    auto now = conc::NowMs();
    if (root && root->GetStatus() == ES::RUNNING && state == JobState::kRunning && now < exec_at + timeout)
      conc::Die(pbt::Str("the tick of a running procedure took ", now - exec_at, " ms instead of ", timeout));
    exec_at = now;
    Other(TickText(leaves));
    ++real.now;
    Scripted(true);
  }
  void Break(const Instruction* i, bool set) override { changes.emplace_back(real.Id(i), set); }
  Real& real;
  const Table& table;
  Target& target;
  size_t events = 0;
  bool first = true;
  JobState state = JobState::kInitial;
  const Instruction* root = nullptr;
  uint64_t exec_at = 0, timeout = 0;
  std::vector<std::pair<int, bool>> changes;
};

inline std::string Names(const std::vector<Cmd>& v)
{
  std::string r;
  for (auto m : v) r += std::string(" ") + CmdName(m);
  return r;
}

inline void LogSpec(pbt::Case& c, const Spec& spec, const std::string& xml)
{
  PLOG(c) << xml;
  if (c.logging)
    for (size_t i = 0; i < spec.scripts.size(); ++i)
    {
      c.log << "leaf pid " << i << ":";
      for (auto& st : spec.scripts[i].steps) c.log << " " << St(st.status) << (st.work < 0 ? "(until halted)" : st.work ? pbt::Str("(", st.work, " ms)") : std::string());
      c.log << "\n";
    }
}

struct Op
{
  int kind;  // 0 commands, 1 set breakpoint, 2 remove breakpoint
  std::vector<Cmd> cmds;
  uint64_t node = 0;
};

// Commands of a client that waits until each batch is handled, and commands given from callbacks.
struct ScriptedCase
{
  ScriptedCase(pbt::Case& c, const GenOpts& o) : spec(Maker(c, o).Make()), xml(SpecXml(spec))
  {
    static const std::vector<std::pair<std::string, int>> touts{{"", 0}, {"0.0", 0}, {"0.01", 10}, {"0.25", 250}};
    auto to = c.g.Pick(touts);
    if (!to.first.empty()) AddTimeout(xml, "tickTimeout=\"" + to.first + "\"");
    timeout = to.second;
    c.Identity(xml);
    LogSpec(c, spec, xml);
    static const std::vector<Cmd> pool{kCStart, kCStep, kCPause, kCReset, kCHalt, kCStart, kCReset};
    for (uint64_t i = 0, n = c.g.Draw(12); i < n; ++i)
    {
      table.emplace_back();
      if (c.g.Coin(1, 4))
        for (uint64_t k = 0, m = 1 + c.g.Draw(3); k < m; ++k) table.back().push_back(c.g.Pick(pool));
      if (!table.back().empty()) PLOG(c) << "at event " << i << ":" << Names(table.back()) << "\n";
    }
    uint64_t nops = 2 + c.g.Draw(12);
    for (uint64_t i = 0; i < nops; ++i)
    {
      Op op{};
      uint64_t r = c.g.Draw(20);
      op.kind = r < 14 ? 0 : r < 18 ? 1 : 2;
      if (op.kind == 0)
        for (uint64_t k = 0, m = 1 + (c.g.Coin(1, 4) ? c.g.Draw(4) : 0); k < m; ++k) op.cmds.push_back(c.g.Pick(pool));
      else op.node = c.g.Draw(1000);
      ops.push_back(op);
    }
  }
  Spec spec;
  std::string xml;
  int timeout = 0;
  Table table;
  std::vector<Op> ops;
};

#ifdef VERIF_SCHED
inline int RunOps(pbt::Case& c, ScriptedCase& sc, AModel& model, Real& real, ScriptedEars& ears, Target& target,
                  const std::function<void(int, bool)>& set_break, const std::function<void()>& extra)
{
  int handled = 0;
  auto compare = [&](const std::string& what) {
    conc::Quiet quiet;
    for (auto* v : {&model.tree.ev, &real.ev})
      v->erase(std::remove_if(v->begin(), v->end(), [](const Event& e) { return e.t == Event::kHalted; }), v->end());
    auto want = Normal(model.tree.ev), got = Normal(real.ev);
    PLOG(c) << what << " =>" << Show(got) << "\n";
    if (want != got) conc::Die(what + ": expected:" + Show(want) + "\n  observed:" + Show(got));
    model.tree.ev.clear();
    real.ev.clear();
    extra();
  };
  for (auto& op : sc.ops)
  {
    if (op.kind == 0)
    {
      conc::Note("client:" + Names(op.cmds));
      {
        ds::Keep keep;
        ears.exec_at = conc::NowMs();
        for (auto m : op.cmds) target.Do(m);
      }
      conc::SleepMs(100000);
      for (auto m : op.cmds) model.Push(m);
      model.Loop();
      compare("client:" + Names(op.cmds));
      ++handled;
    }
    else
    {
      int node = static_cast<int>(op.node % model.tree.nodes.size());
      auto it = std::find_if(model.breaks.begin(), model.breaks.end(), [&](auto& b) { return b.node == node; });
      bool set = op.kind == 1;
      bool change = set == (it == model.breaks.end());
      if (change && set) model.breaks.push_back({node, false});
      if (change && !set) model.breaks.erase(it);
      ears.changes.clear();
      set_break(node, set);
      if (ears.changes.size() != (change ? 1u : 0u) || (change && (ears.changes[0].first != node || ears.changes[0].second != set)))
        conc::Die(pbt::Str(set ? "setting" : "removing", " a breakpoint at #", node, " reported ", ears.changes.size(), " changes"));
      ears.changes.clear();
      set_break(-1, true);
      set_break(-1, false);
      if (!ears.changes.empty()) conc::Die("a change of a breakpoint nowhere was reported");
      compare(pbt::Str(set ? "set" : "remove", " breakpoint #", node));
    }
  }
  return handled;
}
#endif

class Automaton : public Ears
{
public:
  explicit Automaton(Monitor& m) : mon(m) {}
  static bool Legal(JobState a, JobState b)
  {
    switch (a)
    {
    case JobState::kInitial:
    case JobState::kPaused: return Busy(b) || b == JobState::kHalted;
    case JobState::kRunning: return b == JobState::kPaused || b == JobState::kHalted || b == JobState::kSucceeded || b == JobState::kFailed;
    case JobState::kStepping: return b == JobState::kPaused || b == JobState::kSucceeded || b == JobState::kFailed;
    default: return b == JobState::kInitial;
    }
  }
  void State(JobState s) override
  {
    int before = state.exchange(static_cast<int>(s), kRelaxed);
    conc::Note(std::string("<") + StateName(s) + ">");
    if (before < 0)
    {
      if (s != JobState::kInitial) conc::Die(std::string("the first state is ") + StateName(s));
      return;
    }
    auto b = static_cast<JobState>(before);
    if (!Legal(b, s)) conc::Die(std::string("the state goes from ") + StateName(b) + " to " + StateName(s));
    if (b == JobState::kStepping && ticks_in_step.load(kRelaxed) != 1) conc::Die(pbt::Str("a step made ", ticks_in_step.load(kRelaxed), " ticks"));
    ticks_in_step.store(0, kRelaxed);
    auto* r = root.load(kRelaxed);
    auto rs = r->GetStatus();
    if ((s == JobState::kSucceeded) != (rs == ES::SUCCESS) && s != JobState::kHalted) conc::Die(std::string("state ") + StateName(s) + " with root " + St(rs));
    if ((s == JobState::kFailed) != (rs == ES::FAILURE) && s != JobState::kHalted) conc::Die(std::string("state ") + StateName(s) + " with root " + St(rs));
    if (s == JobState::kInitial && rs != ES::NOT_STARTED) conc::Die("state Initial with root " + St(rs));
    states.fetch_add(1, kRelaxed);
    conc::Yield();
  }
  void Tick(const std::vector<const Instruction*>&) override
  {
    ticks_in_step.fetch_add(1, kRelaxed);
    ticks.fetch_add(1, kRelaxed);
    conc::SleepMs(1);
  }
  void Break(const Instruction*, bool) override { breaks.fetch_add(1, kRelaxed); }
  void OnStatus(const Instruction* i)
  {
    auto st = i->GetStatus();
    auto s = static_cast<JobState>(state.load(kRelaxed));
    if (st == ES::NOT_STARTED)
    {
      if (Busy(s) && i == root.load(kRelaxed)) conc::Die("the root is reset while " + std::string(StateName(s)));
      return;
    }
    if (!threads && !Busy(s)) conc::Die("an instruction goes to " + St(st) + " in state " + StateName(s));
  }
  JobState Now() { return static_cast<JobState>(state.load(kRelaxed)); }

  Monitor& mon;
  bool threads = false;  // with children that go on by themselves
  std::atomic<int> state{-1}, ticks_in_step{0}, states{0}, ticks{0}, breaks{0};
  std::atomic<const Instruction*> root{nullptr};
};

// Waits at most `ms` for a state; real time is generous.
template <typename F>
bool WaitFor(F f, uint64_t ms)
{
  if (!conc::kSched) ms = 500000;
  for (uint64_t i = 0; i < ms; i += 5)
  {
    if (f()) return true;
    conc::SleepMs(5);
  }
  return f();
}

struct Client
{
  std::vector<std::pair<Cmd, int>> cmds;  // and the pause after it
};

inline std::vector<Client> MakeClients(pbt::Case& c)
{
  static const std::vector<Cmd> pool{kCStart, kCStep, kCPause, kCReset, kCHalt, kCStart, kCStep, kCReset};
  std::vector<Client> r(1 + c.g.Draw(3));
  for (auto& cl : r)
    for (uint64_t i = 0, n = 1 + c.g.Draw(6); i < n; ++i)
      cl.cmds.emplace_back(c.g.Pick(pool), static_cast<int>(c.g.Coin() ? c.g.Draw(40) : 0));
  for (size_t i = 0; i < r.size(); ++i)
  {
    PLOG(c) << "client " << i << ":";
    for (auto& m : r[i].cmds) PLOG(c) << " " << CmdName(m.first) << "," << m.second;
    PLOG(c) << "\n";
  }
  return r;
}

inline void RunClients(const std::vector<Client>& clients, Target& target, const std::function<void()>& other = {})
{
  std::vector<std::thread> threads;
  if (other) threads.emplace_back(other);
  for (auto& cl : clients)
    threads.emplace_back([&] {
      for (auto& [m, pause] : cl.cmds)
      {
        conc::Note(CmdName(m));
        target.Do(m);
        if (pause) conc::SleepMs(pause);
      }
    });
  for (auto& t : threads) t.join();
}

// Breakpoints that are set and removed meanwhile.
struct BreakOp
{
  uint64_t node;
  bool set;
  int pause;
};

inline std::vector<BreakOp> MakeBreakOps(pbt::Case& c)
{
  std::vector<BreakOp> r;
  if (c.g.Coin()) return r;
  for (uint64_t i = 0, n = 1 + c.g.Draw(8); i < n; ++i)
    r.push_back({c.g.Draw(6), !c.g.Coin(1, 3), static_cast<int>(c.g.Coin() ? c.g.Draw(20) : 0)});
  PLOG(c) << "breakpoints:";
  for (auto& b : r) PLOG(c) << (b.set ? " +" : " -") << b.node << "," << b.pause;
  PLOG(c) << "\n";
  return r;
}

}  // namespace amodel
#endif
