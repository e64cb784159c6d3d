// C34: whichever way a procedure is executed (by hand, by a runner, as a job, at once, in steps or
// interrupted by pauses and breakpoints), and also after its text was written and read again, it
// does the same.
#include "async_model.h"

#include <sup/oac-tree/application_utils.h>
#include <sup/oac-tree/instruction_info.h>
#include <sup/oac-tree/sequence_parser.h>
#include <sup/oac-tree/workspace_info.h>

using namespace amodel;

namespace
{
constexpr int kMaxTicks = 120;

// What a procedure did.
struct Trace
{
  std::vector<std::string> did;
  std::string end;
};

// Leaves follow their scripts; everything is written down.
class Recorder : public ProbeHub
{
public:
  explicit Recorder(const Spec& s) : spec(s), pos(s.scripts.size()), inits(s.scripts.size())
  {
    ui.on_status = [this](const Instruction* i) { Status(Number(i), i->GetStatus()); };
    ui.on_message = [this](const std::string& m) { Did("message " + m); };
    ui.on_log = [this](int sev, const std::string& m) { Did("log " + std::to_string(sev) + " " + m); };
    ui.on_put = [this](const AnyValue& v, const std::string& d) {
      Did("put " + Json(v) + " " + d);
      return true;
    };
    ui.on_request = [this](const UserInputRequest& r) -> std::unique_ptr<IUserInputFuture> {
      auto rep = spec.replies[n_requests++ % spec.replies.size()];
      if (rep.null) return std::make_unique<UnsupportedInputFuture>();
      auto f = std::make_unique<FnFuture>();
      f->id = n_requests;
      f->ready = [] { return true; };
      if (r.m_request_type == InputRequestType::kUserValue)
      {
        AnyValue v{r.m_input_type};
        if (v.GetType() == sup::dto::SignedInteger32Type) v = static_cast<sup::dto::int32>(rep.choice);
        f->value = [rep, v] { return UserInputReply{InputRequestType::kUserValue, rep.result, v}; };
      }
      else
        f->value = [rep] { return UserInputReply{InputRequestType::kUserChoice, rep.result, AnyValue{static_cast<sup::dto::int32>(rep.choice)}}; };
      Did("request " + std::to_string(static_cast<int>(r.m_request_type)));
      return f;
    };
  }
  void Attach(const Procedure& p)
  {
    number.clear();
    Walk(p.RootInstruction());
    last.assign(number.size(), ES::NOT_STARTED);
    trace = {};
  }
  bool Init(VProbe& p, UserInterface&, Workspace&) override
  {
    const auto n = inits.at(p.Pid())++;
    Did("init " + std::to_string(p.Pid()));
    return n > 62 || !(spec.scripts[p.Pid()].init_fail >> n & 1);
  }
  ES Exec(VProbe& p, UserInterface&, Workspace& ws) override
  {
    auto& steps = spec.scripts[p.Pid()].steps;
    auto& st = steps[pos.at(p.Pid())++ % steps.size()];
    std::string seen;
    for (auto& v : spec.vars)
    {
      AnyValue x;
      seen += ws.GetValue(v.name, x) ? " " + Json(x) : " -";
    }
    Did("leaf " + std::to_string(p.Pid()) + " " + St(st.status) + " with" + seen);
    if (st.var >= 0) ws.SetValue(spec.vars[st.var].name, MakeValue(spec.vars[st.var], st.val));
    return st.status;
  }
  void ResetDone(VProbe& p, UserInterface&) override { Did("reset " + std::to_string(p.Pid())); }

  void Did(const std::string& s)
  {
    if (trace.did.size() < 20000) trace.did.push_back(s);
  }
  void Status(int n, ES st)
  {
    last[n] = st;
    Did("#" + std::to_string(n) + " " + St(st));
  }
  int Number(const Instruction* i) const
  {
    auto it = number.find(i);
    return it == number.end() ? -1 : it->second;
  }
  std::vector<const Instruction*> All() const
  {
    std::vector<const Instruction*> r(number.size());
    for (auto& [i, n] : number) r[n] = i;
    return r;
  }

  const Spec& spec;
  HookUI ui;
  Trace trace;
  std::vector<ES> last;
  int n_requests = 0;

private:
  void Walk(const Instruction* i)
  {
    number.emplace(i, static_cast<int>(number.size()));
    for (auto* k : i->ChildInstructions()) Walk(k);
  }
  std::map<const Instruction*, int> number;
  std::vector<int> pos, inits;
};

std::string State(const Procedure& p)
{
  std::string r;
  for (auto& n : p.VariableNames())
  {
    AnyValue v;
    r += " " + n + "=" + (p.GetVariableValue(n, v) ? Json(v) : "-");
  }
  return r;
}

// Interruptions, decided beforehand.
struct Plan
{
  std::vector<uint64_t> draws;
  size_t at = 0;
  uint64_t Next(uint64_t n) { return draws[at++ % draws.size()] % n; }
};

void Compare(const Trace& want, const Trace& got, const std::string& way, const std::function<void(const std::string&)>& fail)
{
  for (size_t i = 0; i < std::max(want.did.size(), got.did.size()); ++i)
    if (i >= want.did.size() || i >= got.did.size() || want.did[i] != got.did[i])
    {
      std::string m = way + ": differs from execution by hand after " + std::to_string(i) + " events:\n  by hand:";
      for (size_t j = i > 4 ? i - 4 : 0; j < i + 6 && j < want.did.size(); ++j) m += "\n    " + want.did[j];
      m += "\n  " + way + ":";
      for (size_t j = i > 4 ? i - 4 : 0; j < i + 6 && j < got.did.size(); ++j) m += "\n    " + got.did[j];
      return fail(m);
    }
  if (want.end != got.end) fail(way + ": ends with" + got.end + "\n  instead of" + want.end);
}

// Index of the job's instructions in the order of the tree.
void Numbers(const InstructionInfo& info, std::map<uint32_t, int>& m)
{
  m.emplace(info.GetIndex(), static_cast<int>(m.size()));
  for (auto* k : info.Children()) Numbers(*k, m);
}

class JobIO : public IJobInfoIO
{
public:
  explicit JobIO(Recorder& r) : rec(r) {}
  Recorder& rec;
  std::map<uint32_t, int> number;
  std::map<uint32_t, AnyValue> values;
  JobState state = JobState::kInitial;
  void InitNumberOfInstructions(sup::dto::uint32) override {}
  void InstructionStateUpdated(sup::dto::uint32 i, InstructionState s) override
  {
    if (number.empty()) return;
    const auto n = number.at(i);
    if (rec.last[n] != s.m_execution_status) rec.Status(n, s.m_execution_status);  // else only the breakpoint changed
  }
  void VariableUpdated(sup::dto::uint32 i, const AnyValue& v, bool) override { values[i] = v; }
  void JobStateUpdated(JobState s) override { state = s; }
  void PutValue(const AnyValue& v, const std::string& d) override { rec.ui.on_put(v, d); }
  bool GetUserValue(sup::dto::uint64, AnyValue&, const std::string&) override { return false; }
  int GetUserChoice(sup::dto::uint64, const std::vector<std::string>&, const AnyValue&) override { return -1; }
  void Interrupt(sup::dto::uint64) override {}
  void Message(const std::string& m) override { rec.ui.on_message(m); }
  void Log(int s, const std::string& m) override { rec.ui.on_log(s, m); }
  void NextInstructionsUpdated(const std::vector<sup::dto::uint32>&) override {}
};

class StateMonitor : public JobStateMonitor
{
public:
  JobState state = JobState::kInitial;
  void OnStateChange(JobState s) noexcept override { state = s; }
  void OnBreakpointChange(const Instruction*, bool) noexcept override {}
  void OnProcedureTick(const Procedure&) override {}
};

bool Asks(const D& d)
{
  if (d.k == kUChoice || (d.k == kXml && (d.x.type == "Input" || d.x.type == "UserConfirmation"))) return true;
  for (auto& k : d.kids)
    if (Asks(k)) return true;
  return false;
}

void Ways(pbt::Case& c)
{
  auto& g = c.g;
  GenOpts o;
  o.any_leaves = g.Coin();
  o.user = g.Draw(3) == 0;
  if (g.Coin()) o.focus = {kSeq, kFb, kRepeat, kFor, kChoice, kRSeq, kRFb};
  Maker maker(c, o);
  const Spec spec = maker.Make();
  const auto xml = SpecXml(spec);
  const int way = static_cast<int>(g.Draw(5));
  static const char* const names[] = {"Runner at once", "Runner in steps", "Runner with interruptions", "AsyncRunner", "LocalJob"};
  const bool rewritten = g.Coin(1, 3);
  Plan plan;
  for (uint64_t i = 0, n = 1 + g.Draw(25); i < n; ++i) plan.draws.push_back(g.Draw(1000));
  const int rounds = 1 + static_cast<int>(g.Draw(2));
  const bool points = g.Coin();
  c.Identity(xml + names[way] + std::to_string(rewritten));
  PLOG(c) << xml << names[way] << (rewritten ? ", rewritten" : "") << (points ? ", with breakpoints" : "") << "\n";

  // By hand.
  std::vector<Trace> want;
  {
    Recorder rec(spec);
    HubScope hub(&rec);
    auto proc = ParseProcedureString(xml);
    PCHECK(c, proc, "could not parse the procedure");
    proc->Setup();
    rec.Attach(*proc);
    for (int round = 0; round < rounds; ++round)
    {
      int ticks = 0;
      while (!Model::Done(proc->GetStatus()))
      {
        if (++ticks > kMaxTicks)
        {
          c.Label("does not end");
          return;
        }
        proc->ExecuteSingle(rec.ui);
      }
      rec.trace.end = " " + St(proc->GetStatus()) + State(*proc);
      want.push_back(rec.trace);
      if (round + 1 < rounds) proc->Reset(rec.ui);
    }
    if (c.logging)
      for (auto& d : want.back().did) c.log << "  " << d << "\n";
  }
  bool asks = Asks(spec.root);
  for (auto& l : spec.libs) asks = asks || Asks(l);
  if (way == 4 && asks)
  {
    c.Label("asks the user");
    return;
  }

  // The other way.
  Recorder rec(spec);
  HubScope hub(&rec);
  auto proc = ParseProcedureString(xml);
  PCHECK(c, proc, "could not parse the procedure");
  if (rewritten)
  {
    proc = ParseProcedureString(GetXMLString(*proc));
    PCHECK(c, proc, "could not parse the written procedure");
  }
  int interruptions = 0;
  if (way <= 2)
  {
    auto fail = [&](const std::string& m) { c.Fail(m); };
    Runner runner(rec.ui);
    runner.SetProcedure(proc.get());
    rec.Attach(*proc);
    const auto all = rec.All();
    std::vector<char> has(all.size());
    bool pausing = false;
    int ticks = 0;
    runner.SetTickCallback([&](const Procedure&) {
      if (++ticks > 3 * kMaxTicks) c.Fail("does not end");
      if (way == 2 && plan.Next(8) == 0)
      {
        runner.Pause();
        pausing = true;
      }
    });
    for (int round = 0; round < rounds; ++round)
    {
      int calls = 0;
      while (!Model::Done(proc->GetStatus()))
      {
        if (++calls > 2000) c.Fail("the execution stops too often");
        if (way == 2 && points && plan.Next(3) == 0)
        {
          const auto n = plan.Next(all.size());
          if (has[n]) runner.RemoveBreakpoint(all[n]);
          else runner.SetBreakpoint(all[n]);
          has[n] = !has[n];
        }
        if (way == 1 || (way == 2 && plan.Next(4) == 0)) runner.ExecuteSingle();
        else
        {
          runner.ExecuteProcedure();
          if (way == 0 && !Model::Done(proc->GetStatus())) c.Fail("the execution stops before the end");
          if (!Model::Done(proc->GetStatus()))
          {
            ++interruptions;
            if (!pausing && runner.GetCurrentBreakpointInstructions().empty()) c.Fail("the execution stops without a pause or a breakpoint");
            pausing = false;
          }
        }
      }
      pausing = false;
      rec.trace.end = " " + St(proc->GetStatus()) + State(*proc);
      Compare(want[round], rec.trace, names[way], fail);
      if (round + 1 < rounds) proc->Reset(rec.ui);
    }
  }
  else
    conc::Run(c, [&] {
      auto fail = [&](const std::string& m) { conc::Die(m); };
      StateMonitor monitor;
      JobIO io(rec);
      auto* p = proc.get();
      Target t;
      std::map<std::string, uint32_t> vars;
      if (way == 3)
      {
        t.ar = std::make_unique<AsyncRunner>(*proc, rec.ui, monitor);
        rec.Attach(*p);
      }
      else
      {
        t.job = std::make_unique<LocalJob>(std::move(proc), io);
        rec.Attach(*p);
        Numbers(*t.job->GetInfo().GetRootInstructionInfo(), io.number);
        for (auto& [name, v] : t.job->GetInfo().GetWorkspaceInfo().GetVariableInfos()) vars[name] = v.GetIndex();
      }
      std::map<int, uint32_t> index;
      for (auto& [i, n] : io.number) index[n] = i;
      const auto all = rec.All();
      std::vector<char> has(all.size());
      auto state = [&] { return way == 3 ? monitor.state : io.state; };
      for (int round = 0; round < rounds; ++round)
      {
        int calls = 0;
        while (!IsFinishedJobState(state()))
        {
          if (++calls > 2000) conc::Die("the execution stops too often");
          if (points && plan.Next(3) == 0)
          {
            const auto n = plan.Next(all.size());
            if (way == 3) has[n] ? t.ar->RemoveBreakpoint(all[n]) : t.ar->SetBreakpoint(all[n]);
            else has[n] ? t.job->RemoveBreakpoint(index.at(n)) : t.job->SetBreakpoint(index.at(n));
            has[n] = !has[n];
          }
          bool stopped = false;
          if (plan.Next(4) == 0)
          {
            t.Do(kCStep);
            stopped = true;
          }
          else
          {
            t.Do(kCStart);
            if (plan.Next(2) == 0)
            {
              if (const auto ms = plan.Next(400)) conc::SleepMs(ms);
              t.Do(kCPause);
              stopped = true;
            }
          }
          conc::SleepMs(100000);
          if (Busy(state())) conc::Die(std::string("still ") + StateName(state()));
          if (state() == JobState::kInitial) conc::Die("does not start");
          if (state() == JobState::kPaused)
          {
            ++interruptions;
            if (!stopped && std::count(has.begin(), has.end(), 1) == 0) conc::Die("the job pauses without a reason");
          }
        }
        const bool good = p->GetStatus() == ES::SUCCESS;
        if (state() != (good ? JobState::kSucceeded : JobState::kFailed)) conc::Die(std::string("a job with status ") + St(p->GetStatus()) + " is " + StateName(state()));
        rec.trace.end = " " + St(p->GetStatus()) + State(*p);
        if (way == 4)
          for (auto& [n, i] : vars)
          {
            AnyValue v;
            const bool ok = p->GetVariableValue(n, v);
            if (ok && (!io.values.count(i) || io.values[i] != v)) conc::Die("the last reported value of " + n + " is outdated");
          }
        Compare(want[round], rec.trace, names[way], fail);
        if (round + 1 < rounds)
        {
          t.Do(kCReset);
          conc::SleepMs(1000);
          if (state() != JobState::kInitial) conc::Die("the job is not reset");
        }
      }
    });
  c.Label(names[way]);
  if (interruptions) c.Label("interrupted");
  if (rewritten) c.Label("rewritten");
  if (want[0].did.size() >= 10) c.NonTrivial();
}

// -------------------------------------------------------------------------- several procedures
// Passes on what instructions do to the recorder of their procedure.
class Switchboard : public ProbeHub
{
public:
  std::mutex mtx;
  std::map<const Instruction*, Recorder*> owner;
  void Attach(const Instruction* i, Recorder& r)
  {
    {
      std::lock_guard<std::mutex> lk(mtx);
      owner[i] = &r;
    }
    for (auto* k : i->ChildInstructions()) Attach(k, r);
  }
  void Detach(const Recorder& r)
  {
    std::lock_guard<std::mutex> lk(mtx);
    for (auto it = owner.begin(); it != owner.end();) it = it->second == &r ? owner.erase(it) : std::next(it);
  }
  Recorder* Of(const VProbe& p)
  {
    std::lock_guard<std::mutex> lk(mtx);
    auto it = owner.find(&p);
    return it == owner.end() ? nullptr : it->second;
  }
  bool Init(VProbe& p, UserInterface& ui, Workspace& ws) override { return Need(p).Init(p, ui, ws); }
  ES Exec(VProbe& p, UserInterface& ui, Workspace& ws) override { return Need(p).Exec(p, ui, ws); }
  void ResetDone(VProbe& p, UserInterface& ui) override
  {
    if (auto* r = Of(p)) r->ResetDone(p, ui);
  }

private:
  Recorder& Need(VProbe& p)
  {
    auto* r = Of(p);
    if (!r) conc::Die("an instruction of no procedure is executed");
    return *r;
  }
};

void Several(pbt::Case& c)
{
  auto& g = c.g;
  GenOpts o;
  o.any_leaves = g.Coin();
  o.user = g.Draw(3) == 0;
  if (g.Coin()) o.focus = {kSeq, kFb, kRepeat, kFor, kChoice, kRSeq, kRFb};
  std::vector<Spec> specs;
  std::vector<std::string> xml;
  const size_t n = 2 + g.Draw(2);
  for (size_t i = 0; i < n; ++i)
  {
    // often the same procedure, perhaps doing something else
    if (i > 0 && g.Draw(3) == 0)
    {
      specs.push_back(specs[g.Draw(i)]);
      if (g.Coin()) std::rotate(specs.back().scripts.begin(), specs.back().scripts.begin() + specs.back().scripts.size() / 2, specs.back().scripts.end());
    }
    else
    {
      Maker maker(c, o);
      specs.push_back(maker.Make());
    }
    xml.push_back(SpecXml(specs.back()));
  }
  int mode = static_cast<int>(g.Draw(3));
  static const char* const names[] = {"taking turns", "in threads of their own", "as asynchronous runners"};
  const int rounds = 1 + static_cast<int>(g.Draw(2));
  const bool early = g.Coin();  // made before the others are executed
  Plan plan;
  for (uint64_t i = 0, k = 1 + g.Draw(30); i < k; ++i) plan.draws.push_back(g.Draw(1000));
  // One of them may be halted while it is executed (after so many events): the others do not notice.
  const size_t victim = g.Coin(1, 3) ? g.Draw(n) : n;
  const uint64_t halt_after = victim < n ? g.Draw(12) : 0;
  for (auto& x : xml) PLOG(c) << x;
  if (victim < n) PLOG(c) << "procedure " << victim << " is halted after " << halt_after << " ticks or ms\n";

  // Each alone.
  std::vector<std::vector<Trace>> want(n);
  size_t events = 0;
  for (size_t i = 0; i < n; ++i)
  {
    Recorder rec(specs[i]);
    HubScope hub(&rec);
    auto proc = ParseProcedureString(xml[i]);
    PCHECK(c, proc, "could not parse the procedure");
    proc->Setup();
    rec.Attach(*proc);
    for (int round = 0; round < rounds; ++round)
    {
      for (int ticks = 0; !Model::Done(proc->GetStatus()); proc->ExecuteSingle(rec.ui))
        if (++ticks > kMaxTicks)
        {
          c.Label("does not end");
          return;
        }
      rec.trace.end = " " + St(proc->GetStatus()) + State(*proc);
      want[i].push_back(rec.trace);
      events += rec.trace.did.size();
      rec.trace = {};
      proc->Reset(rec.ui);
      rec.trace = {};
    }
  }
  if (mode != 0 && events > 600) mode = 0;
  PLOG(c) << names[mode] << ", " << rounds << " rounds" << (early ? ", all made at first\n" : "\n");

  // All together.
  Switchboard board;
  HubScope hub(&board);
  auto fail = [&](const std::string& m) { conc::Die(m); };
  struct One
  {
    std::unique_ptr<Recorder> rec;
    std::unique_ptr<Procedure> proc;
    int round = 0;
    uint64_t ticks = 0;
  };
  std::vector<One> all(n);
  auto make = [&](size_t i) {
    all[i].rec = std::make_unique<Recorder>(specs[i]);
    all[i].proc = ParseProcedureString(xml[i]);
    if (!all[i].proc) conc::Die("could not parse the procedure again");
  };
  auto attach = [&](size_t i) {
    all[i].rec->Attach(*all[i].proc);
    board.Attach(all[i].proc->RootInstruction(), *all[i].rec);
  };
  auto done = [&](size_t i) {
    auto& x = all[i];
    ++x.round;
    if (i == victim) return;
    x.rec->trace.end = " " + St(x.proc->GetStatus()) + State(*x.proc);
    Compare(want[i][x.round - 1], x.rec->trace, "procedure " + std::to_string(i) + " " + names[mode], fail);
  };
  auto finish = [&](size_t i) {
    board.Detach(*all[i].rec);
    all[i].proc.reset();
  };
  int switches = 0;
  if (mode == 0)
  {
    size_t left = n;
    size_t before = n;
    if (early)
      for (size_t i = 0; i < n; ++i) make(i);
    while (left > 0)
    {
      std::vector<size_t> open;
      for (size_t k = 0; k < n; ++k)
        if (all[k].round < rounds) open.push_back(k);
      const size_t i = open[plan.Next(open.size())];
      auto& x = all[i];
      switches += before != i;
      before = i;
      if (!x.proc) make(i);
      if (x.rec->last.empty())
      {
        x.proc->Setup();
        attach(i);
        continue;
      }
      if (i == victim && x.round == 0 && x.ticks++ == halt_after)
      {
        x.proc->Halt();
        x.round = rounds;
        finish(i);
        --left;
        continue;
      }
      if (Model::Done(x.proc->GetStatus()))
      {
        done(i);
        if (x.round < rounds)
        {
          x.proc->Reset(x.rec->ui);
          x.rec->trace = {};
        }
        else
        {
          finish(i);
          --left;
        }
        continue;
      }
      x.proc->ExecuteSingle(x.rec->ui);
    }
  }
  else
    conc::Run(c, [&] {
      std::vector<std::thread> threads;
      if (early)
        for (size_t i = 0; i < n; ++i) make(i);
      for (size_t i = 0; i < n; ++i)
        threads.emplace_back([&, i] {
          if (!early) make(i);
          auto& x = all[i];
          utils::SimpleJobStateMonitor monitor;
          auto again = [&] {
            done(i);
            if (x.round < rounds && mode == 1 && i != victim)
            {
              x.proc->Reset(x.rec->ui);
              x.rec->trace = {};
            }
          };
          if (mode == 1)
          {
            Runner runner(x.rec->ui);
            runner.SetProcedure(x.proc.get());
            attach(i);
            std::thread halter;
            std::atomic<bool> ended{false};
            if (i == victim)
              halter = std::thread([&] {
                // A halt before the execution starts has no effect: repeated.
                for (conc::SleepMs(halt_after); !ended.load(); conc::SleepMs(20)) runner.Halt();
              });
            while (x.round < (i == victim ? 1 : rounds))
            {
              runner.ExecuteProcedure();
              again();
            }
            ended.store(true);
            if (halter.joinable()) halter.join();
          }
          else
          {
            AsyncRunner runner(*x.proc, x.rec->ui, monitor);
            attach(i);
            while (x.round < rounds)
            {
              runner.Start();
              if (i == victim)
              {
                conc::SleepMs(halt_after);
                runner.Halt();
              }
              monitor.WaitForFinished();
              again();
              if (x.round < rounds)
              {
                runner.Reset();
                if (!monitor.WaitForState(JobState::kInitial, 100)) conc::Die("the job is not reset");
                x.rec->trace = {};
              }
            }
          }
          finish(i);
        });
      for (auto& t : threads) t.join();
    });
  c.Label(names[mode]);
  if (mode ? events >= 20 : switches >= 4) c.NonTrivial();
}

struct Init
{
  Init() { pbt::SetWorkerInit([] { RegisterProbe(); }); }
} g_init;

CONC_FACET("C35", "several", Several, conc::Opts(16000, 600000, "the procedures take turns four times, or have at least twenty events"));
CONC_FACET("C34", "same", Ways, conc::Opts(16000, 600000, "the execution that is compared has at least ten events"));
}  // namespace
