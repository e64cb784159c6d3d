// C15: LocalJob reports everything about its procedure by index and forwards the user's input.
#include "async_model.h"

#include <sup/oac-tree/instruction_info.h>
#include <sup/oac-tree/workspace_info.h>

using namespace amodel;

namespace
{
constexpr const char* kText = "text";  // of the metadata of a choice
const char* const g_strange[] = {"", " x", "&<\"", "\xc3\xa9", "$y", "a@b"};

// Checks that a description agrees with the instruction and numbers its instructions.
void Walk(const InstructionInfo& info, const Instruction* i, std::vector<const Instruction*>& by_index)
{
  if (info.GetType() != i->GetType()) conc::Die("the job information describes a " + i->GetType() + " as " + info.GetType());
  if (info.GetCategory() != i->GetCategory()) conc::Die("the job information has a wrong category of " + i->GetType());
  if (info.GetAttributes() != i->GetStringAttributes()) conc::Die("the job information has wrong attributes of " + i->GetType());
  if (info.GetIndex() >= by_index.size()) conc::Die("the job information has an index out of range");
  if (by_index[info.GetIndex()]) conc::Die("the job information has an index twice");
  by_index[info.GetIndex()] = i;
  auto kids = info.Children();
  auto real = i->ChildInstructions();
  if (kids.size() != real.size()) conc::Die("the job information has a wrong number of children of " + i->GetType());
  for (size_t n = 0; n < kids.size(); ++n) Walk(*kids[n], real[n], by_index);
}

class JobIO : public IJobInfoIO
{
public:
  JobIO() = default;

  // What is reported before the job is known.
  std::vector<uint32_t> counts;
  std::map<uint32_t, AnyValue> values;
  std::map<uint32_t, bool> connected;

  std::function<void(uint32_t, InstructionState)> on_instr;
  std::function<void(JobState)> on_state;
  std::function<void(const std::vector<uint32_t>&)> on_next;
  std::function<bool(uint64_t, AnyValue&, const std::string&)> on_value;
  std::function<int(uint64_t, const std::vector<std::string>&, const AnyValue&)> on_choice;
  std::function<void(uint64_t)> on_interrupt;
  std::function<void(const std::string&)> on_call;

  void InitNumberOfInstructions(sup::dto::uint32 n) override { counts.push_back(n); }
  void InstructionStateUpdated(sup::dto::uint32 i, InstructionState s) override
  {
    if (!on_instr) conc::Die("an instruction is reported before the job is started");
    on_instr(i, s);
  }
  void VariableUpdated(sup::dto::uint32 i, const AnyValue& v, bool c) override
  {
    values[i] = v;
    connected[i] = c;
  }
  void JobStateUpdated(JobState s) override { on_state(s); }
  void PutValue(const AnyValue& v, const std::string& d) override
  {
    if (on_call) on_call("put " + Json(v) + " " + d);
  }
  bool GetUserValue(sup::dto::uint64 id, AnyValue& v, const std::string& d) override { return on_value(id, v, d); }
  int GetUserChoice(sup::dto::uint64 id, const std::vector<std::string>& o, const AnyValue& m) override { return on_choice(id, o, m); }
  void Interrupt(sup::dto::uint64 id) override
  {
    if (on_interrupt) on_interrupt(id);
  }
  void Message(const std::string& m) override
  {
    if (on_call) on_call("message " + m);
  }
  void Log(int s, const std::string& m) override
  {
    if (on_call) on_call("log " + std::to_string(s) + " " + m);
  }
  void NextInstructionsUpdated(const std::vector<sup::dto::uint32>& v) override { on_next(v); }
};

// Numbers and names of the job.
struct Index
{
  std::vector<const Instruction*> instr;
  std::map<std::string, uint32_t> var;

  void Load(const LocalJob& job, const JobIO& io, const Procedure& proc)
  {
    auto& info = job.GetInfo();
    if (io.counts.size() != 1) conc::Die(pbt::Str("the number of instructions was reported ", io.counts.size(), " times"));
    if (info.GetNumberOfInstructions() != io.counts[0]) conc::Die("the number of instructions was reported wrongly");
    if (!info.GetRootInstructionInfo()) conc::Die("no root instruction in the job information");
    instr.assign(io.counts[0], nullptr);
    Walk(*info.GetRootInstructionInfo(), proc.RootInstruction(), instr);
    for (auto* i : instr)
      if (!i) conc::Die("the job information does not use every index");
    auto& infos = info.GetWorkspaceInfo().GetVariableInfos();
    auto names = proc.GetWorkspace().VariableNames();
    if (infos.size() != names.size() || info.GetNumberOfVariables() != names.size()) conc::Die("the job information has a wrong number of variables");
    for (size_t i = 0; i < infos.size(); ++i)
    {
      auto& [name, v] = infos[i];
      if (v.GetIndex() >= infos.size() || var.count(name)) conc::Die("the job information has inconsistent variables");
      var[name] = v.GetIndex();
      auto* real = proc.GetWorkspace().GetVariable(name);
      if (!real || real->GetType() != v.GetType() || real->GetStringAttributes() != v.GetAttributes())
        conc::Die("the job information is wrong about variable " + name);
    }
    std::set<uint32_t> all;
    for (auto& [n, i] : var) all.insert(i);
    if (all.size() != var.size()) conc::Die("the job information has an index of a variable twice");
  }
};

#ifdef VERIF_SCHED
void Scripted(pbt::Case& c)
{
  GenOpts o;
  o.max_nodes = 9;
  o.user = false;
  ScriptedCase sc(c, o);
  bool moves = c.g.Coin(1, 3);
  AModel model(sc.spec, sc.table);
  Real real(c, sc.spec);
  HubScope hub(&real);
  auto owned = ParseProcedureString(sc.xml);
  PCHECK(c, owned, "could not parse the procedure");
  Procedure* proc = owned.get();
  int handled = 0;
  conc::Run(c, [&] {
    Target target;
    ScriptedEars ears(real, sc.table, target);
    JobIO io;
    Index index;
    std::vector<bool> flags;
    io.on_state = [&](JobState s) { ears.State(s); };
    target.job = std::make_unique<LocalJob>(std::move(owned), io);
    {
      conc::Quiet quiet;
      if (!real.Map(*model.tree.root, proc->RootInstruction())) conc::Die("the instruction tree is not the one described");
      if (real.ev.size() != 1 || real.ev[0].ctx != "<Initial>") conc::Die("a new job reports" + Show(real.ev));
      real.ev.clear();
    }
    index.Load(*target.job, io, *proc);
    flags.assign(index.instr.size(), false);
    io.on_instr = [&](uint32_t i, InstructionState s) {
      if (i >= index.instr.size()) conc::Die("an instruction with an unknown index is reported");
      if (s.m_breakpoint_set != flags[i])
      {
        flags[i] = s.m_breakpoint_set;
        if (s.m_execution_status != index.instr[i]->GetStatus()) conc::Die("the status of an instruction with a changed breakpoint is wrong");
        ears.Break(index.instr[i], s.m_breakpoint_set);
        return;
      }
      real.ev.push_back({Event::kNotify, real.Id(index.instr[i]), static_cast<int>(s.m_execution_status), ""});
    };
    io.on_next = [&](const std::vector<uint32_t>& v) {
      std::vector<const Instruction*> next;
      for (auto i : v)
      {
        if (i >= index.instr.size()) conc::Die("a next instruction with an unknown index is reported");
        next.push_back(index.instr[i]);
      }
      ears.Tick(next);
    };
    ears.root = proc->RootInstruction();
    ears.timeout = sc.timeout;
    auto set_break = [&](int node, bool set) {
      std::vector<uint32_t> idx;
      if (node >= 0)
      {
        for (uint32_t i = 0; i < index.instr.size(); ++i)
          if (real.Id(index.instr[i]) == node) idx.push_back(i);
      }
      else idx = {static_cast<uint32_t>(index.instr.size()), 0xffffffffu};
      for (auto i : idx) set ? target.job->SetBreakpoint(i) : target.job->RemoveBreakpoint(i);
    };
    int n = 0;
    auto extra = [&] {
      if (!ears.changes.empty()) conc::Die("a change of a breakpoint is reported that was not made");
      for (auto& v : sc.spec.vars)
      {
        auto it = io.values.find(index.var.at(v.name));
        auto want = MakeValue(v, model.tree.ws[v.name]);
        if (it == io.values.end() || it->second != want)
          conc::Die("the last reported value of " + v.name + " is " + (it == io.values.end() ? "missing" : Json(it->second)) + " instead of " + Json(want));
        if (!io.connected[it->first]) conc::Die("variable " + v.name + " is reported as not connected");
      }
      for (auto& m : model.breaks)
        for (uint32_t i = 0; i < index.instr.size(); ++i)
          if (real.Id(index.instr[i]) == m.node && !flags[i]) conc::Die("the breakpoint of an instruction is no longer reported");
      size_t set = std::count(flags.begin(), flags.end(), true);
      if (set != model.breaks.size()) conc::Die("breakpoints are reported that were not set");
      if (moves && ++n % 3 == 0)
      {
        LocalJob other{std::move(*target.job)};
        *target.job = std::move(other);
      }
    };
    handled = RunOps(c, sc, model, real, ears, target, set_break, extra);
    target.job.reset();
    real.ev.erase(std::remove_if(real.ev.begin(), real.ev.end(), [](const Event& e) { return e.t == Event::kHalted; }), real.ev.end());
    if (!real.ev.empty()) conc::Die("while ending:" + Show(real.ev));
  });
  if (model.stops) c.Label("stopped at a breakpoint");
  if (model.ticks >= 2 && handled >= 2) c.NonTrivial();
}
CONC_FACET("C15", "scripted", Scripted, conc::Opts(9000, 300000, "at least two ticks and two handled batches of commands"));

// A procedure of actions that talk to the user.
void Talk(pbt::Case& c)
{
  struct Asked
  {
    uint64_t delay;
    bool ok;
    int value;
    int type;  // in which the user gives a number
  };
  std::vector<Asked> replies;
  std::vector<std::string> want;
  int32_t n1 = 5, d1 = 6;
  static const std::string g_number_types[] = {"int32", "int16", "uint64", "float64"};
  std::string d1_type = "int32";
  auto text = [&] { return "vtxt" + std::to_string(c.g.Draw(100)) + g_strange[c.g.Draw(6)]; };
  Node seq("Sequence");
  uint64_t n = 1 + c.g.Draw(7);
  auto ask = [&] {
    Asked a{c.g.Draw(4) * 50, !c.g.Coin(1, 5), static_cast<int>(c.g.Draw(4)), static_cast<int>(c.g.Draw(4))};
    replies.push_back(a);
    return a;
  };
  int asked = 0;
  for (uint64_t i = 0; i < n; ++i)
  {
    Node k;
    switch (c.g.Draw(6))
    {
    case 0:
    {
      auto t = text();
      k = Node("Message", {{"text", t}});
      want.push_back("message " + t);
      break;
    }
    case 1:
    {
      auto t = text();
      static const std::vector<std::string> sevs{"emergency", "alert", "critical", "error", "warning", "notice", "info", "debug", "trace"};
      int sev = static_cast<int>(c.g.Draw(sevs.size()));
      k = Node("Log", {{"message", t}, {"severity", sevs[sev]}});
      want.push_back("log " + std::to_string(sev) + " " + t);
      break;
    }
    case 2:
    {
      auto t = text();
      k = Node("Output", {{"fromVar", "n1"}, {"description", t}});
      want.push_back("put " + std::to_string(n1) + " " + t);
      break;
    }
    case 3:
    {
      auto t = text();
      auto a = ask();
      ++asked;
      const bool dynamic = c.g.Coin();
      k = Node("Sequence");
      k.K(Node("Input", {{"outputVar", dynamic ? "d1" : "n1"}, {"description", t}}));
      k.K(Node("Message", {{"text", "vtxt entered"}}));
      want.push_back("value " + (dynamic ? d1_type : "int32") + " " + t);
      if (!a.ok) break;
      want.push_back("message vtxt entered");
      if (dynamic)
      {
        d1 = a.value * 1000 + 7;
        d1_type = g_number_types[a.type];
      }
      else n1 = a.value * 1000 + 7;
      break;
    }
    case 4:
    {
      auto t = text(), ok = text(), no = text();
      auto a = ask();
      ++asked;
      k = Node("Sequence");
      k.K(Node("UserConfirmation", {{"description", t}, {"okText", ok}, {"cancelText", no}}));
      k.K(Node("Message", {{"text", "vtxt confirmed"}}));
      want.push_back("choice " + t + "|" + ok + "|" + no);
      if (a.ok && a.value == 0) want.push_back("message vtxt confirmed");
      break;
    }
    default:
    {
      auto t = text();
      auto a = ask();
      ++asked;
      k = Node("UserChoice", {{"description", t}});
      std::string w = "choice " + t;
      int kids = 1 + static_cast<int>(c.g.Draw(4));
      for (int j = 0; j < kids; ++j)
      {
        auto nm = "option" + std::to_string(j);
        k.K(Node("Message", {{"name", nm}, {"text", "vtxt option" + std::to_string(j)}}));
        w += "|" + nm;
      }
      want.push_back(w);
      if (a.ok && a.value < kids) want.push_back("message vtxt option" + std::to_string(a.value));
    }
    }
    Node f("ForceSuccess");
    f.K(k);
    seq.K(f);
  }
  auto xml = ProcXml({seq}, {LocalVar("n1", "{\"type\":\"int32\"}", "5"), LocalVar("d1", "{\"type\":\"int32\"}", "6").A("dynamicType", "true")}, {{"tickTimeout", "0.01"}});
  PLOG(c) << xml;
  auto proc = ParseProcedureString(xml);
  PCHECK(c, proc, "could not parse the procedure");
  conc::Run(c, [&] {
    JobIO io;
    std::vector<std::string> got;
    std::set<uint64_t> ids;
    JobState state = JobState::kInitial;
    size_t next = 0;
    auto reply = [&](uint64_t id) {
      if (!ids.insert(id).second) conc::Die("a request has the identification of an earlier one");
      if (next >= replies.size()) conc::Die("too many requests");
      auto a = replies[next++];
      if (a.delay) conc::SleepMs(a.delay);
      return a;
    };
    io.on_state = [&](JobState s) { state = s; };
    io.on_next = [](const std::vector<uint32_t>&) {};
    io.on_instr = [](uint32_t, InstructionState) {};
    io.on_interrupt = [](uint64_t) { conc::Die("a request was interrupted without reason"); };
    io.on_call = [&](const std::string& s) {
      conc::Note(s);
      if (s.rfind("log", 0) != 0 || s.find(" vtxt") == 5) got.push_back(s);
    };
    io.on_value = [&](uint64_t id, AnyValue& v, const std::string& d) {
      got.push_back(std::string("value ") + v.GetTypeName() + " " + d);
      auto a = reply(id);
      const int number = a.value * 1000 + 7;
      if (a.ok || a.value == 3)  // a value may be given together with a refusal
      {
        switch (a.type)
        {
        case 0: v = AnyValue{static_cast<sup::dto::int32>(number)}; break;
        case 1: v = AnyValue{static_cast<sup::dto::int16>(number)}; break;
        case 2: v = AnyValue{static_cast<sup::dto::uint64>(number)}; break;
        default: v = AnyValue{static_cast<sup::dto::float64>(number)}; break;
        }
      }
      return a.ok;
    };
    io.on_choice = [&](uint64_t id, const std::vector<std::string>& o, const AnyValue& m) {
      std::string s = "choice " + (m.HasField(kText) ? m[kText].As<std::string>() : std::string("?"));
      for (auto& x : o) s += "|" + (x.rfind("option", 0) == 0 ? x.substr(0, 7) : x);  // followed by more information
      got.push_back(s);
      auto a = reply(id);
      return a.ok ? a.value : -1 - a.value;
    };
    LocalJob job(std::move(proc), io);
    job.Start();
    conc::SleepMs(100000);
    if (state != JobState::kSucceeded) conc::Die(std::string("the job ends in state ") + StateName(state));
    if (got != want)
    {
      std::string m = "expected calls:";
      for (auto& s : want) m += "\n    " + s;
      m += "\n  observed:";
      for (auto& s : got) m += "\n    " + s;
      conc::Die(m);
    }
    if (Json(io.values[0]) != std::to_string(n1)) conc::Die("the variable was reported as " + Json(io.values[0]) + " instead of " + std::to_string(n1));
    if (io.values[1].GetTypeName() != d1_type || io.values[1].As<double>() != d1) conc::Die("the variable was reported as " + Json(io.values[1]) + " instead of " + std::to_string(d1) + " as " + d1_type);
  });
  if (asked && want.size() >= 2) c.NonTrivial();
}
CONC_FACET("C15", "talk", Talk, conc::Opts(5000, 150000, "at least one request to the user and two calls"));
#endif

// Racing commands while the user is asked.
void Racing(pbt::Case& c)
{
  GenOpts o;
  o.work = 2;
  o.timed = conc::kSched;
  o.max_nodes = 6;
  o.any_leaves = c.g.Coin(1, 2);
  o.parallel = c.g.Coin(1, 2);
  o.focus = {kUChoice, kSeq, kRepeat};
  Spec spec = Maker(c, o).Make();
  auto xml = SpecXml(spec);
  AddTimeout(xml, conc::kSched ? "tickTimeout=\"0.01\" timingAccuracy=\"0.01\"" : "tickTimeout=\"0.0002\" timingAccuracy=\"0.0002\"");
  LogSpec(c, spec, xml);
  auto clients = MakeClients(c);
  auto breaks = MakeBreakOps(c);
  bool end_now = c.g.Coin(1, 4);
  bool deaf = c.g.Coin(1, 3);  // the user only answers when interrupted
  const int slow = c.g.Coin() ? static_cast<int>(c.g.Draw(8)) : 0;  // how long reports of breakpoints take
  const int run_on = static_cast<int>(c.g.Draw(100));
  Monitor mon(c, spec);
  HubScope hub(&mon);
  auto owned = ParseProcedureString(xml);
  PCHECK(c, owned, "could not parse the procedure");
  auto* proc = owned.get();
  Automaton autom(mon);
  autom.threads = o.parallel;
  std::atomic<int> open{0}, asked{0};
  conc::Run(c, [&] {
    Target target;
    JobIO io;
    Index index;
    std::mutex mtx;
    std::condition_variable cv;
    std::set<uint64_t> seen, interrupted;
    io.on_state = [&](JobState s) { autom.State(s); };
    io.on_next = [&](const std::vector<uint32_t>& v) {
      for (auto i : v)
        if (i >= index.instr.size()) conc::Die("a next instruction with an unknown index is reported");
      autom.Tick({});
    };
    auto wait = [&](uint64_t id) {
      asked.fetch_add(1, kRelaxed);
      if (open.fetch_add(1, kRelaxed) != 0) conc::Die("the user is asked twice at the same time");
      std::unique_lock<std::mutex> lk(mtx);
      if (!seen.insert(id).second) conc::Die("a request has the identification of an earlier one");
      auto stop = [&] { return interrupted.count(id) != 0; };
      bool cut = true;
      if (deaf) cv.wait(lk, stop);
      else cut = cv.wait_for(lk, std::chrono::microseconds(conc::kSched ? 40000 : 300), stop);
      open.fetch_sub(1, kRelaxed);
      return !cut;
    };
    io.on_value = [&](uint64_t id, AnyValue& v, const std::string&) {
      (void)v;
      return wait(id);
    };
    io.on_choice = [&](uint64_t id, const std::vector<std::string>&, const AnyValue&) { return wait(id) ? static_cast<int>(id % 3) : -1; };
    io.on_interrupt = [&](uint64_t id) {
      {
        std::lock_guard<std::mutex> lk(mtx);
        interrupted.insert(id);
      }
      cv.notify_all();
    };
    target.job = std::make_unique<LocalJob>(std::move(owned), io);
    mon.Load(proc->RootInstruction());
    autom.root.store(proc->RootInstruction(), kRelaxed);
    index.Load(*target.job, io, *proc);
    const size_t count = index.instr.size();
    std::vector<std::atomic<int>> last(count);
    for (auto& l : last) l.store(static_cast<int>(ES::NOT_STARTED) * 2, kRelaxed);
    std::vector<bool> flags(count, false);
    std::atomic<std::thread::id> breaker{std::thread::id{}};
    io.on_instr = [&](uint32_t i, InstructionState s) {
      if (i >= index.instr.size()) conc::Die("an instruction with an unknown index is reported");
      if (slow && std::this_thread::get_id() == breaker.load(kRelaxed)) conc::SleepMs(slow);
      last[i].store(static_cast<int>(s.m_execution_status) * 2 + (s.m_breakpoint_set ? 1 : 0), kRelaxed);
      if (std::this_thread::get_id() == breaker.load(kRelaxed))
      {
        conc::Note(pbt::Str("reported: ", index.instr[i]->GetType(), " ", St(s.m_execution_status), s.m_breakpoint_set ? " with breakpoint" : ""));
        return;
      }
      if (breaks.empty() && s.m_breakpoint_set) conc::Die("a breakpoint is reported");
      if (s.m_execution_status != index.instr[i]->GetStatus()) conc::Die("a wrong status is reported");
      autom.OnStatus(index.instr[i]);
      mon.OnStatus(index.instr[i]);
    };
    RunClients(clients, target, breaks.empty() ? std::function<void()>() : [&] {
      breaker.store(std::this_thread::get_id(), kRelaxed);
      for (auto& b : breaks)
      {
        const auto i = static_cast<uint32_t>(b.node % count);
        conc::Note(pbt::Str(b.set ? "set" : "remove", " breakpoint at ", index.instr[i]->GetType()));
        b.set ? target.job->SetBreakpoint(i) : target.job->RemoveBreakpoint(i);
        flags[i] = b.set;
        if (b.pause) conc::SleepMs(b.pause);
      }
      breaker.store(std::thread::id{}, kRelaxed);
    });
    if (!end_now)
    {
      auto fin = [&] { return autom.Now() == JobState::kHalted || autom.Now() == JobState::kFailed || autom.Now() == JobState::kSucceeded; };
      int rounds = 0, still = 0;
      target.Do(kCHalt);
      while (still < (conc::kSched ? 3 : 20))
      {
        if (++rounds > (conc::kSched ? 60 : 6000)) conc::Die(std::string("halted, but the state stays ") + StateName(autom.Now()));
        conc::SleepMs(200);
        if (fin())
        {
          ++still;
          continue;
        }
        still = 0;
        target.Do(kCHalt);
      }
      if (conc::kSched && open.load(kRelaxed)) conc::Die("the user is still asked after the halt");
      auto reports = [&] {
        for (size_t i = 0; i < count; ++i)
        {
          const int l = last[i].load(kRelaxed);
          if ((l & 1) != (flags[i] ? 1 : 0)) conc::Die(pbt::Str("the last report of ", index.instr[i]->GetType(), " says that its breakpoint is ", l & 1 ? "" : "not ", "set"));
          if (l / 2 != static_cast<int>(index.instr[i]->GetStatus()))
            conc::Die(pbt::Str("the last report of ", index.instr[i]->GetType(), " says ", St(static_cast<ES>(l / 2)), " instead of ", St(index.instr[i]->GetStatus())));
        }
      };
      if (!o.parallel) reports();
      target.Do(kCReset);
      if (!WaitFor([&] { return autom.Now() == JobState::kInitial; }, 3000)) conc::Die(std::string("reset, but the state stays ") + StateName(autom.Now()));
      reports();
      target.Do(kCStart);
      conc::SleepMs(run_on);
    }
    target.job.reset();
    mon.closed = true;
    if (mon.active.load(kRelaxed)) conc::Die("a leaf is still executed after the end of the job");
    if (open.load(kRelaxed)) conc::Die("the user is still asked after the end of the job");
  });
  if (asked.load()) c.Label("user asked");
  if (!breaks.empty()) c.Label("breakpoints");
  if (autom.states.load() >= 3 && autom.ticks.load() >= 2) c.NonTrivial();
}
CONC_FACET("C15", "racing", Racing, conc::Opts(9000, 300000, "at least three state changes and two ticks"));

// Variables that change by themselves, with their connection coming and going, while the job is commanded.
class LinkVariable : public Variable
{
public:
  static const std::string Type;
  LinkVariable() : Variable(Type) {}
  void Tell(const AnyValue& v, bool connected) { Notify(v, connected); }

private:
  bool GetValueImpl(AnyValue&) const override { return false; }
  bool SetValueImpl(const AnyValue&) override { return false; }
};

const std::string LinkVariable::Type = "VLink";

struct LinkIO : JobIO
{
  struct Report
  {
    AnyValue value;
    bool connected;
  };
  std::mutex mtx;
  std::map<uint32_t, std::vector<Report>> reports;

  void VariableUpdated(sup::dto::uint32 i, const AnyValue& v, bool c) override
  {
    std::lock_guard<std::mutex> lk(mtx);
    reports[i].push_back({v, c});
  }
  size_t Count(uint32_t i)
  {
    std::lock_guard<std::mutex> lk(mtx);
    return reports[i].size();
  }
};

void Links(pbt::Case& c)
{
  auto& g = c.g;
  struct Update
  {
    int link;
    AnyValue value;
    bool connected;
    int pause;
  };
  const int n_links = 1 + static_cast<int>(g.Draw(4)), n_locals = static_cast<int>(g.Draw(3)), n_feeders = 1 + static_cast<int>(g.Draw(2));
  std::vector<std::string> vars;
  std::vector<std::pair<int, std::string>> order;  // a random order of declaration
  for (int i = 0; i < n_links; ++i) order.push_back({static_cast<int>(g.Draw(50)), "link" + std::to_string(i)});
  for (int i = 0; i < n_locals; ++i) order.push_back({static_cast<int>(g.Draw(50)), "local" + std::to_string(i)});
  std::sort(order.begin(), order.end());
  Node rep("Repeat", {{"maxCount", std::to_string(1 + g.Draw(6))}}), seq("Sequence");
  for (int i = 0; i < n_locals; ++i) seq.K(Node("Increment", {{"varName", "local" + std::to_string(i)}}));
  seq.K(Node("Wait", {{"timeout", g.Coin() ? "0.0" : "0.002"}}));
  rep.K(seq);
  std::vector<Node> decl;
  for (auto& [k, name] : order)
    decl.push_back(name[1] == 'i' ? Node("VLink", {{"name", name}}) : LocalVar(name, R"({"type":"uint32"})", "0"));
  const auto xml = ProcXml({rep}, decl);
  std::vector<std::vector<Update>> feeds(n_feeders);
  int coming = 0;
  for (auto& f : feeds)
  {
    const int n = static_cast<int>(g.Draw(10));
    for (int i = 0; i < n; ++i)
    {
      Update u;
      u.link = static_cast<int>(g.Draw(n_links));
      u.link -= u.link % n_feeders - static_cast<int>(&f - &feeds[0]);
      if (u.link < 0 || u.link >= n_links) continue;
      const int k = static_cast<int>(g.Draw(4));
      if (k == 0) u.value = AnyValue{};
      else if (k == 1) u.value = AnyValue{"text" + std::to_string(g.Draw(100))};
      else u.value = AnyValue{static_cast<sup::dto::int32>(g.Draw(1000))};
      u.connected = g.Coin(2, 3);
      u.pause = g.Coin() ? 0 : static_cast<int>(g.Draw(6));
      if (!u.connected && k != 0) ++coming;
      f.push_back(u);
    }
  }
  struct Command
  {
    int kind, pause;
  };
  std::vector<Command> commands;
  const int n_commands = static_cast<int>(g.Draw(6));
  for (int i = 0; i < n_commands; ++i) commands.push_back({static_cast<int>(g.Draw(5)), static_cast<int>(g.Draw(8))});
  PLOG(c) << xml;
  auto owned = ParseProcedureString(xml);
  PCHECK(c, owned, "could not parse the procedure");
  auto* proc = owned.get();
  size_t told = 0;
  conc::Run(c, [&] {
    LinkIO io;
    io.on_state = [](JobState) {};
    io.on_next = [](const std::vector<uint32_t>&) {};
    io.on_instr = [](uint32_t, InstructionState) {};
    auto job = std::make_unique<LocalJob>(std::move(owned), io);
    std::map<std::string, uint32_t> index;
    for (auto& [name, v] : job->GetInfo().GetWorkspaceInfo().GetVariableInfos()) index[name] = v.GetIndex();
    if (index.size() != order.size()) conc::Die("the job information has a wrong number of variables");
    std::vector<LinkVariable*> links;
    for (int i = 0; i < n_links; ++i)
      for (auto* v : proc->GetWorkspace().GetVariables())
        if (v->GetName() == "link" + std::to_string(i)) links.push_back(const_cast<LinkVariable*>(static_cast<const LinkVariable*>(v)));
    std::vector<std::vector<LinkIO::Report>> want(n_links);
    std::vector<std::thread> threads;
    for (auto& f : feeds)
      threads.emplace_back([&] {
        for (auto& u : f)
        {
          const auto i = index.at("link" + std::to_string(u.link));
          want[u.link].push_back({u.value, u.connected});
          links[u.link]->Tell(u.value, u.connected);
          if (io.Count(i) != want[u.link].size()) conc::Die(pbt::Str("a change of link", u.link, " is not reported, or a change is reported that was not made"));
          if (u.pause) conc::SleepMs(u.pause);
        }
      });
    job->Start();
    for (auto& x : commands)
    {
      if (x.pause) conc::SleepMs(x.pause);
      switch (x.kind)
      {
      case 0: job->Start(); break;
      case 1: job->Step(); break;
      case 2: job->Pause(); break;
      case 3: job->Halt(); break;
      default: job->Reset(); break;
      }
    }
    for (auto& t : threads) t.join();
    job.reset();
    for (int l = 0; l < n_links; ++l)
    {
      auto& got = io.reports[index.at("link" + std::to_string(l))];
      if (got.size() != want[l].size()) conc::Die(pbt::Str(got.size(), " changes of link", l, " are reported instead of ", want[l].size()));
      for (size_t k = 0; k < got.size(); ++k)
        if (got[k].value != want[l][k].value || got[k].value.GetType() != want[l][k].value.GetType() || got[k].connected != want[l][k].connected)
          conc::Die(pbt::Str("change ", k, " of link", l, " is reported as ", Json(got[k].value), got[k].connected ? "" : " (not connected)"));
      told += got.size();
    }
    for (auto& [i, list] : io.reports)
      if (i >= order.size()) conc::Die("a variable with an unknown index is reported");
  });
  if (coming) c.Label("a value without connection");
  if (told >= 3 && n_links + n_locals >= 2) c.NonTrivial();
}
CONC_FACET("C15", "links", Links, conc::Opts(4000, 150000, "at least three changes told, of several variables"));

struct Init
{
  Init() { pbt::SetWorkerInit([] { RegisterProbe(); if (!GlobalVariableRegistry().IsRegisteredVariableName("VLink")) RegisterGlobalVariable<LinkVariable>(); }); }
} init;
}  // namespace
