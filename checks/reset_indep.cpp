// C10: a reset procedure behaves like one that never ran.
#include "tree.h"

using namespace tree;

namespace
{
// Everything a user can observe of one procedure.
class Observed : public ProbeHub
{
public:
  Observed(const Spec& s, const std::string& xml) : s(s)
  {
    ui.on_status = [this](const Instruction* i) { Add("status " + Id(i) + " " + St(i->GetStatus())); };
    ui.on_put = [this](const AnyValue& v, const std::string& d) {
      Add("put " + d + " " + Json(v));
      return puts++ % 3 != 2;
    };
    ui.on_message = [this](const std::string& m) { Add("message " + m); };
    ui.on_log = [this](int sev, const std::string& m) { Add("log " + std::to_string(sev) + " " + m); };
    ui.on_request = [this](const UserInputRequest& r) -> std::unique_ptr<IUserInputFuture> {
      int n = requests++;
      Add("request " + std::to_string(n) + " " + sup::dto::AnyTypeToJSONString(r.m_input_type) + " " + Json(r.m_meta_data));
      auto& rep = this->s.replies[n % this->s.replies.size()];
      if (rep.null) return std::make_unique<UnsupportedInputFuture>();
      auto f = std::make_unique<FnFuture>();
      int at = now + rep.delay;
      f->ready = [this, at]() { return now >= at; };
      auto type = r.m_request_type;
      auto input = r.m_input_type;
      f->value = [rep, type, input]() {
        if (type == InputRequestType::kUserChoice) return CreateUserChoiceReply(rep.result, rep.choice);
        AnyValue v(input);
        if (sup::dto::IsScalarValue(v)) v.ConvertFrom(rep.choice > 0 ? rep.choice : 1);
        return CreateUserValueReply(rep.result, v);
      };
      ++live;
      f->dropped = [this] { --live; };
      return f;
    };
    Hub() = this;
    proc = ParseProcedureString(xml);
    proc->RegisterGenericCallback([this](const std::string& n, const AnyValue& v, bool con) {
      Add("variable " + n + " " + Json(v) + (con ? "" : " disconnected"));
    }, this);
    proc->Setup();
    std::function<void(const Instruction*)> number = [&](const Instruction* i) {
      ids[i] = "#" + std::to_string(ids.size());
      for (auto* k : i->ChildInstructions()) number(k);
    };
    number(proc->RootInstruction());
  }
  ~Observed() override
  {
    Hub() = this;
    proc.reset();
    Hub() = nullptr;
  }
  void Add(const std::string& e) { events += e + "\n"; }
  std::string Id(const Instruction* i) { return ids.count(i) ? ids[i] : "?"; }
  bool Init(VProbe& p, UserInterface&, Workspace&) override
  {
    auto n = inits[&p]++;
    Add("init " + Id(&p));
    return n >= 64 || !((s.scripts[p.Pid()].init_fail >> n) & 1);
  }
  ES Exec(VProbe& p, UserInterface&, Workspace& w) override
  {
    auto& st = s.scripts[p.Pid()].steps[pos[&p]++ % s.scripts[p.Pid()].steps.size()];
    Add("exec " + Id(&p) + (p.IsHaltRequested() ? " halted" : ""));
    if (st.var >= 0) (void)w.SetValue(s.vars[st.var].name, MakeValue(s.vars[st.var], st.val));
    return st.status;
  }

  std::string Take()
  {
    // within one step, what happens during a reset has no specified order
    std::string r;
    std::swap(r, events);
    return r;
  }
  std::string State()
  {
    std::string r;
    for (auto& [i, id] : ids) r += "";
    std::function<void(const Instruction*)> walk = [&](const Instruction* i) {
      r += Id(i) + (i->IsHaltRequested() ? "H" : "") + "=" + St(i->GetStatus()) + " ";
      for (auto* k : i->ChildInstructions()) walk(k);
    };
    walk(proc->RootInstruction());
    r += "| next:";
    for (auto* i : GetNextInstructions(*proc)) r += " " + Id(i);
    r += " |";
    for (auto& n : proc->VariableNames())
    {
      AnyValue v;
      bool ok = proc->GetVariableValue(n, v);
      r += " " + n + "=" + (ok ? sup::dto::AnyTypeToJSONString(v.GetType()) + Json(v) : "unavailable");
    }
    return r;
  }
  void Tick()
  {
    Hub() = this;
    ++now;
    proc->ExecuteSingle(ui);
  }
  // Restart of the scripted environment: leaves and users start over.
  void Restart()
  {
    pos.clear();
    inits.clear();
    requests = 0;
    puts = 0;
    now = 0;
    events.clear();
  }

  const Spec& s;
  HookUI ui;
  std::unique_ptr<Procedure> proc;
  std::map<const Instruction*, std::string> ids;
  std::map<const Instruction*, size_t> pos, inits;
  std::string events;
  int requests = 0, now = 0, live = 0, puts = 0;
};

void Check(pbt::Case& c, const GenOpts& opts)
{
  Maker maker(c, opts);
  Spec spec = maker.Make();
  auto xml = SpecXml(spec);
  PLOG(c) << xml;
  Observed used(spec, xml), fresh(spec, xml);
  fresh.Restart();
  int rounds = 1 + static_cast<int>(c.g.Draw(3)), moved = 0;
  bool halted = false;
  for (int r = 0; r < rounds; ++r)
  {
    used.Restart();
    int ops = static_cast<int>(c.g.Draw(12));
    for (int i = 0; i < ops; ++i)
    {
      uint64_t k = c.g.Draw(12);
      if (k == 11)
      {
        auto& v = spec.vars[c.g.Draw(spec.vars.size() - 3)];
        Val val{false, {v.elem == "bool" ? static_cast<int64_t>(c.g.Draw(2)) : c.g.Range(0, 3)}};
        (void)used.proc->GetWorkspace().SetValue(v.name, MakeValue(v, val));
        PLOG(c) << "set " << v.name << "\n";
      }
      else if (k == 10)
      {
        halted = true;
        used.proc->Halt();
        PLOG(c) << "halt\n";
      }
      else used.Tick();
    }
    if (used.proc->GetStatus() != ES::NOT_STARTED) ++moved;
    PLOG(c) << "-- history:\n" << used.events << "-- reset after " << ops << " steps\n";
    Hub() = &used;
    used.proc->Reset(used.ui);
    PCHECK(c, used.live == 0, "a request to the user survived the reset");
    used.Restart();
    auto a = used.State(), b = fresh.State();
    if (r == 0 && a != b) c.Fail("after the reset the state is\n" + a + "\ninstead of\n" + b);
    if (r == rounds - 1)
      for (int i = 0; i < 14; ++i)
      {
        used.Tick();
        fresh.Tick();
        auto ea = used.Take(), eb = fresh.Take();
        if (ea != eb) c.Fail(pbt::Str("step ", i + 1, " after the reset:\n", ea, "-- while a fresh procedure does:\n", eb));
        a = used.State();
        b = fresh.State();
        if (a != b) c.Fail(pbt::Str("step ", i + 1, " after the reset: state\n", a, "\n-- of a fresh procedure:\n", b));
      }
  }
  if (halted) c.Label("halted before");
  c.Label(pbt::Str("rounds ", rounds));
  c.Label("final " + St(fresh.proc->GetStatus()));
  if (moved && fresh.ids.size() >= 3) c.NonTrivial();
}

void Any(pbt::Case& c)
{
  GenOpts o;
  o.any_leaves = true;
  Check(c, o);
}
void Stateful(pbt::Case& c)
{
  GenOpts o;
  o.any_leaves = true;
  o.focus = {kRepeat, kFor, kChoice, kListen, kUChoice, kInclude};
  Check(c, o);
}

#define RULE "the procedure was ticked at least once before a reset and its tree has at least three nodes"
OAC_FACET("C10", "any", Any, oac::Opts(30000, 800000, RULE));
OAC_FACET("C10", "stateful", Stateful, oac::Opts(30000, 800000, RULE));

struct Init
{
  Init() { pbt::SetWorkerInit([] { RegisterProbe(); }); }
} init;
}  // namespace
