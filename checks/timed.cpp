// C21: instructions that wait, with a virtual clock.
#include "conc.h"
#include "values.h"

#include <sup/oac-tree/async_runner.h>
#include <sup/oac-tree/constants.h>
#include <sup/oac-tree/exceptions.h>
#include <sup/oac-tree/job_state_monitor.h>
#include <sup/oac-tree/runner.h>

#include <atomic>
#include <cmath>
#include <limits>
#include <map>
#include <thread>

using namespace values;

namespace
{
// ------------------------------------------------------------------------------------ timeouts
struct Timeout
{
  bool present = true;
  std::string attr;
  AnyValue var;       // of variable "t" when the attribute refers to it
  bool by_var = false;
  bool setup_ok = true;
  bool ok = true;     // can be used
  double s = 0;       // value
  uint64_t Ns() const { return static_cast<uint64_t>(std::llround(s * 1e9)); }
};

Timeout RandTimeout(pbt::Gen& g, bool optional)
{
  static const double good[] = {0, 0.001, 0.01, 0.02, 0.05, 0.5, 1, 2.5, 1e-9, 3600, 0.0123};
  Timeout t;
  if (optional && g.Draw(8) == 7)
  {
    t.present = false;
    return t;
  }
  t.s = good[g.Draw(11)];
  std::ostringstream os;
  os.precision(17);
  os << t.s;
  if (g.Draw(3) == 2)
  {
    t.by_var = true;
    t.attr = "@t";
    switch (g.Draw(8))
    {
    case 0:
    case 1: t.var = AnyValue{t.s}; break;
    case 2:
      t.s = static_cast<double>(g.Draw(3));
      t.var = g.Coin() ? AnyValue{static_cast<dto::int32>(t.s)} : AnyValue{static_cast<dto::uint64>(t.s)};
      break;
    case 3:
      t.attr = "@t.a";
      t.var = dto::EmptyStruct();
      t.var.AddMember("a", AnyValue{t.s});
      break;
    case 4:
      t.var = AnyValue{g.Coin() ? -0.001 : 9.3e9};
      t.ok = false;
      break;
    case 5:
      t.var = AnyValue{std::numeric_limits<double>::quiet_NaN()};
      t.ok = false;
      break;
    case 6:
      t.var = dto::EmptyStruct();
      t.var.AddMember("a", AnyValue{t.s});
      t.ok = false;
      break;
    default:
      t.attr = "@absent";
      t.ok = false;
    }
    return t;
  }
  t.attr = os.str();
  switch (g.Draw(12))
  {
  case 8: t.attr = "-1"; t.ok = false; break;
  case 9: t.attr = "9.3e9"; t.ok = false; break;
  case 10: t.attr = "soon"; t.setup_ok = false; break;
  case 11: t.attr = ""; t.setup_ok = false; break;
  default: break;
  }
  return t;
}

void AddTimeoutVar(Workspace& ws, const Timeout& t)
{
  if (dto::IsEmptyValue(t.var)) return;
  auto v = GlobalVariableRegistry().Create("Local");
  v->AddAttribute("dynamicType", "true");
  v->SetName("t");
  ws.AddVariable("t", std::move(v));
}

std::unique_ptr<Procedure> ProcWithAccuracy(pbt::Gen& g, uint64_t& accuracy_ms)
{
  auto p = std::make_unique<Procedure>();
  accuracy_ms = static_cast<uint64_t>(DefaultSettings::DEFAULT_TIMING_ACCURACY_NS) / 1000000;
  if (g.Coin())
  {
    static const uint64_t ms[] = {1, 5, 20, 100};
    accuracy_ms = ms[g.Draw(4)];
    p->AddAttribute("timingAccuracy", pbt::Str("0.", accuracy_ms < 10 ? "00" : accuracy_ms < 100 ? "0" : "", accuracy_ms));
  }
  p->PushInstruction(GlobalInstructionRegistry().Create("Succeed"));
  p->Setup();
  return p;
}

bool SetupOf(Instruction& i, const Procedure& p)
{
  try
  {
    i.Setup(p);
    return true;
  }
  catch (const InstructionSetupException&)
  {
    return false;
  }
}

struct Setter
{
  Workspace& ws;
  void operator()(const std::string& n, const AnyValue& v) { ws.SetValue(n, v); }
};

std::vector<uint64_t> Delays(pbt::Gen& g, const Timeout& t, int n)
{
  // aim at the time of the deadline
  std::vector<uint64_t> r;
  for (int i = 0; i < n; ++i)
  {
    const uint64_t ns = t.ok ? t.Ns() : 1000000;
    switch (g.Draw(5))
    {
    case 0: r.push_back(0); break;
    case 1: r.push_back(ns / 2); break;
    case 2: r.push_back(ns); break;
    case 3: r.push_back(g.Draw(3)); break;
    default: r.push_back(ns > 1 ? ns - 1 : ns); break;
    }
  }
  return r;
}

// ------------------------------------------------------------------------------------- polling
void WaitPolled(pbt::Case& c)
{
  auto& g = c.g;
  const auto t = RandTimeout(g, true);
  uint64_t accuracy = 0;
  auto proc = ProcWithAccuracy(g, accuracy);
  const int kind = static_cast<int>(g.Draw(5));
  auto instr = GlobalInstructionRegistry().Create("Wait");
  if (t.present) instr->AddAttribute("timeout", t.attr);
  if (kind == 3) instr->AddAttribute("blocking", "false");
  if (kind == 4) instr->AddAttribute("blocking", "@b");
  PLOG(c) << "timeout " << (t.present ? t.attr : "absent") << " " << Show(t.var) << " " << t.s << (kind == 4 ? " @b" : "") << "\n";
  const int rounds = 1 + static_cast<int>(g.Draw(3));
  struct Round
  {
    std::vector<uint64_t> delay;
    int halt_at;
  };
  std::vector<Round> plan;
  for (int i = 0; i < rounds; ++i) plan.push_back({Delays(g, t, 5), g.Draw(5) == 4 ? static_cast<int>(g.Draw(5)) : -1});
  bool waited = false;
  conc::Run(c, [&] {
    Workspace ws;
    AddTimeoutVar(ws, t);
    auto b = GlobalVariableRegistry().Create("Local");
    b->AddAttribute("type", "{\"type\":\"bool\"}");
    b->SetName("b");
    ws.AddVariable("b", std::move(b));
    ws.Setup();
    if (!dto::IsEmptyValue(t.var)) ws.SetValue("t", t.var);
    HookUI ui;
    const bool ok = SetupOf(*instr, *proc);
    if (ok != (t.setup_ok || !t.present)) conc::Die(pbt::Str("setup with timeout [", t.attr, "] ", ok ? "succeeds" : "fails"));
    if (!ok) return;
    for (auto& r : plan)
    {
      const uint64_t start = ds::NowNs();
      bool halted = false, done = false;
      for (size_t k = 0; k < r.delay.size() && !done; ++k)
      {
        if (static_cast<int>(k) == r.halt_at)
        {
          instr->Halt();
          halted = true;
        }
        const uint64_t now = ds::NowNs();
        instr->ExecuteSingle(ui, ws);
        if (ds::NowNs() - now > 100000) conc::Die(pbt::Str("a wait that does not block took ", ds::NowNs() - now, " ns"));
        const auto st = instr->GetStatus();
        const bool fails = t.present && !t.ok;
        // the clock may advance a little while the instruction looks at it
        const bool over = now - start >= (t.present ? t.Ns() : 0);
        const bool maybe_over = ds::NowNs() - start >= (t.present ? t.Ns() : 0);
        // a halted instruction is not executed any more
        const auto stopped = k == 0 ? ES::NOT_FINISHED : ES::RUNNING;
        const auto want = fails ? ES::FAILURE : halted ? stopped : over ? ES::SUCCESS : ES::RUNNING;
        const auto want2 = fails ? ES::FAILURE : halted ? stopped : maybe_over ? ES::SUCCESS : ES::RUNNING;
        if (st != want && st != want2)
          conc::Die(pbt::Str("after ", now - start, " ns of ", t.Ns(), ": ", St(st), " instead of ", St(want)));
        done = st != ES::RUNNING || halted;
        waited = waited || st == ES::RUNNING;
        if (!done) ds::SleepNs(r.delay[k]);
      }
      instr->Reset(ui);
      if (instr->GetStatus() != ES::NOT_STARTED) conc::Die("reset: " + St(instr->GetStatus()));
    }
  });
  c.Label(!t.present ? "no timeout" : !t.setup_ok ? "refused" : !t.ok ? "unusable" : t.by_var ? "from a variable" : "literal");
  if (waited && rounds > 1) c.NonTrivial();
}

// ------------------------------------------------------------------------------------- blocking
void WaitBlocking(pbt::Case& c)
{
  auto& g = c.g;
  auto t = RandTimeout(g, false);
  if (!t.setup_ok || !t.ok)
  {
    t = Timeout{};
    t.attr = "0.03";
    t.s = 0.03;
  }
  if (t.s > 5)
  {
    t.by_var = false;
    t.var = {};
    t.attr = "2";
    t.s = 2;
  }
  uint64_t accuracy = 0;
  auto proc = ProcWithAccuracy(g, accuracy);
  static const char* const yes[] = {"true", "True", "YES", "on", "yes"};
  const bool by_var = g.Draw(4) == 3;
  const char* how = by_var ? "@b" : yes[g.Draw(5)];
  auto instr = GlobalInstructionRegistry().Create("Wait");
  instr->AddAttribute("timeout", t.attr);
  instr->AddAttribute("blocking", how);
  const bool halting = g.Coin();
  const uint64_t ms = t.Ns() / 1000000;
  const uint64_t halt_ms = g.Draw(4) == 3 ? ms + 50 : ms ? g.Draw(ms) : 0;
  PLOG(c) << "timeout " << t.attr << " " << t.s << " blocking " << how << " accuracy " << accuracy << (halting ? pbt::Str(" halt at ", halt_ms) : "") << "\n";
  uint64_t took = 0;
  ES st = ES::NOT_STARTED;
  conc::Run(c, [&] {
    Workspace ws;
    AddTimeoutVar(ws, t);
    auto b = GlobalVariableRegistry().Create("Local");
    b->AddAttribute("type", "{\"type\":\"bool\"}");
    b->AddAttribute("value", "true");
    b->SetName("b");
    ws.AddVariable("b", std::move(b));
    ws.Setup();
    if (!dto::IsEmptyValue(t.var)) ws.SetValue("t", t.var);
    HookUI ui;
    instr->Setup(*proc);
    const uint64_t start = ds::NowNs();
    std::atomic<bool> over{false};
    std::thread halter;
    if (halting)
      halter = std::thread([&] {
        conc::SleepMs(halt_ms);
        instr->Halt();
      });
    instr->ExecuteSingle(ui, ws);
    st = instr->GetStatus();
    took = ds::NowNs() - start;
    over = true;
    if (halter.joinable()) halter.join();
    const uint64_t want = t.Ns();
    const uint64_t slack = accuracy * 1000000 + 1000000;
    const bool early = halting && halt_ms * 1000000 + slack < want;
    const bool late = !halting || halt_ms * 1000000 > want + slack;
    // halted before it began, it is not executed
    const bool not_begun = halting && halt_ms == 0 && st == ES::NOT_FINISHED;
    if (early && ((st != ES::FAILURE && !not_begun) || took > halt_ms * 1000000 + slack + 1000000))
      conc::Die(pbt::Str("halted after ", halt_ms, " ms it gives ", St(st), " after ", took, " ns"));
    if (late && (st != ES::SUCCESS || took < want || took > want + slack))
      conc::Die(pbt::Str("a wait of ", want, " ns takes ", took, " ns and gives ", St(st)));
    if (st != ES::SUCCESS && st != ES::FAILURE && !not_begun) conc::Die("gives " + St(st));
    // and again, without halting
    instr->Reset(ui);
    const uint64_t again = ds::NowNs();
    instr->ExecuteSingle(ui, ws);
    const uint64_t took2 = ds::NowNs() - again;
    if (instr->GetStatus() != ES::SUCCESS || took2 < want || took2 > want + slack)
      conc::Die(pbt::Str("after a reset, a wait of ", want, " ns takes ", took2, " ns and gives ", St(instr->GetStatus())));
  });
  c.Label(halting ? (st == ES::FAILURE ? "halted" : "not halted in time") : "undisturbed");
  if (halting && st == ES::FAILURE) c.NonTrivial();
}

// ------------------------------------------------------------------------- waiting for variables
class VSwitch : public Variable
{
public:
  explicit VSwitch(const std::string& type) : Variable(type) {}
  bool on = false;

private:
  bool GetValueImpl(AnyValue& v) const override
  {
    if (!on) return false;
    v = AnyValue{static_cast<dto::int32>(1)};
    return true;
  }
  bool SetValueImpl(const AnyValue&) override { return false; }
  bool IsAvailableImpl() const override { return on; }
  SetupTeardownActions SetupImpl(const Workspace&) override { return {}; }
};

void ForVariable(pbt::Case& c)
{
  auto& g = c.g;
  const auto t = RandTimeout(g, false);
  uint64_t accuracy = 0;
  auto proc = ProcWithAccuracy(g, accuracy);
  auto instr = GlobalInstructionRegistry().Create("WaitForVariable");
  instr->AddAttribute("timeout", t.attr);
  static const std::vector<std::string> names = {"x", "x.a", "y", "absent", "y.b"};
  const std::string var = g.Draw(6) == 5 ? g.Pick(names) : g.Coin() ? "x" : "x.a";
  const bool has_equals = g.Coin(2, 3);
  const std::string equals = g.Draw(8) == 7 ? g.Pick(names) : g.Coin() ? "y" : "x.b";
  instr->AddAttribute("varName", var);
  if (has_equals) instr->AddAttribute("equalsVar", equals);
  // values that are often equal
  std::vector<AnyValue> pool;
  for (int i = 0; i < 2; ++i)
  {
    auto s = dto::EmptyStruct();
    s.AddMember("a", AnyValue{static_cast<dto::int32>(i)});
    s.AddMember("b", AnyValue{static_cast<dto::int32>(0)});
    pool.push_back(s);
    pool.push_back(AnyValue{static_cast<dto::int32>(i)});
  }
  struct Step
  {
    std::string name;
    AnyValue value;
    uint64_t delay;
    bool halt;
  };
  std::vector<std::vector<Step>> plan;
  for (int r = 0, n = 1 + static_cast<int>(g.Draw(2)); r < n; ++r)
  {
    std::vector<Step> steps;
    auto d = Delays(g, t, 6);
    for (int k = 0; k < 6; ++k)
    {
      Step s{"", {}, d[k], g.Draw(20) == 19};
      if (g.Coin())
      {
        s.name = g.Coin() ? "x" : "y";
        s.value = g.Pick(pool);
      }
      steps.push_back(s);
    }
    plan.push_back(steps);
  }
  PLOG(c) << "timeout " << t.attr << " " << Show(t.var) << " wait for " << var << (has_equals ? " equals " + equals : "") << "\n";
  bool waited = false, succeeded = false;
  conc::Run(c, [&] {
    Workspace ws;
    AddTimeoutVar(ws, t);
    for (auto n : {"x", "y"})
    {
      auto v = GlobalVariableRegistry().Create("Local");
      v->AddAttribute("dynamicType", "true");
      v->SetName(n);
      ws.AddVariable(n, std::move(v));
    }
    ws.Setup();
    if (!dto::IsEmptyValue(t.var)) ws.SetValue("t", t.var);
    HookUI ui;
    const bool ok = SetupOf(*instr, *proc);
    if (ok != t.setup_ok) conc::Die(pbt::Str("setup with timeout [", t.attr, "] ", ok ? "succeeds" : "fails"));
    if (!ok) return;
    for (auto& steps : plan)
    {
      const uint64_t start = ds::NowNs();
      bool halted = false, done = false, first = true;
      for (auto& s : steps)
      {
        if (!s.name.empty())
        {
          ws.SetValue(s.name, s.value);
          conc::Note(s.name + " = " + Show(s.value));
        }
        if (s.halt)
        {
          instr->Halt();
          halted = true;
        }
        AnyValue a, b;
        bool holds = ws.HasVariable(SplitFieldName(var).first) && ws.GetValue(var, a);
        if (has_equals) holds = holds && ws.HasVariable(SplitFieldName(equals).first) && ws.GetValue(equals, b) && a == b;
        const uint64_t now = ds::NowNs();
        instr->ExecuteSingle(ui, ws);
        const auto st = instr->GetStatus();
        const bool over = now - start >= t.Ns(), maybe = ds::NowNs() - start >= t.Ns();
        auto want = [&](bool o) { return !t.ok ? ES::FAILURE : halted ? first ? ES::NOT_FINISHED : ES::RUNNING : holds ? ES::SUCCESS : o ? ES::FAILURE : ES::RUNNING; };
        conc::Note(pbt::Str("after ", now - start, " ns: ", St(st)));
        if (st != want(over) && st != want(maybe))
          conc::Die(pbt::Str("after ", now - start, " ns of ", t.Ns(), " the condition ", holds ? "holds" : "does not hold", ": ", St(st), " instead of ", St(want(over))));
        done = st != ES::RUNNING || halted;
        first = false;
        waited = waited || st == ES::RUNNING;
        succeeded = succeeded || (st == ES::SUCCESS && now > start + 1000);
        if (done) break;
        ds::SleepNs(s.delay);
      }
      instr->Reset(ui);
    }
  });
  if (waited && succeeded) c.NonTrivial();
  c.Label(waited ? succeeded ? "waited with success" : "waited" : "at once");
}

void ForVariables(pbt::Case& c)
{
  auto& g = c.g;
  const auto t = RandTimeout(g, false);
  uint64_t accuracy = 0;
  auto proc = ProcWithAccuracy(g, accuracy);
  auto instr = GlobalInstructionRegistry().Create("WaitForVariables");
  instr->AddAttribute("timeout", t.attr);
  const std::string type = g.Draw(6) == 5 ? "None" : g.Coin() ? "VSwitchA" : "VSwitchB";
  const bool by_var = g.Draw(4) == 3;
  instr->AddAttribute("varType", by_var ? "@type" : type);
  const int n = static_cast<int>(g.Draw(5));
  std::vector<std::string> types;
  std::vector<bool> on;
  for (int i = 0; i < n; ++i)
  {
    types.push_back(g.Coin() ? "VSwitchA" : "VSwitchB");
    on.push_back(g.Coin());
  }
  struct Step
  {
    int which;
    uint64_t delay;
    bool halt;
  };
  std::vector<std::vector<Step>> plan;
  for (int r = 0, k = 1 + static_cast<int>(g.Draw(2)); r < k; ++r)
  {
    std::vector<Step> steps;
    auto d = Delays(g, t, 7);
    for (int i = 0; i < 7; ++i)
    {
      const int which = n ? static_cast<int>(g.Draw(n)) : -1;
      steps.push_back({g.Coin() ? which : -1, d[i], g.Draw(20) == 19});
    }
    plan.push_back(steps);
  }
  PLOG(c) << "timeout " << t.attr << " " << Show(t.var) << " wait for type " << type << (by_var ? " from a variable" : "") << ", " << n << " variables\n";
  bool waited = false, succeeded = false;
  conc::Run(c, [&] {
    Workspace ws;
    AddTimeoutVar(ws, t);
    if (by_var)
    {
      auto v = GlobalVariableRegistry().Create("Local");
      v->AddAttribute("type", "{\"type\":\"string\"}");
      v->AddAttribute("value", "\"" + type + "\"");
      v->SetName("type");
      ws.AddVariable("type", std::move(v));
    }
    std::vector<VSwitch*> vars;
    for (int i = 0; i < n; ++i)
    {
      auto v = std::make_unique<VSwitch>(types[i]);
      v->on = on[i];
      v->SetName(pbt::Str("s", i));
      vars.push_back(v.get());
      ws.AddVariable(pbt::Str("s", i), std::move(v));
    }
    ws.Setup();
    if (!dto::IsEmptyValue(t.var)) ws.SetValue("t", t.var);
    HookUI ui;
    const bool ok = SetupOf(*instr, *proc);
    if (ok != t.setup_ok) conc::Die(pbt::Str("setup with timeout [", t.attr, "] ", ok ? "succeeds" : "fails"));
    if (!ok) return;
    for (auto& steps : plan)
    {
      const uint64_t start = ds::NowNs();
      bool halted = false, first = true;
      for (auto& s : steps)
      {
        if (s.which >= 0)
        {
          vars[s.which]->on = !vars[s.which]->on;
          conc::Note(pbt::Str("s", s.which, " ", types[s.which], vars[s.which]->on ? " on" : " off"));
        }
        if (s.halt)
        {
          instr->Halt();
          halted = true;
        }
        bool holds = true;
        for (int i = 0; i < n; ++i)
          if (types[i] == type) holds = holds && vars[i]->on;
        const uint64_t now = ds::NowNs();
        instr->ExecuteSingle(ui, ws);
        const auto st = instr->GetStatus();
        const bool over = now - start >= t.Ns(), maybe = ds::NowNs() - start >= t.Ns();
        auto want = [&](bool o) { return !t.ok ? ES::FAILURE : halted ? first ? ES::NOT_FINISHED : ES::RUNNING : holds ? ES::SUCCESS : o ? ES::FAILURE : ES::RUNNING; };
        conc::Note(pbt::Str("after ", now - start, " ns: ", St(st)));
        if (st != want(over) && st != want(maybe))
          conc::Die(pbt::Str("after ", now - start, " ns of ", t.Ns(), " the variables are ", holds ? "" : "not all ", "available: ", St(st), " instead of ", St(want(over))));
        first = false;
        waited = waited || st == ES::RUNNING;
        succeeded = succeeded || (st == ES::SUCCESS && now > start + 1000);
        if (st != ES::RUNNING || halted) break;
        ds::SleepNs(s.delay);
      }
      instr->Reset(ui);
    }
  });
  if (waited && succeeded) c.NonTrivial();
  c.Label(waited ? succeeded ? "waited with success" : "waited" : "at once");
}

// ---------------------------------------------------------------------- time between executions
class Ticker : public Instruction
{
public:
  static const std::string Type;
  Ticker() : Instruction(Type) {}
  std::vector<ES> script;
  std::vector<uint64_t> begin, end;

private:
  ES ExecuteSingleImpl(UserInterface&, Workspace&) override
  {
    begin.push_back(ds::NowNs());
    end.push_back(begin.back());
    const auto k = begin.size() - 1;
    return k < script.size() ? script[k] : ES::SUCCESS;
  }
};
const std::string Ticker::Type = "Ticker";

class QuietMonitor : public JobStateMonitor
{
public:
  std::atomic<bool> done{false};
  std::atomic<int> paused{0};

private:
  void OnStateChange(JobState s) noexcept override
  {
    if (IsFinishedJobState(s)) done = true;
    if (s == JobState::kPaused) ++paused;
  }
  void OnBreakpointChange(const Instruction*, bool) noexcept override {}
  void OnProcedureTick(const Procedure&) override {}
};

// A number of seconds as an attribute, what it is read as and whether it is used
struct Seconds
{
  bool present = true, number = true, used = true;
  std::string text;
  uint64_t ns = 0;
};

Seconds RandSeconds(pbt::Gen& g, uint64_t by_default)
{
  Seconds r;
  r.ns = by_default;
  switch (g.Draw(10))
  {
  case 0: r.present = false; break;
  case 1: r.text = g.Pick(std::vector<std::string>{"-1", "-0.001", "1e300", "9.3e9", "-1e300"}); r.used = false; break;
  case 2: r.text = g.Pick(std::vector<std::string>{"soon", "", "@t", "1s", "0.1 0.2", "true"}); r.number = false; break;
  case 3: r.text = g.Pick(std::vector<std::string>{"0", "0.0", "-0.0", "0e5"}); r.ns = 0; break;
  default:
  {
    const auto ms = 1 + g.Draw(3000);
    std::ostringstream os;
    os.precision(17);
    if (g.Coin()) os << std::scientific;
    os << static_cast<double>(ms) / 1000;
    r.text = os.str();
    r.ns = ms * 1000000;
  }
  }
  return r;
}

void Ticks(pbt::Case& c)
{
  auto& g = c.g;
  const auto tick = RandSeconds(g, static_cast<uint64_t>(DefaultSettings::DEFAULT_SLEEP_TIME_NS));
  const auto accuracy = RandSeconds(g, static_cast<uint64_t>(DefaultSettings::DEFAULT_TIMING_ACCURACY_NS));
  std::vector<ES> script;
  for (size_t i = 0, n = 1 + g.Draw(6); i < n; ++i) script.push_back(g.Coin(3, 4) ? ES::RUNNING : ES::NOT_FINISHED);
  script.push_back(g.Coin() ? ES::SUCCESS : ES::FAILURE);
  const auto how = g.Draw(3);
  PLOG(c) << "tickTimeout " << (tick.present ? "[" + tick.text + "]" : "absent") << " timingAccuracy " << (accuracy.present ? "[" + accuracy.text + "]" : "absent") << " by " << (how == 0 ? "callback" : how == 1 ? "run" : "steps") << ":";
  for (auto s : script) PLOG(c) << " " << St(s);
  PLOG(c) << "\n";
  bool refused = false;
  size_t waits = 0;
  conc::Run(c, [&] {
    Procedure p;
    if (tick.present) p.AddAttribute("tickTimeout", tick.text);
    if (accuracy.present) p.AddAttribute("timingAccuracy", accuracy.text);
    auto owned = std::make_unique<Ticker>();
    auto* t = owned.get();
    t->script = script;
    p.PushInstruction(std::move(owned));
    try
    {
      p.Setup();
    }
    catch (const ProcedureSetupException&) { refused = true; }
    const bool numbers = (!tick.present || tick.number) && (!accuracy.present || accuracy.number);
    if (refused != !numbers) conc::Die(pbt::Str("setup ", refused ? "fails" : "succeeds"));
    if (refused) return;
    if (TickTimeoutNs(p) != static_cast<dto::int64>(tick.ns)) conc::Die(pbt::Str("the tick timeout is ", TickTimeoutNs(p), " ns instead of ", tick.ns));
    if (TimingAccuracyNs(p) != static_cast<dto::int64>(accuracy.ns)) conc::Die(pbt::Str("the timing accuracy is ", TimingAccuracyNs(p), " ns instead of ", accuracy.ns));
    HookUI ui;
    uint64_t finished = 0;
    if (how == 0)
    {
      Runner runner{ui};
      runner.SetProcedure(&p);
      const TimeoutWhenRunning timeout{TickTimeoutNs(p)};
      runner.SetTickCallback([&](const Procedure& q) { timeout(q); });
      runner.ExecuteProcedure();
      finished = ds::NowNs();
    }
    else
    {
      QuietMonitor mon;
      AsyncRunner runner{p, ui, mon};
      if (how == 1) runner.Start();
      else
        for (size_t i = 0; i < script.size(); ++i) runner.Step();
      while (!mon.done) ds::SleepNs(100000);
      finished = ds::NowNs();
    }
    if (t->begin.size() != script.size()) conc::Die(pbt::Str("executed ", t->begin.size(), " times instead of ", script.size()));
    for (size_t i = 0; i + 1 < t->begin.size(); ++i)
    {
      const auto gap = t->begin[i + 1] - t->end[i];
      const uint64_t want = how != 2 && script[i] == ES::RUNNING ? tick.ns : 0;
      if (gap < want || gap > want + 1000000) conc::Die(pbt::Str("after ", St(script[i]), " it waits ", gap, " ns instead of ", want));
      if (want) ++waits;
    }
    if (finished - t->end.back() > 1000000) conc::Die(pbt::Str("it ends ", finished - t->end.back(), " ns after the last execution"));
  });
  c.Label(refused ? "refused" : how == 0 ? "callback" : how == 1 ? "run" : "steps");
  c.Label(!tick.present ? "by default" : !tick.number ? "no number" : !tick.used ? "unusable number" : tick.ns ? "a time" : "zero");
  if (waits >= 2) c.NonTrivial();
}

// -------------------------------------------------------------------------------- Listen
class VSource : public Variable
{
public:
  VSource() : Variable("VSource") {}
  bool on = true;
  AnyValue value;

private:
  bool GetValueImpl(AnyValue& v) const override
  {
    if (!on) return false;
    v = value;
    return true;
  }
  bool SetValueImpl(const AnyValue&) override { return false; }
  bool IsAvailableImpl() const override { return on; }
  SetupTeardownActions SetupImpl(const Workspace&) override { return {}; }
};

// Executes its child when a variable has another value than when it looked last
void ListenFor(pbt::Case& c)
{
  auto& g = c.g;
  static const std::vector<std::string> names = {"x", "y", "x.a", "y.b", "absent", "x.c"};
  std::vector<std::string> listed;
  for (size_t i = 0, n = 1 + g.Draw(3); i < n; ++i) listed.push_back(g.Draw(3) ? names[g.Draw(2)] : g.Pick(names));
  std::string text;
  for (auto& n : listed) text += (text.empty() ? "" : ",") + n;
  std::vector<AnyValue> pool;
  for (int i = 0; i < 2; ++i)
  {
    auto s = dto::EmptyStruct();
    s.AddMember("a", AnyValue{static_cast<dto::int32>(i)});
    s.AddMember("b", AnyValue{static_cast<dto::int32>(0)});
    pool.push_back(s);
    pool.push_back(AnyValue{static_cast<dto::int32>(i)});
  }
  pool.push_back(AnyValue{});
  const int force_how = static_cast<int>(g.Draw(5));  // absent, true, false, variable, variable that is not there
  const bool force_value = g.Coin();
  auto instr = GlobalInstructionRegistry().Create("Listen");
  instr->AddAttribute("varNames", text);
  if (force_how) instr->AddAttribute("forceSuccess", force_how == 1 ? "true" : force_how == 2 ? "false" : force_how == 3 ? "@force" : "@nowhere");
  const bool force = force_how == 1 || (force_how == 3 && force_value);
  auto owned = std::make_unique<Ticker>();
  auto* child = owned.get();
  instr->InsertInstruction(std::move(owned), 0);
  for (int i = 0; i < 40; ++i) child->script.push_back(g.Pick(std::vector<ES>{ES::SUCCESS, ES::SUCCESS, ES::SUCCESS, ES::FAILURE, ES::RUNNING, ES::NOT_FINISHED}));
  PLOG(c) << "listen to " << text << (force_how ? " force " + instr->GetAttributeString("forceSuccess") : "") << (force ? " true" : "") << "\n";
  int quiet = 0, woken = 0;
  Workspace ws;
  std::map<std::string, VSource*> vars;
  for (auto n : {"x", "y"})
  {
    auto v = std::make_unique<VSource>();
    v->SetName(n);
    vars[n] = v.get();
    v->value = g.Pick(pool);
    v->on = g.Coin(3, 4);
    PLOG(c) << n << " = " << Show(v->value) << (v->on ? "" : " not available") << "\n";
    ws.AddVariable(n, std::move(v));
  }
  auto b = GlobalVariableRegistry().Create("Local");
  b->AddAttribute("type", "{\"type\":\"bool\"}");
  b->AddAttribute("value", force_value ? "true" : "false");
  b->SetName("force");
  ws.AddVariable("force", std::move(b));
  ws.Setup();
  HookUI ui;
  Procedure p;
  instr->Setup(p);
  std::map<std::string, AnyValue> seen;
  ES status = ES::NOT_STARTED, kid = ES::NOT_STARTED;
  size_t executed = 0;
  bool halted = false;
  for (size_t s = 0, n = 4 + g.Draw(20); s < n && executed < 40; ++s)
  {
    switch (g.Draw(6))
    {
    case 0: case 1:
    {
      auto* v = vars[g.Coin() ? "x" : "y"];
      if (g.Coin(1, 3)) v->on = !v->on;
      else v->value = g.Pick(pool);
      PLOG(c) << v->GetName() << " = " << Show(v->value) << (v->on ? "" : " not available") << "\n";
      break;
    }
    case 2:
      if (g.Draw(4) == 3)
      {
        PLOG(c) << "reset\n";
        instr->Reset(ui);
        status = kid = ES::NOT_STARTED;
        halted = false;
        break;
      }
      if (g.Draw(6) == 5)
      {
        PLOG(c) << "halt\n";
        instr->Halt();
        halted = true;
        break;
      }
      [[fallthrough]];
    default:
    {
      if (IsFinishedStatus(status)) break;
      if (status == ES::NOT_STARTED)
      {
        seen.clear();
        status = force_how == 4 ? ES::FAILURE : ES::NOT_FINISHED;
      }
      if (status != ES::FAILURE && !halted)
      {
        bool wake = kid == ES::RUNNING || kid == ES::NOT_FINISHED;
        if (!wake)
        {
          kid = ES::NOT_STARTED;
          for (auto& name : listed)
          {
            AnyValue now;
            if (!ws.HasVariable(SplitFieldName(name).first) || !ws.GetValue(name, now) || seen[name] == now) continue;
            seen[name] = now;
            wake = true;
          }
          wake ? ++woken : ++quiet;
        }
        status = ES::RUNNING;
        if (wake)
        {
          kid = child->script[executed++];
          status = kid == ES::SUCCESS || (kid == ES::FAILURE && force) ? ES::NOT_FINISHED : kid;
        }
      }
      instr->ExecuteSingle(ui, ws);
      PLOG(c) << "execute: " << St(status) << "\n";
    }
    }
    PCHECK(c, child->begin.size() == executed, "the child was executed ", child->begin.size(), " times instead of ", executed);
    PCHECK(c, child->GetStatus() == kid, "the child is ", St(child->GetStatus()), " instead of ", St(kid));
    PCHECK(c, instr->GetStatus() == status, "it is ", St(instr->GetStatus()), " instead of ", St(status));
  }
  if (quiet && woken > 1) c.NonTrivial();
  c.Label(woken ? "woken" : "not woken");
}

CONC_FACET("C21", "polled", WaitPolled, conc::Opts(30000, 1500000, "a wait that was running, executed again after a reset", 12));
CONC_FACET("C21", "blocking", WaitBlocking, conc::Opts(20000, 800000, "halted from another thread while waiting", 12));
CONC_FACET("C21", "ticks", Ticks, conc::Opts(15000, 600000, "at least two waits between executions", 12));
CONC_FACET("C21", "for-variable", ForVariable, conc::Opts(30000, 1500000, "succeeded after waiting", 12));
CONC_FACET("C21", "for-variables", ForVariables, conc::Opts(30000, 1500000, "succeeded after waiting", 12));
OAC_FACET("C21", "listen", ListenFor, oac::Opts(40000, 1000000, "a second change and an execution without one", 12));
}  // namespace
