// C08: instructions driven by the values of variables (For, Repeat, Choice, Condition), with
// variables of every type, whole or as fields of others.
#include "values.h"

#include <sup/oac-tree/procedure_context.h>

#include <sup/dto/anytype_helper.h>
#include <sup/dto/basic_scalar_types.h>

#include <optional>

using namespace values;

namespace
{
// Children do one of several things each time they are executed.
struct Hub8 : ProbeHub
{
  explicit Hub8(pbt::Case& c_) : c(c_), g(c_.g) {}
  ES Exec(VProbe& p, UserInterface&, Workspace& ws) override
  {
    if (execs++ > 0) c.Fail(pbt::Str("child ", p.Pid(), " executed although another child was executed in the same tick"));
    pid = p.Pid();
    before = p.GetStatus();
    seen = {};
    seen_ok = !element.empty() && ws.GetValue(element, seen);
    if (meddle && g.Draw(4) == 0) meddle(ws);
    static const ES results[] = {ES::SUCCESS, ES::SUCCESS, ES::SUCCESS, ES::SUCCESS, ES::RUNNING, ES::NOT_FINISHED, ES::FAILURE};
    result = results[g.Draw(failures ? 7 : 6)];
    PLOG(c) << "  child " << pid << (element.empty() ? "" : " sees " + Show(seen)) << " and is " << St(result) << "\n";
    return result;
  }
  pbt::Case& c;
  pbt::Gen& g;
  std::string element;
  std::function<void(Workspace&)> meddle;
  bool failures = true;
  int execs = 0;
  int pid = -1;
  ES before = ES::NOT_STARTED;
  ES result = ES::NOT_STARTED;
  bool seen_ok = false;
  AnyValue seen;
};

std::unique_ptr<Variable> Var(const std::string& name, const AnyValue& v, bool dynamic)
{
  auto var = GlobalVariableRegistry().Create("Local");
  var->SetName(name);
  if (dynamic) var->AddAttribute("dynamicType", "true");
  if (!dto::IsEmptyValue(v))
  {
    var->AddAttribute("type", dto::AnyTypeToJSONString(v.GetType()));
    var->AddAttribute("value", Json(v));
  }
  return var;
}

// Hides a value somewhere in a larger one and tells where.
AnyValue Wrap(pbt::Gen& g, const AnyValue& v, std::string& path)
{
  switch (g.Draw(5))
  {
  case 0:
  {
    auto s = dto::EmptyStruct();
    if (g.Coin()) s.AddMember("z", AnyValue{g.Coin()});
    s.AddMember("f", v);
    path += ".f";
    return s;
  }
  case 1:
  {
    const auto n = 1 + g.Draw(3), i = g.Draw(n);
    AnyValue a(n, v.GetType());
    a[i] = v;
    path += "[" + std::to_string(i) + "]";
    if (g.Coin()) return a;
    auto s = dto::EmptyStruct();
    s.AddMember("g", a);
    path = path.substr(0, path.find('[')) + ".g" + path.substr(path.find('['));
    return s;
  }
  default: return v;
  }
}

std::unique_ptr<Instruction> Child(int pid)
{
  auto p = GlobalInstructionRegistry().Create("VProbe");
  p->AddAttribute("pid", std::to_string(pid));
  return p;
}

struct Rig
{
  explicit Rig(pbt::Case& c_) : c(c_), proc(std::make_unique<Procedure>()) {}
  void Add(const std::string& name, const AnyValue& v, bool dynamic = false)
  {
    PLOG(c) << (dynamic ? "dynamic " : "") << name << " = " << Show(v) << "\n";
    proc->AddVariable(name, Var(name, v, dynamic));
  }
  Instruction* Use(std::unique_ptr<Instruction> i)
  {
    for (auto& [k, v] : i->GetStringAttributes()) PLOG(c) << i->GetType() << " " << k << "=[" << v << "]\n";
    proc->PushInstruction(std::move(i));
    proc->Setup();
    return proc->RootInstruction();
  }
  pbt::Case& c;
  std::unique_ptr<Procedure> proc;
  HookUI ui;
};

void Elements(pbt::Case& c)
{
  auto& g = c.g;
  Rig rig(c);
  Hub8 hub(c);
  HubScope scope(&hub);
  auto elem_type = g.Coin() ? Scalars()[g.Draw(Scalars().size())] : RandType(g, 2);
  AnyValue array(g.Draw(5), elem_type, g.Coin() ? "" : "T");
  for (size_t i = 0; i < array.NumberOfElements(); ++i) array[i] = RandValue(g, elem_type);
  if (g.Draw(12) == 11) array = RandValue(g, RandType(g, 1));
  std::string array_name = "arr", elem_name = "e";
  auto holder = Wrap(g, array, array_name);
  rig.Add("arr", holder, g.Coin(1, 3));
  AnyValue first = RandValue(g, g.Draw(6) == 5 ? RandType(g, 1) : elem_type);
  const bool dynamic = g.Coin();
  const bool guarded = g.Draw(6) == 5;  // refuses some of the elements
  if (guarded)
  {
    const auto e = Wrap(g, first, elem_name);
    PLOG(c) << "guarded e = " << Show(e) << "\n";
    auto var = std::make_unique<Guarded>(e);
    var->SetName("e");
    rig.proc->AddVariable("e", std::move(var));
  }
  else if (g.Draw(12) == 11) rig.Add("e", {}, dynamic);
  else rig.Add("e", Wrap(g, first, elem_name), dynamic);
  hub.element = elem_name;
  hub.failures = g.Draw(3) == 0;
  const std::string array_attr = g.Draw(20) == 19 ? "nope" : array_name;
  const int kinds = g.Coin() ? 3 : 4;
  hub.meddle = [&](Workspace& ws) {
    switch (g.Draw(kinds))
    {
    case 0:  // another element of the same type
    {
      auto v = RandValue(g, elem_type);
      PLOG(c) << "  element := " << Show(v) << "\n";
      (void)ws.SetValue(elem_name, v);
      break;
    }
    case 1:  // the array itself
    {
      auto v = array;
      if (dto::IsArrayValue(v))
        for (size_t i = 0; i < v.NumberOfElements(); ++i) v[i] = RandValue(g, v.GetType().ElementType());
      PLOG(c) << "  array := " << Show(v) << "\n";
      (void)ws.SetValue(array_name, v);
      break;
    }
    case 2: break;
    default:  // something else in place of the element
    {
      auto v = RandValue(g, RandType(g, 1));
      PLOG(c) << "  element := " << Show(v) << "\n";
      (void)ws.SetValue("e", v);
    }
    }
  };
  auto f = GlobalInstructionRegistry().Create("For");
  f->AddAttribute("arrayVar", array_attr);
  f->AddAttribute("elementVar", elem_name);
  f->InsertInstruction(Child(1), 0);
  auto* root = rig.Use(std::move(f));
  auto& ws = rig.proc->GetWorkspace();
  int iterations = 0, finished = 0;
  const int rounds = 1 + static_cast<int>(g.Draw(3));
  for (int round = 0; round < rounds; ++round)
  {
    AnyValue a;
    const bool have = ws.GetValue(array_attr, a);
    size_t count = 0;
    for (int tick = 0; tick < 30; ++tick)
    {
      AnyValue e;
      const bool have_e = ws.GetValue(elem_name, e);
      ES want;
      bool exec = false;
      if (!have || !dto::IsArrayValue(a)) want = ES::FAILURE;
      else if (a.NumberOfElements() == 0) want = ES::SUCCESS;
      else if (!have_e || e.GetType() != a.GetType().ElementType()) want = ES::FAILURE;
      else exec = true;
      if (exec && guarded)
      {
        AnyValue whole;
        PCHECK(c, ws.GetValue("e", whole), "an element variable is not readable");
        if (elem_name == "e") whole = a[count];
        else whole[elem_name.substr(elem_name[1] == '.' ? 2 : 1)] = a[count];
        if (!Guarded::Takes(whole))
        {
          exec = false;
          want = ES::FAILURE;
          c.Label("the element is refused");
        }
      }
      PLOG(c) << "tick\n";
      hub.execs = 0;
      rig.proc->ExecuteSingle(rig.ui);
      PCHECK(c, (hub.execs == 1) == exec, exec ? "the child is not executed" : "the child is executed");
      if (exec)
      {
        if (!hub.seen_ok || hub.seen != a[count] || hub.seen.GetType() != a[count].GetType())
          c.Fail(pbt::Str("element ", count, " is ", Show(hub.seen), " instead of ", Show(a[count])));
        want = hub.result;
        if (want == ES::SUCCESS && ++count < a.NumberOfElements()) want = ES::NOT_FINISHED;
        ++iterations;
      }
      if (root->GetStatus() != want) c.Fail("For is " + St(root->GetStatus()) + " instead of " + St(want));
      if (want == ES::SUCCESS || want == ES::FAILURE)
      {
        c.Label("For ends as " + St(want));
        ++finished;
        break;
      }
    }
    PLOG(c) << "reset\n";
    if (g.Coin()) rig.proc->Reset(rig.ui);
    else root->Reset(rig.ui);
  }
  if (iterations >= 2 && finished) c.NonTrivial();
}

void Indices(pbt::Case& c)
{
  auto& g = c.g;
  Rig rig(c);
  Hub8 hub(c);
  HubScope scope(&hub);
  hub.failures = g.Draw(3) == 0;
  const int n = 1 + static_cast<int>(g.Draw(4));
  AnyType t = Scalars()[g.Draw(Scalars().size())];
  auto index = [&](const AnyType& type) {
    AnyValue v{type};
    if (g.Draw(8) == 0 || !dto::TryConvert(v, AnyValue{static_cast<dto::int32>(g.Draw(n + (g.Draw(8) == 0)))})) v = RandScalar(g, type);
    return v;
  };
  AnyValue selector;
  const auto shape = g.Draw(8);
  if (shape <= 4)
  {
    selector = AnyValue(g.Draw(6), t);
    for (size_t i = 0; i < selector.NumberOfElements(); ++i) selector[i] = index(t);
  }
  else if (shape <= 6) selector = index(t);
  else selector = RandValue(g, RandType(g, 2));
  std::string name = "sel";
  rig.Add("sel", Wrap(g, selector, name), g.Coin());
  auto ch = GlobalInstructionRegistry().Create("Choice");
  const bool missing = g.Draw(30) == 29;
  ch->AddAttribute("varName", missing ? "nope" : name);
  for (int i = 0; i < n; ++i) ch->InsertInstruction(Child(i), i);
  auto* root = rig.Use(std::move(ch));
  auto& ws = rig.proc->GetWorkspace();
  hub.meddle = [&](Workspace&) {
    auto v = selector;
    if (dto::IsArrayValue(v) && dto::IsScalarType(v.GetType().ElementType()))
      for (size_t i = 0; i < v.NumberOfElements(); ++i) v[i] = index(v.GetType().ElementType());
    PLOG(c) << "  selector := " << Show(v) << "\n";
    (void)ws.SetValue(name, v);
  };
  int executed = 0;
  const int rounds = 1 + static_cast<int>(g.Draw(3));
  for (int round = 0; round < rounds; ++round)
  {
    // The list is made at the first tick.
    std::optional<std::vector<uint64_t>> list;
    AnyValue v;
    if (!missing && ws.GetValue(name, v))
    {
      list.emplace();
      auto add = [&](const AnyValue& x) {
        dto::uint64 i = 0;
        if (list && dto::IsScalarValue(x) && x.As(i) && i < static_cast<uint64_t>(n)) list->push_back(i);
        else list.reset();
      };
      if (dto::IsArrayValue(v))
        for (size_t i = 0; i < v.NumberOfElements(); ++i) add(v[i]);
      else add(v);
    }
    size_t at = 0;
    for (int tick = 0; tick < 40; ++tick)
    {
      PLOG(c) << "tick\n";
      hub.execs = 0;
      rig.proc->ExecuteSingle(rig.ui);
      ES want;
      if (!list) want = ES::FAILURE;
      else if (at == list->size() && tick > 0) want = ES::SUCCESS;
      else if (tick == 0) want = ES::NOT_FINISHED;
      else
      {
        PCHECK(c, hub.execs == 1, "no child is executed");
        if (hub.pid != static_cast<int>((*list)[at])) c.Fail(pbt::Str("child ", hub.pid, " is executed instead of ", (*list)[at]));
        want = hub.result;
        ++executed;
        if (want == ES::SUCCESS && ++at < list->size()) want = ES::NOT_FINISHED;
      }
      if (root->GetStatus() != want) c.Fail("Choice is " + St(root->GetStatus()) + " instead of " + St(want));
      if (want == ES::SUCCESS || want == ES::FAILURE)
      {
        if (list) c.Label("the list is followed to " + St(want));
        else c.Label("no list of indices");
        break;
      }
    }
    PLOG(c) << "reset\n";
    if (g.Coin()) rig.proc->Reset(rig.ui);
    else root->Reset(rig.ui);
  }
  if (executed >= 2) c.NonTrivial();
}

// Repeat and Condition take a number or a truth value from a variable of any type.
void Numbers(pbt::Case& c)
{
  auto& g = c.g;
  Rig rig(c);
  Hub8 hub(c);
  HubScope scope(&hub);
  hub.failures = g.Draw(3) == 0;
  const bool repeat = g.Coin();
  AnyType t = Scalars()[g.Draw(Scalars().size())];
  AnyValue number{t};
  auto fresh = [&] {
    AnyValue v{t};
    if (g.Draw(4) == 0 || !dto::TryConvert(v, AnyValue{static_cast<dto::int32>(g.Range(-1, 4))})) v = RandScalar(g, t);
    return v;
  };
  number = g.Draw(10) == 9 ? RandValue(g, RandType(g, 2)) : fresh();
  std::string name = "n";
  rig.Add("n", Wrap(g, number, name), g.Coin());
  auto i = GlobalInstructionRegistry().Create(repeat ? "Repeat" : "Condition");
  const bool missing = g.Draw(30) == 29;
  if (repeat) i->AddAttribute("maxCount", missing ? "@nope" : "@" + name);
  else i->AddAttribute("varName", missing ? "nope" : name);
  if (repeat) i->InsertInstruction(Child(0), 0);
  auto* root = rig.Use(std::move(i));
  auto& ws = rig.proc->GetWorkspace();
  hub.meddle = [&](Workspace&) {
    auto v = fresh();
    PLOG(c) << "  number := " << Show(v) << "\n";
    (void)ws.SetValue(name, v);
  };
  int executed = 0;
  const int rounds = 1 + static_cast<int>(g.Draw(3));
  for (int round = 0; round < rounds; ++round)
  {
    AnyValue v;
    dto::int32 max = 0;
    bool truth = false;
    bool ok = !missing && ws.GetValue(name, v) && dto::IsScalarValue(v);
    ok = ok && (repeat ? v.As(max) : v.As(truth));
    dto::int32 count = 0;
    for (int tick = 0; tick < 20; ++tick)
    {
      PLOG(c) << "tick\n";
      hub.execs = 0;
      rig.proc->ExecuteSingle(rig.ui);
      ES want;
      if (!ok) want = ES::FAILURE;
      else if (!repeat) want = truth ? ES::SUCCESS : ES::FAILURE;
      else if (max == 0) want = ES::SUCCESS;
      else
      {
        PCHECK(c, hub.execs == 1, "the child is not executed");
        want = hub.result;
        ++executed;
        if (want == ES::SUCCESS && (max < 0 || ++count < max)) want = ES::NOT_FINISHED;
      }
      if (root->GetStatus() != want) c.Fail(root->GetType() + " is " + St(root->GetStatus()) + " instead of " + St(want));
      if (want == ES::SUCCESS || want == ES::FAILURE) break;
    }
    if (!repeat)
    {
      auto w = fresh();
      PLOG(c) << "  number := " << Show(w) << "\n";
      (void)ws.SetValue(name, w);
      root->Reset(rig.ui);
      continue;
    }
    PLOG(c) << "reset\n";
    if (g.Coin()) rig.proc->Reset(rig.ui);
    else root->Reset(rig.ui);
  }
  c.Label(repeat ? "Repeat" : "Condition");
  if (executed >= 2 || (!repeat && rounds > 1)) c.NonTrivial();
}

struct Init
{
  Init() { pbt::SetWorkerInit([] { RegisterProbe(); }); }
} g_init;

OAC_FACET("C08", "elements", Elements, Opts(30000, 1000000, "For executed its child at least twice and finished"));
OAC_FACET("C08", "indices", Indices, Opts(30000, 1000000, "Choice executed at least two children"));
OAC_FACET("C08", "numbers", Numbers, Opts(30000, 1000000, "Repeat executed its child twice, or Condition was executed twice"));
}  // namespace
