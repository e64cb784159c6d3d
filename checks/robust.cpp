// C26: malformed procedures are refused at setup, and what passes can be executed safely.
#include "scratch.h"
#include "values.h"

#include <sup/oac-tree/application_utils.h>
#include <sup/oac-tree/async_runner.h>
#include <sup/oac-tree/sequence_parser.h>

#include <atomic>
#include <map>
#include <set>
#include <thread>

using namespace values;

namespace
{
struct Def
{
  std::string name;
  char type;       // s tring, b oolean, d ouble, i nteger, u nsigned integer
  char category;   // l iteral, v ariable name, 2 both
  bool mandatory;
};

struct Kind
{
  char category;   // a ction, d ecorator, c ompound
  std::vector<Def> defs;
  bool threads = false;
};

// What the documentation says about the attributes of each instruction.
const std::map<std::string, Kind>& Kinds()
{
  static const std::map<std::string, Kind> kinds = {
    {"Sequence", {'c', {}}},
    {"Fallback", {'c', {}}},
    {"ReactiveSequence", {'c', {}, true}},
    {"ReactiveFallback", {'c', {}, true}},
    {"ParallelSequence", {'c', {{"successThreshold", 'u', 'l', false}, {"failureThreshold", 'u', 'l', false}}, true}},
    {"Choice", {'c', {{"varName", 's', 'v', true}}}},
    {"UserChoice", {'c', {{"description", 's', '2', false}}}},
    {"Async", {'d', {}, true}},
    {"Inverter", {'d', {}}},
    {"ForceSuccess", {'d', {}}},
    {"Repeat", {'d', {{"maxCount", 'i', '2', false}}}},
    {"For", {'d', {{"arrayVar", 's', 'v', true}, {"elementVar", 's', 'v', true}}}},
    {"Listen", {'d', {{"varNames", 's', 'l', true}, {"forceSuccess", 'b', '2', false}}}},
    {"AddElement", {'a', {{"inputVar", 's', 'v', true}, {"outputVar", 's', 'v', true}}}},
    {"AddMember", {'a', {{"inputVar", 's', 'v', true}, {"outputVar", 's', 'v', true}, {"memberName", 's', 'l', true}}}},
    {"Condition", {'a', {{"varName", 's', 'v', true}}}},
    {"Copy", {'a', {{"inputVar", 's', 'v', true}, {"outputVar", 's', 'v', true}}}},
    {"Decrement", {'a', {{"varName", 's', 'v', true}}}},
    {"Increment", {'a', {{"varName", 's', 'v', true}}}},
    {"ResetVariable", {'a', {{"varName", 's', 'v', true}}}},
    {"VarExists", {'a', {{"varName", 's', 'v', true}}}},
    {"Equals", {'a', {{"leftVar", 's', 'v', true}, {"rightVar", 's', 'v', true}}}},
    {"LessThan", {'a', {{"leftVar", 's', 'v', true}, {"rightVar", 's', 'v', true}}}},
    {"LessThanOrEqual", {'a', {{"leftVar", 's', 'v', true}, {"rightVar", 's', 'v', true}}}},
    {"GreaterThan", {'a', {{"leftVar", 's', 'v', true}, {"rightVar", 's', 'v', true}}}},
    {"GreaterThanOrEqual", {'a', {{"leftVar", 's', 'v', true}, {"rightVar", 's', 'v', true}}}},
    {"Input", {'a', {{"outputVar", 's', 'v', true}, {"description", 's', '2', false}}}},
    {"Output", {'a', {{"fromVar", 's', 'v', true}, {"description", 's', '2', false}}}},
    {"Message", {'a', {{"text", 's', '2', true}}}},
    {"Log", {'a', {{"message", 's', '2', false}, {"inputVar", 's', 'v', false}, {"severity", 's', '2', false}}}},
    {"UserConfirmation", {'a', {{"description", 's', '2', true}, {"okText", 's', '2', false}, {"cancelText", 's', '2', false}}}},
    {"Wait", {'a', {{"timeout", 'd', '2', false}, {"blocking", 'b', '2', false}}}},
    {"WaitForVariable", {'a', {{"varName", 's', 'v', true}, {"timeout", 'd', '2', true}, {"equalsVar", 's', 'v', false}}}},
    {"WaitForVariables", {'a', {{"timeout", 'd', '2', true}, {"varType", 's', '2', true}}}},
    {"Succeed", {'a', {}}},
    {"Fail", {'a', {}}}};
  return kinds;
}

std::vector<std::string> Names(char category, bool threads)
{
  std::vector<std::string> r;
  for (auto& [n, k] : Kinds())
    if (k.category == category && (threads || !k.threads)) r.push_back(n);
  return r;
}

struct Maker
{
  pbt::Gen& g;
  bool mistakes;     // may mistakes be made?
  bool threads;
  std::vector<std::string> why;   // the mistakes made

  std::string VarName()
  {
    static const std::vector<std::string> names = {"i", "d", "b", "s", "st", "arr", "any", "file", "st.a", "st.b", "arr[0]", "arr[1]", "arr[7]", "st.none", "absent", "", "u8", "big", "nan", "structs", "structs[0].a", "ch", "st.", "[0]", "arr[", "arr[x]", "arr[-1]", ".a", "i.a"};
    return names[g.Coin() ? g.Draw(8) : g.Draw(names.size())];
  }

  // A value for the attribute; sets 'ok' to whether it is acceptable.
  std::string Value(const Def& d, bool& ok)
  {
    ok = true;
    if (d.category == 'v') return VarName();
    if (d.name == "varNames")
    {
      std::string r;
      do r += (r.empty() ? "" : ",") + VarName();
      while (g.More(1));
      return r;
    }
    if (d.category == '2' && g.Draw(4) == 0) return "@" + VarName();
    switch (d.type)
    {
    case 's':
      if (d.name == "severity") return std::vector<std::string>{"info", "error", "warning", "none", "", "6"}[g.Draw(6)];
      if (d.name == "varType") return std::vector<std::string>{"Local", "File", "None", ""}[g.Draw(4)];
      return std::vector<std::string>{"text", "", "a b", "\xc3\xa9", "true", "name", "<&>"}[g.Draw(7)];
    case 'b': return std::vector<std::string>{"true", "false", "yes", "maybe", ""}[g.Draw(5)];
    default:
    {
      if (mistakes && g.Draw(8) == 7)
      {
        ok = false;
        // (a leading @ is a variable for some attributes)
        return std::vector<std::string>{"abc", "", "1x", "{", "one", "x1"}[g.Draw(6)];
      }
      if (d.type == 'd') return std::vector<std::string>{"0", "0.001", "0.002", "0.0", "1e-3"}[g.Draw(5)];
      if (d.type == 'u') return std::to_string(g.Draw(5));
      return std::vector<std::string>{"0", "1", "2", "3", "7", "-1"}[g.Draw(6)];
    }
    }
  }

  Node Make(int depth)
  {
    const char cat = depth <= 0 ? 'a' : depth >= 4 ? "accccdcc"[g.Draw(8)] : "aaddcccc"[g.Draw(8)];
    const auto names = Names(cat, threads);
    Node n(g.Pick(names));
    const auto& kind = Kinds().at(n.type);
    for (auto& d : kind.defs)
    {
      const bool give = d.mandatory ? !(mistakes && g.Draw(30) == 29) : g.Draw(3) != 0;
      if (d.name == "severity" && !give) continue;
      if (!give)
      {
        if (d.mandatory) why.push_back(n.type + " has no " + d.name);
        continue;
      }
      bool ok;
      const auto v = Value(d, ok);
      if (!ok) why.push_back(n.type + " has " + d.name + "=[" + v + "]");
      n.A(d.name, v);
    }
    auto has = [&n](const std::string& a)
    {
      for (auto& [k, v] : n.attrs)
        if (k == a) return true;
      return false;
    };
    if (n.type == "Log" && !has("message") && !has("inputVar"))
    {
      if (mistakes && g.Coin())
        why.push_back("Log has no message");
      else
        n.A("message", "m");
    }
    if (n.type == "Repeat" && !has("maxCount") && threads) n.A("maxCount", "3");
    if (g.Draw(10) == 9) n.A("name", VarName());
    if (g.Draw(10) == 9) n.A("unknown", VarName());
    if (kind.category != 'a' && g.Draw(10) == 9) n.A("showCollapsed", g.Coin() ? "true" : "what");
    if (kind.category != 'a' && mistakes && g.Draw(25) == 24)
    {
      why.push_back(n.type + " has no children");
      return n;
    }
    const size_t kids = kind.category == 'd' ? 1 : kind.category == 'c' ? 1 + g.Draw(4) : 0;
    for (size_t i = 0; i < kids; ++i) n.K(Make(depth - 1));
    return n;
  }

  std::vector<Node> Vars(const std::string& dir)
  {
    std::vector<Node> r = {
      LocalVar("i", "{\"type\":\"int32\"}", std::to_string(g.Range(-1, 3))), LocalVar("d", "{\"type\":\"float64\"}", "0.001"),
      LocalVar("b", "{\"type\":\"bool\"}", g.Coin() ? "true" : "false"), LocalVar("s", "{\"type\":\"string\"}", g.Coin() ? "\"text\"" : "\"\""),
      LocalVar("st", "{\"type\":\"S\",\"attributes\":[{\"a\":{\"type\":\"int32\"}},{\"b\":{\"type\":\"string\"}}]}", "{\"a\":1,\"b\":\"x\"}"),
      LocalVar("arr", "{\"type\":\"\",\"multiplicity\":2,\"element\":{\"type\":\"uint32\"}}", g.Coin() ? "[0,1]" : "[1,9]"),
      LocalVar("u8", "{\"type\":\"uint8\"}", g.Coin() ? "0" : "255"), LocalVar("big", "{\"type\":\"uint64\"}", "18446744073709551615"),
      LocalVar("any", "", ""), LocalVar("ch", "{\"type\":\"char8\"}", ""),
      LocalVar("structs", "{\"type\":\"\",\"multiplicity\":1,\"element\":{\"type\":\"T\",\"attributes\":[{\"a\":{\"type\":\"bool\"}}]}}", "")};
    if (g.Coin()) r.push_back(LocalVar("nan", "{\"type\":\"float64\"}", "0.0005"));
    Node f("File", {{"name", "file"}, {"file", dir + "/values.json"}});
    r.push_back(f);
    if (g.Coin()) r[8].A("dynamicType", g.Coin() ? "true" : "perhaps");
    if (mistakes && g.Draw(3) == 0)
    {
      Node n("Local", {{"name", "wrong"}});
      switch (g.Draw(7))
      {
      case 0: n.A("value", "1"); why.push_back("variable with a value but no type"); break;
      case 1: n.A("type", g.Coin() ? "{\"type\":\"int33\"}" : "int32"); why.push_back("variable of an unknown type"); break;
      case 2: n.A("type", "{\"type\":\"int32\"}").A("value", g.Coin() ? "one" : "{}"); why.push_back("variable with a wrong value"); break;
      case 3: n.A("type", ""); why.push_back("variable with an empty type"); break;
      case 4: n.A("type", "{\"type\":\"S\",\"attributes\":[{\"a\":{\"type\":\"int32\"}}]}").A("value", g.Coin() ? "{\"b\":1}" : "[1]"); why.push_back("variable with the value of another structure"); break;
      case 5: n.A("type", "{\"type\":\"string\"}"); break;
      default: n.type = "File"; why.push_back("file variable without a file"); break;
      }
      r.insert(r.begin() + g.Draw(r.size() + 1), n);
    }
    return r;
  }
};

// A user who answers anything at any time, from a table made beforehand.
class AnyUser : public UserInterface
{
public:
  std::vector<AnyValue> replies;
  std::vector<int> delays;
  std::atomic<int> asked{0};
  bool put = true;
  bool refuse = false;

  void UpdateInstructionStatus(const Instruction* i) override { (void)i->GetStatus(); }
  bool PutValue(const AnyValue&, const std::string&) override { return put; }
  std::unique_ptr<IUserInputFuture> RequestUserInput(const UserInputRequest& r) override
  {
    const int k = asked++;
    if (refuse && k % 3 == 2) return std::make_unique<UnsupportedInputFuture>();
    auto f = std::make_unique<FnFuture>();
    auto left = std::make_shared<std::atomic<int>>(delays[k % delays.size()]);
    f->id = static_cast<sup::dto::uint64>(k + 1);
    f->ready = [left] { return (*left)-- <= 0; };
    const auto type = k % 5 == 4 ? InputRequestType::kUserValue : r.m_request_type;
    const bool ok = k % 4 != 3;
    const auto v = replies[k % replies.size()];
    f->value = [type, ok, v] { return UserInputReply{type, ok, v}; };
    return f;
  }
  void VariableUpdated(const std::string&, const AnyValue&, bool) override {}
  void Message(const std::string&) override {}
  void Log(int, const std::string&) override {}
};

AnyValue Reply(pbt::Gen& g)
{
  switch (g.Draw(6))
  {
  case 0: return AnyValue{static_cast<sup::dto::int32>(g.Range(-2, 4))};
  case 1: return AnyValue{std::string("text")};
  case 2: return {};
  case 3:
  {
    auto v = sup::dto::EmptyStruct();
    v.AddMember("choice", AnyValue{static_cast<sup::dto::uint32>(g.Draw(3))});
    return v;
  }
  default: return AnyValue{sup::dto::int32{0}};
  }
}


void Case(pbt::Case& c, bool mistakes, bool threads)
{
  auto& g = c.g;
  Scratch scratch;
  Maker m{g, mistakes, threads};
  const auto root = m.Make(4);
  const auto vars = m.Vars(scratch.path);
  std::vector<std::pair<std::string, std::string>> attrs;
  if (mistakes && g.Draw(6) == 5)
  {
    const bool bad = g.Coin();
    attrs.emplace_back(g.Coin() ? "tickTimeout" : "timingAccuracy", bad ? "soon" : "0.01");
    if (bad) m.why.push_back("procedure attribute");
  }
  std::vector<Node> top = {root};
  const auto before = m.why.size();
  const bool several = g.Draw(6) == 5;
  if (several)
  {
    // instructions that are not executed are not checked
    top.push_back(m.Make(1));
    m.why.resize(before);
    if (mistakes && g.Draw(4) == 3)
      m.why.push_back("no root");
    else
      top[0].A("isRoot", "true");
  }
  const auto xml = ProcXml(top, vars, attrs);
  if (g.Coin()) scratch.Write("values.json", g.Coin() ? "{\"encoding\":\"sup-dto/v1.0/JSON\"}" : "[{\"encoding\":\"sup-dto/v1.0/JSON\"},{\"datatype\":{\"type\":\"int32\"}},{\"instance\":3}]");
  scratch.File("values.json");
  PLOG(c) << xml;
  for (auto& w : m.why) PLOG(c) << "mistake: " << w << "\n";
  auto p = ParseProcedureString(xml);
  std::string thrown;
  try
  {
    p->Setup();
  }
  catch (const InstructionSetupException& e) { thrown = std::string("InstructionSetupException ") + e.what(); }
  catch (const VariableSetupException& e) { thrown = std::string("VariableSetupException ") + e.what(); }
  catch (const ProcedureSetupException& e) { thrown = std::string("ProcedureSetupException ") + e.what(); }
  if (!thrown.empty()) PLOG(c) << "thrown: " << thrown << "\n";
  PCHECK(c, !m.why.empty() || thrown.empty(), "a correct procedure is refused: ", thrown);
  PCHECK(c, m.why.empty() || !thrown.empty(), "accepted although: ", m.why[0]);
  if (mistakes && g.Draw(4) == 3)
  {
    // the functions for applications turn exceptions into messages
    auto text = xml;
    if (g.Coin(1, 4)) text.resize(g.Draw(text.size()));
    const auto file = scratch.Write("procedure.xml", text);
    const auto name = g.Draw(8) == 7 ? scratch.path + "/absent.xml" : file;
    std::string error = g.Coin() ? "earlier" : "";
    bool parses = true;
    try { (void)ParseProcedureFile(name); }
    catch (const std::exception&) { parses = false; }
    auto q = utils::SafeParseProcedure(name, error);
    PCHECK(c, (q != nullptr) == parses, "a procedure file that ", parses ? "can" : "cannot", " be parsed gives ", q ? "a procedure" : "none");
    PCHECK(c, (q != nullptr) == error.empty(), "after parsing ", q ? "with success" : "in vain", " the error is [", error, "]");
    if (q && text == xml)
    {
      HookUI quiet;
      utils::SimpleJobStateMonitor monitor;
      error = g.Coin() ? "earlier" : "";
      auto runner = utils::CreateAsyncRunner(*q, quiet, monitor, error);
      PCHECK(c, (runner != nullptr) == thrown.empty(), "a runner is ", runner ? "" : "not ", "made although the setup ", thrown.empty() ? "succeeds" : "fails");
      PCHECK(c, (runner != nullptr) == error.empty(), "after making a runner ", runner ? "with success" : "in vain", " the error is [", error, "]");
      c.Label("by the application");
    }
  }
  c.Label(m.why.empty() ? "accepted" : "refused");
  if (!m.why.empty())
  {
    if (m.why.size() == 1 && root.kids.size() > 1) c.NonTrivial();
    return;
  }
  AnyUser ui;
  for (size_t i = 0, n = 1 + g.Draw(4); i < n; ++i)
  {
    ui.replies.push_back(Reply(g));
    ui.delays.push_back(static_cast<int>(g.Draw(4)));
  }
  ui.put = g.Coin();
  ui.refuse = g.Draw(4) == 3;
  const int rounds = 1 + static_cast<int>(g.Draw(3));
  int executed = 0;
  for (int r = 0; r < rounds; ++r)
  {
    const int ticks = static_cast<int>(g.Draw(40)), halt = g.Coin() ? static_cast<int>(g.Draw(40)) : -1;
    PLOG(c) << "ticks " << ticks << (halt >= 0 && halt < ticks ? pbt::Str(", halted before tick ", halt) : "") << "\n";
    for (int t = 0; t < ticks && NeedsExecute(p->GetStatus()); ++t)
    {
      if (t == halt) p->Halt();
      p->ExecuteSingle(ui);
      ++executed;
      (void)GetNextInstructions(*p);
      (void)GetNextLeaves(*p);
      if (threads && t % 4 == 3) std::this_thread::sleep_for(std::chrono::microseconds(200));
      // between executions somebody else may change the variables
      if (g.Draw(6) == 5)
      {
        const auto n = m.VarName();
        const auto type = RandType(g, 1);
        (void)p->GetWorkspace().SetValue(n, RandValue(g, type));
      }
    }
    const auto s = St(p->GetStatus());
    PLOG(c) << "status " << s << "\n";
    c.Label(s);
    PCHECK(c, s.find('?') == std::string::npos, "the status is ", s);
    if (g.Coin()) p->Halt();
    p->Reset(ui);
    PCHECK(c, p->GetStatus() == ES::NOT_STARTED, "after a reset the status is ", St(p->GetStatus()));
  }
  if (executed > 3 && root.kids.size() > 1) c.NonTrivial();
}

void Setup(pbt::Case& c) { Case(c, true, false); }
void Execution(pbt::Case& c) { Case(c, false, false); }
void Threads(pbt::Case& c) { Case(c, false, true); }
}  // namespace

OAC_FACET("C26", "setup", Setup, Opts(20000, 1000000, "one mistake among several instructions, or a correct procedure that is executed", 15));
OAC_FACET("C26", "execution", Execution, Opts(20000, 1000000, "several instructions executed several times", 15));
OAC_FACET("C26", "threads", Threads, Opts(3000, 150000, "several instructions, some in threads, executed several times", 15));
