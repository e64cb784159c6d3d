// C24: procedure files are parsed faithfully or refused, and can be written back.
#include "scratch.h"
#include "values.h"

#include <sup/oac-tree/instruction_utils.h>
#include <sup/oac-tree/procedure_preamble.h>

#include <cmath>
#include <set>

using namespace values;

namespace
{
const std::vector<std::string> g_leaves = {"Wait", "Copy", "Succeed", "Fail", "Equals", "Message", "Condition", "Increment", "Input", "Log", "AddElement", "UserConfirmation", "WaitForVariables", "CopyToProcedure"};
const std::vector<std::string> g_decorators = {"Inverter", "Repeat", "ForceSuccess", "For", "Listen", "Async", "Include", "IncludeProcedure"};
const std::vector<std::string> g_compounds = {"Sequence", "Fallback", "ParallelSequence", "ReactiveSequence", "ReactiveFallback", "Choice", "UserChoice"};

bool In(const std::vector<std::string>& l, const std::string& s)
{
  return std::find(l.begin(), l.end(), s) != l.end();
}

using Attrs = std::vector<std::pair<std::string, std::string>>;

std::string RandText(pbt::Gen& g)
{
  static const char* const parts[] = {"", "x", "a b", "<", ">", "&", "&amp;", "\"", "'", "\n", "\t", "$p", "@v", "true", "0.5", "12", "\xc3\xa9", "\xe2\x82\xac", " lead", "trail ", "{\"type\":\"int32\"}", "]]>", "<!--", "\\"};
  std::string r;
  do r += parts[g.Draw(24)];
  while (g.More(1));
  if (g.Draw(500) == 499) r += std::string(size_t{100} << g.Draw(10), 'l') + "e";
  return r;
}

Attrs RandAttrs(pbt::Gen& g, bool root)
{
  static const std::vector<std::string> names = {"name", "timeout", "varName", "showCollapsed", "text", "x", "x-y", "_z", "file", "path", "Name", "leftVar"};
  Attrs r;
  std::set<std::string> seen;
  while (g.More(2))
  {
    const auto& n = g.Pick(names);
    if (seen.insert(n).second) r.emplace_back(n, RandText(g));
  }
  if (root && g.Draw(3) == 0) r.emplace_back("isRoot", std::vector<std::string>{"true", "false", "True", "yes", "no", ""}[g.Draw(6)]);
  return r;
}

// An instruction that the parser must accept; 'bad' (if not null) asks for one mistake below.
Node RandInstr(pbt::Gen& g, int depth, bool top)
{
  const int kind = depth <= 0 ? 0 : static_cast<int>(g.Draw(4));
  Node n(kind == 0 ? g.Pick(g_leaves) : kind == 1 ? g.Pick(g_decorators) : g.Pick(g_compounds));
  n.attrs = RandAttrs(g, top || g.Draw(8) == 7);
  size_t kids = kind == 0 ? 0 : kind == 1 ? g.Draw(5) != 4 : g.Draw(5);
  for (size_t i = 0; i < kids; ++i) n.kids.push_back(RandInstr(g, depth - 1, false));
  if (kind > 1 && g.Draw(300) == 299)
  {
    // very many children
    const auto one = RandInstr(g, 0, false);
    n.kids.insert(n.kids.begin() + g.Draw(n.kids.size() + 1), size_t{16} << g.Draw(7), one);
  }
  if (kind == 1 && g.Draw(300) == 299)
    for (size_t i = 0, levels = 10 + g.Draw(150); i < levels; ++i)
    {
      Node above(g.Pick(g_decorators));
      above.kids.push_back(std::move(n));
      n = std::move(above);
    }
  return n;
}

Node RandVar(pbt::Gen& g, std::set<std::string>& names)
{
  static const std::vector<std::string> pool = {"v", "w", "V", "a b", "x.y", "v1", "\xc3\xa9", "<v>", "z"};
  std::string name;
  do name = g.Pick(pool) + (g.Draw(4) == 3 ? std::to_string(g.Draw(100)) : "");
  while (!names.insert(name).second);
  Node n(g.Draw(4) == 3 ? "File" : "Local");
  n.attrs = RandAttrs(g, false);
  n.attrs.erase(std::remove_if(n.attrs.begin(), n.attrs.end(), [](auto& a) { return a.first == "name"; }), n.attrs.end());
  n.attrs.insert(n.attrs.begin() + g.Draw(n.attrs.size() + 1), {"name", name});
  return n;
}

struct Spec
{
  Attrs attrs;
  std::vector<Node> top, vars;
  std::vector<Node> types;              // RegisterType
  std::vector<std::string> plugins;
  // number of elements of each workspace element, and the order of all elements
  std::vector<Node> elements;           // as they appear
};

Spec RandSpec(pbt::Gen& g)
{
  Spec s;
  s.attrs = RandAttrs(g, false);
  auto number = [&g]() -> std::string
  { static const char* const n[] = {"0", "0.25", "1", "2.5", "0.001", "3600", "1e-3", "-1", "1e300"}; return n[g.Draw(9)]; };
  if (g.Draw(3) == 0) s.attrs.emplace_back("tickTimeout", number());
  if (g.Draw(3) == 0) s.attrs.emplace_back("timingAccuracy", number());
  std::set<std::string> names;
  do
  {
    switch (g.Draw(6))
    {
    case 0:
    {
      Node ws("Workspace");
      while (g.More(2)) ws.kids.push_back(RandVar(g, names));
      if (g.Draw(100) == 99)
        for (size_t i = 0, n = size_t{16} << g.Draw(7); i < n; ++i)
        {
          ws.kids.push_back(Node("Local", {{"name", "many " + std::to_string(i)}}));
          if (!names.insert(ws.kids.back().attrs[0].second).second) ws.kids.pop_back();
        }
      s.vars.insert(s.vars.end(), ws.kids.begin(), ws.kids.end());
      s.elements.push_back(ws);
      break;
    }
    case 1:
    {
      Node t("RegisterType", {{g.Coin() ? "jsontype" : "jsonfile", RandText(g)}});
      s.types.push_back(t);
      s.elements.push_back(t);
      break;
    }
    case 2:
    {
      Node p("Plugin");
      static const char* const libs[] = {"libm.so.6", "libc.so.6", "libpthread.so.0"};
      p.content = libs[g.Draw(3)];
      s.plugins.push_back(p.content);
      s.elements.push_back(p);
      break;
    }
    default:
      s.top.push_back(RandInstr(g, 4, true));
      s.elements.push_back(s.top.back());
    }
  } while (g.More(3));
  return s;
}

std::string XmlOf(const Spec& s, const std::string& root = "Procedure")
{
  Node p(root, s.attrs);
  p.kids = s.elements;
  return "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n" + ToXml(p);
}

std::string ShowAttrs(const Attrs& a)
{
  std::string r;
  for (auto& [k, v] : a) r += " " + k + "=[" + v + "]";
  return r;
}

bool IsTrue(std::string s)
{
  for (auto& ch : s) ch = static_cast<char>(std::tolower(static_cast<unsigned char>(ch)));
  return s == "true" || s == "yes" || s == "on";
}

// ----------------------------------------------------------------------------------- comparison
void CompareInstr(pbt::Case& c, const Node& n, const Instruction& i, const std::string& where)
{
  PCHECK(c, i.GetType() == n.type, where, " is of type ", i.GetType(), " instead of ", n.type);
  const auto cat = In(g_compounds, n.type) ? Instruction::kCompound : In(g_decorators, n.type) ? Instruction::kDecorator : Instruction::kAction;
  PCHECK(c, i.GetCategory() == cat, where, " has category ", i.GetCategory());
  PCHECK(c, i.GetStringAttributes() == n.attrs, where, " has attributes", ShowAttrs(i.GetStringAttributes()), " instead of", ShowAttrs(n.attrs));
  std::string name;
  for (auto& [k, v] : n.attrs)
  {
    if (k == "name") name = v;
    PCHECK(c, i.HasAttribute(k), where, ": attribute ", k, " is missing");
    PCHECK(c, i.GetAttributeString(k) == v, where, ": attribute ", k, " is ", i.GetAttributeString(k));
  }
  PCHECK(c, !i.HasAttribute("absent"), "absent attribute exists");
  PCHECK(c, i.GetName() == name, where, " has name ", i.GetName(), " instead of ", name);
  PCHECK(c, i.GetStatus() == ES::NOT_STARTED, where, " has status ", St(i.GetStatus()));
  const auto kids = i.ChildInstructions();
  PCHECK(c, kids.size() == n.kids.size() && i.ChildrenCount() == static_cast<int>(n.kids.size()), where, " (", n.type, ") has ", kids.size(), " children instead of ", n.kids.size());
  for (size_t k = 0; k < kids.size(); ++k) CompareInstr(c, n.kids[k], *kids[k], where + "." + std::to_string(k));
}

void Compare(pbt::Case& c, const Spec& s, const Procedure& p)
{
  const auto top = p.GetTopInstructions();
  PCHECK(c, top.size() == s.top.size() && p.GetInstructionCount() == static_cast<int>(s.top.size()), top.size(), " instructions instead of ", s.top.size());
  for (size_t i = 0; i < top.size(); ++i) CompareInstr(c, s.top[i], *top[i], std::to_string(i));
  // the root
  int root = s.top.size() == 1 ? 0 : -1;
  for (size_t i = 0; root < 0 && i < s.top.size(); ++i)
    for (auto& [k, v] : s.top[i].attrs)
      if (root < 0 && k == "isRoot" && IsTrue(v)) root = static_cast<int>(i);
  PCHECK(c, p.RootInstruction() == (root < 0 ? nullptr : top[root]), "the root is not instruction ", root);
  // the variables
  std::vector<std::string> names;
  for (auto& v : s.vars)
    for (auto& [k, val] : v.attrs)
      if (k == "name") names.push_back(val);
  PCHECK(c, p.VariableNames() == names, p.VariableNames().size(), " variables, or another order, instead of ", names.size());
  const auto vars = p.GetWorkspace().GetVariables();
  PCHECK(c, vars.size() == s.vars.size(), vars.size(), " variables instead of ", s.vars.size());
  for (size_t i = 0; i < vars.size(); ++i)
  {
    PCHECK(c, vars[i]->GetType() == s.vars[i].type, "variable ", i, " is of type ", vars[i]->GetType());
    PCHECK(c, vars[i]->GetStringAttributes() == s.vars[i].attrs, "variable ", i, " has attributes", ShowAttrs(vars[i]->GetStringAttributes()), " instead of", ShowAttrs(s.vars[i].attrs));
    PCHECK(c, vars[i]->GetName() == names[i], "variable ", i, " is called ", vars[i]->GetName());
  }
  // the preamble
  const auto& pre = p.GetPreamble();
  PCHECK(c, pre.GetPluginPaths() == s.plugins, pre.GetPluginPaths().size(), " plugins, or another order, instead of ", s.plugins.size());
  const auto types = pre.GetTypeRegistrations();
  PCHECK(c, types.size() == s.types.size(), types.size(), " type registrations instead of ", s.types.size());
  for (size_t i = 0; i < types.size(); ++i)
  {
    const bool file = s.types[i].attrs[0].first == "jsonfile";
    PCHECK(c, types[i].GetRegistrationMode() == (file ? TypeRegistrationInfo::kJSONFile : TypeRegistrationInfo::kJSONString), "type registration ", i, " has another mode");
    PCHECK(c, types[i].GetString() == s.types[i].attrs[0].second, "type registration ", i, " is [", types[i].GetString(), "] instead of [", s.types[i].attrs[0].second, "]");
  }
  // the attributes
  std::string name = p.GetFilename();
  long long tick = 100000000, accuracy = 50000000;
  for (auto& [k, v] : s.attrs)
  {
    PCHECK(c, p.HasAttribute(k), "attribute ", k, " of the procedure is missing");
    PCHECK(c, p.GetAttributeString(k) == v, "attribute ", k, " of the procedure is [", p.GetAttributeString(k), "] instead of [", v, "]");
    if (k == "name") name = v;
    const double d = std::atof(v.c_str());
    if (k == "tickTimeout" && d >= 0 && d <= instruction_utils::kMaxTimeoutSeconds) tick = std::lround(d * 1e9);
    if (k == "timingAccuracy" && d >= 0 && d <= instruction_utils::kMaxTimeoutSeconds) accuracy = std::lround(d * 1e9);
  }
  for (auto* k : {"name", "tickTimeout", "timingAccuracy", "x", "absent"})
  {
    bool has = false;
    for (auto& a : s.attrs) has = has || a.first == k;
    PCHECK(c, p.HasAttribute(k) == has, "attribute ", k, " of the procedure ", has ? "is missing" : "appeared");
  }
  PCHECK(c, GetProcedureName(p) == name, "the procedure is called ", GetProcedureName(p), " instead of ", name);
  PCHECK(c, TickTimeoutNs(p) == tick, "tick timeout ", TickTimeoutNs(p), " instead of ", tick);
  PCHECK(c, TimingAccuracyNs(p) == accuracy, "timing accuracy ", TimingAccuracyNs(p), " instead of ", accuracy);
}

size_t CountNodes(const std::vector<Node>& l)
{
  size_t n = 0;
  for (auto& k : l) n += 1 + CountNodes(k.kids);
  return n;
}

bool Special(const Spec& s)
{
  return XmlOf(s).find("&#10;") != std::string::npos || XmlOf(s).find("&lt;") != std::string::npos || XmlOf(s).find("&quot;") != std::string::npos;
}

// -------------------------------------------------------------------------------------- facets
void Parse(pbt::Case& c)
{
  auto& g = c.g;
  const auto s = RandSpec(g);
  const auto xml = XmlOf(s);
  PLOG(c) << xml;
  std::unique_ptr<Procedure> p;
  if (g.Coin(1, 4))
  {
    Scratch scratch;
    const auto f = scratch.Write("p.xml", xml);
    p = ParseProcedureFile(f);
    PCHECK(c, p && p->GetFilename() == f, "the procedure has file name ", p ? p->GetFilename() : "-");
    c.Label("from a file");
  }
  else
  {
    p = ParseProcedureString(xml);
    PCHECK(c, p && p->GetFilename().empty(), "the procedure has a file name");
  }
  Compare(c, s, *p);
  if (CountNodes(s.top) > 3 && !s.vars.empty()) c.NonTrivial();
}

void RoundTrip(pbt::Case& c)
{
  auto& g = c.g;
  auto s = RandSpec(g);
  PLOG(c) << XmlOf(s);
  auto p = ParseProcedureString(XmlOf(s));
  // edit the procedure
  std::set<std::string> names;
  for (auto& v : s.vars)
    for (auto& [k, val] : v.attrs)
      if (k == "name") names.insert(val);
  while (g.More(2))
  {
    switch (g.Draw(6))
    {
    case 0:
    case 1:
    {
      auto n = RandInstr(g, 2, true);
      Spec one;
      one.elements = {n};
      auto i = ParseProcedureString(XmlOf(one))->TakeInstruction(0);
      const int at = static_cast<int>(g.Draw(s.top.size() + 1));
      PLOG(c) << "insert " << n.type << " at " << at << "\n";
      if (g.Coin() && at == static_cast<int>(s.top.size()))
        p->PushInstruction(std::move(i));
      else
        PCHECK(c, p->InsertInstruction(std::move(i), at), "insertion fails");
      s.top.insert(s.top.begin() + at, n);
      break;
    }
    case 2:
    {
      const int at = static_cast<int>(g.Draw(s.top.size() + 1));
      PLOG(c) << "take " << at << "\n";
      const bool got = p->TakeInstruction(at) != nullptr;
      PCHECK(c, got == (at < static_cast<int>(s.top.size())), "taking instruction ", at, got ? " succeeds" : " fails");
      if (got) s.top.erase(s.top.begin() + at);
      break;
    }
    case 3:
    {
      auto n = RandVar(g, names);
      PLOG(c) << "add variable" << ShowAttrs(n.attrs) << "\n";
      auto v = GlobalVariableRegistry().Create(n.type);
      std::string name;
      for (auto& [k, val] : n.attrs)
      {
        v->AddAttribute(k, val);
        if (k == "name") name = val;
      }
      p->AddVariable(name, std::move(v));
      s.vars.push_back(n);
      break;
    }
    case 4:
    {
      const std::string k = g.Coin() ? "added" : "name", v = RandText(g);
      PLOG(c) << "add attribute " << k << "=[" << v << "]\n";
      bool has = false;
      for (auto& a : s.attrs) has = has || a.first == k;
      PCHECK(c, p->AddAttribute(k, v) == !has, "adding attribute ", k);
      if (!has) s.attrs.emplace_back(k, v);
      break;
    }
    default:
    {
      Node t("RegisterType", {{g.Coin() ? "jsontype" : "jsonfile", RandText(g)}});
      PLOG(c) << "add type" << ShowAttrs(t.attrs) << "\n";
      p->GetPreamble().AddTypeRegistration({t.attrs[0].first == "jsontype" ? TypeRegistrationInfo::kJSONString : TypeRegistrationInfo::kJSONFile, t.attrs[0].second});
      s.types.push_back(t);
    }
    }
  }
  const auto text = GetXMLString(*p);
  PLOG(c) << "written back:\n" << text;
  Compare(c, s, *p);  // writing changes nothing
  auto q = ParseProcedureString(text);
  Compare(c, s, *q);
  PCHECK(c, GetXMLString(*q) == text, "the text is not the same when written a second time");
  if (CountNodes(s.top) > 3 && Special(s)) c.NonTrivial();
}

// Every mistake is reported as an exception of this library, whatever surrounds it.
void Refuse(pbt::Case& c)
{
  auto& g = c.g;
  auto s = RandSpec(g);
  std::string root = "Procedure";
  // a random position among the elements, below the instructions for mistakes in instructions
  auto insert = [&](Node n) { s.elements.insert(s.elements.begin() + g.Draw(s.elements.size() + 1), std::move(n)); };
  auto wrap = [&](Node n)
  {
    while (g.More(1))
    {
      Node w(g.Coin() ? g.Pick(g_decorators) : g.Pick(g_compounds));
      const bool many = In(g_compounds, w.type);
      if (many && g.Coin()) w.kids.push_back(RandInstr(g, 1, false));
      w.kids.push_back(std::move(n));
      if (many && g.Coin()) w.kids.push_back(RandInstr(g, 1, false));
      n = std::move(w);
    }
    return n;
  };
  enum { kParse, kAny, kRuntime } want = kParse;
  std::string mistake;
  switch (g.Draw(9))
  {
  case 0:
  {
    static const std::vector<std::string> names = {"Sequenc", "sequence", "Local", "WaitX", "Procedure", "Variable", "Sequence2", "plugin", "registertype", "workspace", "Item"};
    mistake = g.Pick(names);
    auto n = RandInstr(g, g.Coin() ? 0 : 2, true);
    n.type = mistake;
    insert(wrap(n));
    mistake = "unknown instruction " + mistake;
    break;
  }
  case 1:
  {
    Node n(g.Pick(g_leaves));
    n.attrs = RandAttrs(g, true);
    do n.kids.push_back(RandInstr(g, 1, false));
    while (g.More(1));
    mistake = "children of " + n.type;
    insert(wrap(n));
    break;
  }
  case 2:
  {
    Node n(g.Pick(g_decorators));
    n.attrs = RandAttrs(g, true);
    n.kids.push_back(RandInstr(g, 1, false));
    do n.kids.push_back(RandInstr(g, 1, false));
    while (g.More(1));
    mistake = "several children of " + n.type;
    insert(wrap(n));
    break;
  }
  case 3:
  {
    static const std::vector<std::string> names = {"Locals", "local", "Sequence", "Wait", "Variable", "FileVariable"};
    Node n(g.Pick(names), {{"name", "unknown-var"}});
    mistake = "unknown variable type " + n.type;
    insert(Node("Workspace").K(n));
    break;
  }
  case 4:
  {
    Node n(g.Coin() ? "Local" : "File");
    if (g.Coin()) n.A("name", "");
    else if (g.Coin()) n.A("Name", "v");
    n.A("type", "{\"type\":\"int32\"}");
    mistake = "variable without a name";
    Node ws("Workspace");
    if (g.Coin()) ws.K(LocalVar("before", "", ""));
    ws.K(n);
    insert(ws);
    break;
  }
  case 5:
  {
    if (g.Coin())
      insert(Node("Workspace").K(LocalVar("twice", "", "")).K(LocalVar("between", "", "")).K(LocalVar("twice", "{\"type\":\"bool\"}", "")));
    else
    {
      insert(Node("Workspace").K(LocalVar("twice", "", "")));
      insert(Node("Workspace").K(Node("File", {{"name", "twice"}, {"file", "f"}})));
    }
    want = kAny;
    mistake = "two variables of the same name";
    break;
  }
  case 6:
  {
    Node n("RegisterType");
    if (g.Coin())
    {
      n.A("jsontype", "{\"type\":\"int32\"}").A("jsonfile", g.Coin() ? "f.json" : "");
      mistake = "type registration with both attributes";
    }
    else
    {
      if (g.Coin()) n.A("type", "{\"type\":\"int32\"}");
      mistake = "type registration with neither attribute";
    }
    insert(n);
    break;
  }
  case 7:
  {
    Node n("Plugin");
    n.content = "libverif-does-not-exist" + std::to_string(g.Draw(3)) + ".so";
    insert(n);
    want = kRuntime;
    mistake = "plugin that does not exist";
    break;
  }
  default:
  {
    static const std::vector<std::string> names = {"procedure", "Sequence", "Procedures", "Workspace", "Local"};
    root = g.Pick(names);
    mistake = "root element " + root;
  }
  }
  const auto xml = XmlOf(s, root);
  PLOG(c) << mistake << "\n" << xml;
  c.Label(mistake.substr(0, mistake.find(' ')));
  std::string thrown = "nothing";
  bool ok = false;
  try
  {
    if (g.Coin(1, 4))
    {
      Scratch scratch;
      ParseProcedureFile(scratch.Write("p.xml", xml));
    }
    else
      ParseProcedureString(xml);
  }
  catch (const ParseException& e)
  {
    thrown = std::string("ParseException ") + e.what();
    ok = want != kRuntime;
    PCHECK(c, *e.what(), "no explanation is given");
  }
  catch (const RuntimeException& e)
  {
    thrown = std::string("RuntimeException ") + e.what();
    ok = want != kParse;
    PCHECK(c, *e.what(), "no explanation is given");
  }
  catch (const MessageException& e)
  {
    thrown = std::string("MessageException ") + e.what();
    ok = want == kAny;
  }
  PLOG(c) << "thrown: " << thrown << "\n";
  PCHECK(c, ok, mistake, " gives ", thrown);
  if (CountNodes(s.elements) > 3) c.NonTrivial();
}

// ------------------------------------------------------------------------ registration of types
// Types are registered in their order when the procedure is set up; each may use the ones before
// it, and variables may use all of them. Files are found relative to the procedure's file.
void Types(pbt::Case& c)
{
  auto& g = c.g;
  Scratch scratch;
  scratch.Dir("sub");
  scratch.Dir("sub/types");
  const bool from_file = g.Draw(4) != 0;
  struct T
  {
    std::string name;
    AnyType type;
    std::string json;
  };
  std::vector<T> known;
  std::vector<Node> regs, vars;
  std::vector<AnyType> var_types;
  bool broken = false;
  const size_t n = 1 + g.Draw(5);
  const size_t broken_at = g.Draw(3) == 2 ? g.Draw(n) : n;
  for (size_t i = 0; i < n; ++i)
  {
    T t;
    t.name = pbt::Str("t", i);
    t.type = dto::EmptyStructType(t.name);
    std::string members;
    for (size_t k = 0, m = 1 + g.Draw(3); k < m; ++k)
    {
      const auto& member = Members()[k];
      AnyType mt;
      std::string mj;
      if (i == broken_at && k == 0)
      {
        broken = true;
        mj = g.Coin() ? "{\"type\":\"t9\"}" : pbt::Str("{\"type\":\"t", i + g.Draw(n - i), "\"}");
        mt = dto::BooleanType;
      }
      else if (!known.empty() && g.Coin())
      {
        const auto& other = known[g.Draw(known.size())];
        mt = other.type;
        mj = "{\"type\":\"" + other.name + "\"}";
      }
      else
      {
        mt = Scalars()[g.Draw(Scalars().size())];
        mj = dto::AnyTypeToJSONString(mt);
      }
      if (g.Draw(5) == 4)
      {
        const size_t len = g.Draw(3);
        mt = AnyType(len, mt, "");
        mj = pbt::Str("{\"type\":\"\",\"multiplicity\":", len, ",\"element\":", mj, "}");
      }
      t.type.AddMember(member, mt);
      members += std::string(k ? "," : "") + "{\"" + member + "\":" + mj + "}";
    }
    t.json = "{\"type\":\"" + t.name + "\",\"attributes\":[" + members + "]}";
    if (g.Coin())
      regs.push_back(Node("RegisterType", {{"jsontype", t.json}}));
    else
    {
      // the procedure is in sub/
      const std::string rel = g.Coin() ? t.name + ".json" : "types/" + t.name + ".json";
      std::string content = t.json;
      if (i == broken_at && g.Draw(3) == 2) content = "";
      scratch.Write("sub/" + rel, content);
      if (i == broken_at && g.Draw(3) == 2) unlink(scratch.files.back().c_str());
      regs.push_back(Node("RegisterType", {{"jsonfile", from_file && g.Coin() ? rel : scratch.path + "/sub/" + rel}}));
    }
    known.push_back(t);
  }
  for (size_t i = 0, m = g.Draw(4); i < m; ++i)
  {
    const auto& t = known[g.Draw(known.size())];
    const auto name = pbt::Str("v", i);
    vars.push_back(LocalVar(name, "{\"type\":\"" + t.name + "\"}", ""));
    var_types.push_back(t.type);
  }
  // elements in any order
  std::vector<Node> pre, post;
  for (auto& r : regs) (g.Coin() ? pre : post).push_back(r);
  std::vector<Node> order;
  Spec s;
  if (g.Coin()) s.elements.push_back(Node("Workspace")), s.elements.back().kids = vars;
  else order.push_back(Node("Workspace")), order.back().kids = vars;
  for (size_t i = 0; i < regs.size(); ++i)
  {
    s.elements.push_back(regs[i]);
    if (i == 0) s.elements.push_back(Node("Succeed"));
  }
  for (auto& o : order) s.elements.push_back(o);
  const auto xml = XmlOf(s);
  PLOG(c) << xml;
  std::unique_ptr<Procedure> p = from_file ? ParseProcedureFile(scratch.Write("sub/p.xml", xml)) : ParseProcedureString(xml);
  std::string thrown;
  try
  {
    p->Setup();
  }
  catch (const ProcedureSetupException& e)
  {
    thrown = e.what();
    PCHECK(c, !thrown.empty(), "no explanation is given");
  }
  PCHECK(c, broken == !thrown.empty(), broken ? "a wrong type is accepted" : "the types are refused: ", thrown);
  if (!broken)
  {
    for (auto& t : known)
    {
      PCHECK(c, p->GetTypeRegistry().HasType(t.name), "type ", t.name, " is not registered");
      PCHECK(c, p->GetTypeRegistry().GetType(t.name) == t.type, "type ", t.name, " is registered as ", dto::AnyTypeToJSONString(p->GetTypeRegistry().GetType(t.name)));
    }
    for (size_t i = 0; i < vars.size(); ++i)
    {
      AnyValue v;
      PCHECK(c, p->GetVariableValue(pbt::Str("v", i), v), "variable ", i, " cannot be read");
      PCHECK(c, v.GetType() == var_types[i], "variable ", i, " has type ", dto::AnyTypeToJSONString(v.GetType()), " instead of ", dto::AnyTypeToJSONString(var_types[i]));
    }
  }
  c.Label(broken ? "refused" : "accepted");
  if (n > 1 && (broken || !vars.empty())) c.NonTrivial();
}

// -------------------------------------------------------------------------------- path functions
void Paths(pbt::Case& c)
{
  auto& g = c.g;
  static const std::vector<std::string> parts = {"a", "b.xml", "..", ".", "", "dir", " "};
  auto rand = [&]
  {
    std::string r = g.Draw(3) == 0 ? "/" : "";
    while (g.More(2)) r += g.Pick(parts) + (g.Draw(3) ? "/" : "");
    if (g.Coin()) r += g.Pick(parts);
    return r;
  };
  const auto dir = rand(), file = rand(), proc_file = rand();
  PLOG(c) << "directory [" << dir << "] file [" << file << "] procedure file [" << proc_file << "]\n";
  auto join = [](const std::string& d, const std::string& f)
  {
    if (f.empty() || f[0] == '/' || d.empty()) return f;
    return d[d.size() - 1] == '/' ? d + f : d + "/" + f;
  };
  PCHECK(c, GetFullPathName(dir, file) == join(dir, file), "GetFullPathName gives [", GetFullPathName(dir, file), "]");
  std::string parent;
  for (size_t i = 0; i < proc_file.size(); ++i)
    if (proc_file[i] == '/') parent = proc_file.substr(0, i + 1);
  PCHECK(c, GetFileDirectory(proc_file) == parent, "GetFileDirectory gives [", GetFileDirectory(proc_file), "]");
  Procedure p(proc_file);
  PCHECK(c, p.GetFilename() == proc_file && GetProcedureName(p) == proc_file, "file name of a procedure");
  PCHECK(c, GetProcedurePath(p) == parent, "GetProcedurePath gives [", GetProcedurePath(p), "]");
  PCHECK(c, ResolveRelativePath(p, file) == join(parent, file), "ResolveRelativePath gives [", ResolveRelativePath(p, file), "]");
  if (!parent.empty() && !file.empty() && file[0] != '/') c.NonTrivial();
  c.Identity(dir + "|" + file + "|" + proc_file);
}
}  // namespace

OAC_FACET("C24", "parse", Parse, Opts(20000, 1000000, "more than three instructions and some variables", 12));
OAC_FACET("C24", "roundtrip", RoundTrip, Opts(15000, 800000, "more than three instructions and characters that need escaping", 12));
OAC_FACET("C24", "refuse", Refuse, Opts(15000, 800000, "the mistake is surrounded by correct elements", 12));
OAC_FACET("C24", "types", Types, Opts(10000, 500000, "several types, and variables that use them or an error", 12));
OAC_FACET("C24", "paths", Paths, Opts(10000, 200000, "a relative file next to a procedure in a directory", 5));
