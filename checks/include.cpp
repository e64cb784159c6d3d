// C25: included instructions behave as if they were written in place.
#include "scratch.h"
#include "values.h"

#include <sup/oac-tree/procedure_context.h>

#include <map>
#include <optional>
#include <set>

using namespace values;

namespace
{
using Attrs = std::vector<std::pair<std::string, std::string>>;

const std::string* Get(const Attrs& a, const std::string& name)
{
  for (auto& [k, v] : a)
    if (k == name) return &v;
  return nullptr;
}

struct File
{
  std::string rel;            // relative to the scratch directory
  std::vector<Node> vars;
  std::vector<Node> top;      // instructions
  int root = 0;               // index of the root
};

// An instruction that others may include.
struct Target
{
  int file;
  std::string path;           // empty: the root
};

const std::vector<std::string> g_vars = {"a", "b", "c"};

struct World
{
  std::vector<File> files;    // 0 is the main procedure
  std::vector<Target> targets;
  int names = 0;
  int includes = 0, foreign = 0, nested = 0;
};

bool IsInclude(const Node& n)
{
  return n.type == "Include" || n.type == "IncludeProcedure";
}

// Name under which file 'from' can refer to file 'to'.
std::string Reference(const World& w, int from, int to, const std::string& dir)
{
  const auto& f = w.files[from].rel;
  const auto& t = w.files[to].rel;
  const auto slash = f.find_last_of('/');
  const auto own = slash == std::string::npos ? "" : f.substr(0, slash + 1);
  if (t.compare(0, own.size(), own) == 0) return t.substr(own.size());
  return dir + "/" + t;
}

struct Maker
{
  pbt::Gen& g;
  World& w;
  std::string dir;
  bool allow_errors;

  // A literal or a placeholder; 't' text, 'v' variable name, 'n' number
  std::string Val(char kind, bool holders)
  {
    if (holders && g.Draw(3) == 0) return std::string("$") + kind + (g.Draw(3) == 2 ? "2" : "");
    if (holders && allow_errors && g.Draw(60) == 59) return g.Draw(3) == 2 ? "$" : "$missing";
    // what is not included is not replaced, and what replaces a placeholder is not replaced again
    if (!holders && kind == 't' && g.Draw(10) == 9) return g.Coin() ? "$t" : "$lit";
    switch (kind)
    {
    case 'v': return g_vars[g.Draw(3)];
    case 'n': return std::to_string(1 + g.Draw(3));
    default: return pbt::Str("m", g.Draw(30));
    }
  }

  void Leaf(Node& n, bool holders)
  {
    switch (g.Draw(7))
    {
    case 0:
    case 1: n.type = "Message"; n.A("text", Val('t', holders)); break;
    case 2: n.type = "Copy"; n.A("inputVar", Val('v', holders)).A("outputVar", Val('v', holders)); break;
    case 3: n.type = "Increment"; n.A("varName", Val('v', holders)); break;
    case 4: n.type = g.Coin() ? "LessThan" : "Equals"; n.A("leftVar", Val('v', holders)).A("rightVar", Val('v', holders)); break;
    case 5: n.type = "Log"; n.A("message", Val('t', holders)); break;
    default: n.type = g.Draw(3) ? "Succeed" : "Fail";
    }
  }

  void Include(Node& n, int file, bool holders)
  {
    const auto t = w.targets[g.Draw(w.targets.size())];
    const bool procedure = t.path.empty() || g.Draw(3) == 0;
    n.type = procedure ? "IncludeProcedure" : "Include";
    ++w.includes;
    std::string path = t.path;
    if (allow_errors && g.Draw(25) == 24) path += g.Coin() ? ".nowhere" : "x";
    Attrs attrs;
    if (!path.empty() || g.Draw(3) == 0) attrs.emplace_back("path", path);
    if (procedure || t.file != file || g.Draw(3) == 0)
    {
      attrs.emplace_back("file", Reference(w, file, t.file, dir));
      w.foreign += t.file != file;
    }
    // values for the placeholders
    for (auto* k : {"t", "v", "n", "t2", "v2", "n2"})
      if (!allow_errors || g.Draw(12) != 11) attrs.emplace_back(k, Val(k[0], holders));
    for (auto& a : attrs) n.A(a.first, a.second);
  }

  // 'path' is the path of the parent, or empty when it cannot be reached by a path
  Node Make(int file, int depth, const std::string& parent, bool top, bool reachable, bool holders)
  {
    Node n;
    std::string path;
    bool named = top || g.Draw(3) != 0;
    if (named)
    {
      const auto name = pbt::Str("i", w.names++);
      n.A("name", name);
      path = parent.empty() ? name : parent + "." + name;
    }
    reachable = reachable && named;
    switch (depth <= 0 ? g.Draw(2) * 6 : g.Draw(8))
    {
    case 0: Leaf(n, holders); break;
    case 1:
    case 2:
      n.type = g.Draw(3) ? "Sequence" : "Fallback";
      break;
    case 3:
    {
      n.type = std::vector<std::string>{"Inverter", "ForceSuccess", "Repeat"}[g.Draw(3)];
      if (n.type == "Repeat") n.A("maxCount", Val('n', holders));
      n.K(Make(file, depth - 1, path, false, reachable, holders));
      break;
    }
    default:
      if (w.targets.empty())
        Leaf(n, holders);
      else
        Include(n, file, holders);
    }
    if (n.type == "Sequence" || n.type == "Fallback")
      for (size_t i = 0, k = 1 + g.Draw(4); i < k; ++i) n.K(Make(file, depth - 1, path, false, reachable, holders));
    if (reachable) w.targets.push_back({file, path});
    return n;
  }
};

World RandWorld(pbt::Gen& g, const std::string& dir, bool errors)
{
  World w;
  static const char* const names[] = {"main.xml", "lib.xml", "sub/other.xml", "sub/deep/third.xml"};
  for (size_t i = 0, n = 1 + g.Draw(4); i < n; ++i)
  {
    File f;
    f.rel = names[i];
    for (size_t k = 0; k < 3; ++k) f.vars.push_back(LocalVar(g_vars[k], "{\"type\":\"int32\"}", std::to_string(g.Draw(4) + 10 * i)));
    w.files.push_back(f);
  }
  Maker m{g, w, dir, errors};
  // templates in an order in which later ones may include earlier ones
  for (size_t i = 0, n = g.Draw(6); i < n; ++i)
  {
    const int file = static_cast<int>(g.Draw(w.files.size()));
    w.files[file].top.push_back(m.Make(file, 2, "", true, true, true));
    // the first instruction of the other files is their root
    if (file > 0 && w.files[file].top.size() == 1)
      for (int k = 0; k < 2; ++k) w.targets.push_back({file, ""});
  }
  for (size_t f = 0; f < w.files.size(); ++f)
  {
    auto& file = w.files[f];
    if (f > 0)
    {
      if (file.top.empty()) file.top.push_back(m.Make(static_cast<int>(f), 2, "", true, true, true));
      file.root = static_cast<int>(g.Draw(file.top.size()));
      std::swap(file.top[0], file.top[file.root]);
    }
  }
  // the root of the main procedure
  auto& main = w.files[0];
  Node root("Sequence", {{"name", pbt::Str("i", w.names++)}});
  for (size_t i = 0, k = 1 + g.Draw(4); i < k; ++i)
  {
    Node f("ForceSuccess");
    f.K(m.Make(0, 3, "", false, false, false));
    root.K(f);
  }
  main.root = static_cast<int>(g.Draw(main.top.size() + 1));
  main.top.insert(main.top.begin() + main.root, root);
  for (auto& f : w.files)
    if (f.top.size() > 1) f.top[f.root].A("isRoot", "true");
  return w;
}

std::string XmlOf(const File& f)
{
  return ProcXml(f.top, f.vars);
}

// ------------------------------------------------------------------------------------ the model
struct Expander
{
  const World& w;
  std::string dir;
  bool error = false;
  size_t size = 0;
  std::set<int> workspaces = {0};

  int FileOf(int from, const std::string& ref) const
  {
    const auto& f = w.files[from].rel;
    const auto slash = f.find_last_of('/');
    const auto own = slash == std::string::npos ? "" : f.substr(0, slash + 1);
    const auto full = ref[0] == '/' ? ref : dir + "/" + own + ref;
    for (size_t i = 0; i < w.files.size(); ++i)
      if (full == dir + "/" + w.files[i].rel) return static_cast<int>(i);
    return -1;
  }

  const Node* Find(const std::vector<Node>& l, const std::string& path) const
  {
    const auto dot = path.find('.');
    const auto head = path.substr(0, dot);
    for (auto& n : l)
    {
      auto* name = Get(n.attrs, "name");
      if ((name ? *name : "") != head) continue;
      return dot == std::string::npos ? &n : Find(n.kids, path.substr(dot + 1));
    }
    return nullptr;
  }

  // Replaces the placeholders of a copied instruction.
  void Replace(Node& n, const Attrs& source)
  {
    for (auto& [k, v] : n.attrs)
    {
      if (v.empty() || v[0] != '$') continue;
      auto* r = Get(source, v.substr(1));
      if (r) v = *r;
      else error = true;
    }
    if (IsInclude(n))
    {
      static const std::set<std::string> defined = {"name", "isRoot", "showCollapsed", "path", "file"};
      for (auto& [k, v] : source)
        if (!defined.count(k) && !Get(n.attrs, k)) n.attrs.emplace_back(k, v);
    }
    for (auto& k : n.kids) Replace(k, source);
  }

  // The instruction as it is after setup: an include has its instruction as child.
  Node Expand(const Node& n, int file)
  {
    Node r(n.type, n.attrs);
    if (error || ++size > 3000) return r;
    if (!IsInclude(n))
    {
      for (auto& k : n.kids) r.K(Expand(k, file));
      return r;
    }
    auto* ref = Get(n.attrs, "file");
    const int other = ref ? FileOf(file, *ref) : file;
    auto* path = Get(n.attrs, "path");
    const Node* t = other < 0 ? nullptr : !path || path->empty() ? &w.files[other].top[w.files[other].root] : Find(w.files[other].top, *path);
    if (!t)
    {
      error = true;
      return r;
    }
    if (n.type == "IncludeProcedure") workspaces.insert(other);
    Node copy = *t;
    Replace(copy, n.attrs);
    r.K(Expand(copy, other));
    r.content = std::to_string(other);
    return r;
  }

  // The same without includes and with one workspace.
  Node Inline(const Node& n, int ws)
  {
    static const std::set<std::string> variables = {"inputVar", "outputVar", "varName", "leftVar", "rightVar"};
    if (IsInclude(n))
    {
      Node r("Sequence");
      r.K(Inline(n.kids[0], n.type == "Include" ? ws : std::stoi(n.content)));
      return r;
    }
    Node r(n.type);
    for (auto& [k, v] : n.attrs)
      if (k != "name" && k != "isRoot") r.A(k, variables.count(k) ? pbt::Str("f", ws, "_", v) : v);
    for (auto& k : n.kids) r.K(Inline(k, ws));
    return r;
  }
};

void CompareTree(pbt::Case& c, const Node& n, const Instruction& i, const std::string& where)
{
  PCHECK(c, i.GetType() == n.type, where, " is of type ", i.GetType(), " instead of ", n.type);
  std::string got, want;
  for (auto& [k, v] : i.GetStringAttributes()) got += " " + k + "=" + v;
  for (auto& [k, v] : n.attrs) want += " " + k + "=" + v;
  std::map<std::string, std::string> a(i.GetStringAttributes().begin(), i.GetStringAttributes().end()), b(n.attrs.begin(), n.attrs.end());
  PCHECK(c, a == b, where, " (", n.type, ") has attributes", got, " instead of", want);
  const auto kids = i.ChildInstructions();
  PCHECK(c, kids.size() == n.kids.size(), where, " has ", kids.size(), " children instead of ", n.kids.size());
  for (size_t k = 0; k < kids.size(); ++k) CompareTree(c, n.kids[k], *kids[k], where + "." + std::to_string(k));
}

struct Outcome
{
  std::vector<std::string> said;
  std::vector<std::string> values;
  ES status = ES::NOT_STARTED;
};

void Run(Procedure& p, Outcome& o)
{
  HookUI ui;
  ui.on_message = [&](const std::string& m) { o.said.push_back("message " + m); };
  ui.on_log = [&](int s, const std::string& m) { if (s == 6) o.said.push_back("log " + m); };
  for (int i = 0; i < 4000 && NeedsExecute(p.GetStatus()); ++i) p.ExecuteSingle(ui);
  o.status = p.GetStatus();
}

std::string Diff(const std::vector<std::string>& a, const std::vector<std::string>& b)
{
  for (size_t i = 0; i < a.size() || i < b.size(); ++i)
  {
    const auto x = i < a.size() ? a[i] : "nothing", y = i < b.size() ? b[i] : "nothing";
    if (x != y) return pbt::Str("entry ", i, " is [", x, "] instead of [", y, "]");
  }
  return "";
}

void IncludeCase(pbt::Case& c, bool errors)
{
  auto& g = c.g;
  Scratch scratch;
  scratch.Dir("sub");
  scratch.Dir("sub/deep");
  auto w = RandWorld(g, scratch.path, errors);
  const bool delete_file = errors && w.files.size() > 1 && g.Draw(10) == 9;
  for (size_t i = w.files.size(); i-- > 0;)
  {
    const auto xml = XmlOf(w.files[i]);
    PLOG(c) << "---- " << w.files[i].rel << "\n" << xml;
    scratch.Write(w.files[i].rel, xml);
  }
  Expander e{w, scratch.path};
  const auto tree = e.Expand(w.files[0].top[w.files[0].root], 0);
  if (e.size > 3000)
  {
    c.Label("too large");
    return;
  }
  bool missing = false;
  if (delete_file)
  {
    const int k = 1 + static_cast<int>(g.Draw(w.files.size() - 1));
    unlink((scratch.path + "/" + w.files[k].rel).c_str());
    PLOG(c) << "(" << w.files[k].rel << " does not exist)\n";
    // is it needed?
    std::function<bool(const Node&)> uses = [&](const Node& n)
    {
      if (IsInclude(n) && n.content == std::to_string(k)) return true;
      for (auto& kid : n.kids)
        if (uses(kid)) return true;
      return false;
    };
    missing = uses(tree);
    if (missing && !e.error) c.Label("missing file");
  }
  auto p = ParseProcedureFile(scratch.path + "/main.xml");
  std::string thrown;
  bool setup_exception = false;
  try
  {
    p->Setup();
  }
  catch (const InstructionSetupException& ex)
  {
    thrown = ex.what();
    setup_exception = true;
  }
  catch (const std::exception& ex)
  {
    thrown = ex.what();
  }
  if (delete_file && e.error && !missing)
  {
    PCHECK(c, !thrown.empty(), "a wrong include is accepted");
    return;
  }
  if (e.error || missing)
  {
    PCHECK(c, !thrown.empty(), "a wrong include is accepted");
    if (!missing && !delete_file) PCHECK(c, setup_exception, "a wrong include gives another exception: ", thrown);
    c.Label("refused");
    if (w.includes > 2) c.NonTrivial();
    return;
  }
  PCHECK(c, thrown.empty(), "correct includes are refused: ", thrown);
  CompareTree(c, tree, *p->RootInstruction(), "root");
  // the same procedure without includes
  std::vector<Node> vars;
  for (size_t i = 0; i < w.files.size(); ++i)
    for (auto& v : w.files[i].vars)
    {
      auto n = v;
      for (auto& [k, val] : n.attrs)
        if (k == "name") val = pbt::Str("f", i, "_", val);
      vars.push_back(n);
    }
  const auto xml = ProcXml({e.Inline(tree, 0)}, vars);
  PLOG(c) << "---- without includes\n" << xml;
  auto q = ParseProcedureString(xml);
  q->Setup();
  const auto context = p->GetContext();
  size_t said = 0;
  for (int round = 0; round < 2; ++round)
  {
    Outcome a, b;
    Run(*p, a);
    Run(*q, b);
    PCHECK(c, a.status == b.status, "run ", round, ": the procedure ends with ", St(a.status), " instead of ", St(b.status));
    PCHECK(c, a.said == b.said, "run ", round, ": ", Diff(a.said, b.said));
    said = a.said.size();
    for (int f : e.workspaces)
    {
      auto& ws = f == 0 ? p->GetWorkspace() : context.GetWorkspace(scratch.path + "/" + w.files[f].rel);
      for (auto& n : g_vars)
      {
        AnyValue x, y;
        PCHECK(c, ws.GetValue(n, x), "run ", round, ": variable ", n, " of ", w.files[f].rel, " cannot be read");
        PCHECK(c, q->GetVariableValue(pbt::Str("f", f, "_", n), y), "no twin");
        PCHECK(c, x == y, "run ", round, ": variable ", n, " of ", w.files[f].rel, " is ", Json(x), " instead of ", Json(y));
      }
    }
    HookUI ui;
    p->Reset(ui);
    q->Reset(ui);
  }
  c.Label(e.workspaces.size() > 1 ? "several workspaces" : "one workspace");
  // includes within included instructions
  int depth = 0;
  std::function<void(const Node&, int)> measure = [&](const Node& n, int d)
  {
    d += IsInclude(n);
    depth = std::max(depth, d);
    for (auto& k : n.kids) measure(k, d);
  };
  measure(tree, 0);
  c.Label(pbt::Str("depth ", std::min(depth, 4)));
  if (depth > 1 && said > 1 && w.foreign) c.NonTrivial();
}

// Includes that lead back to themselves are refused at setup.
void Cycles(pbt::Case& c)
{
  auto& g = c.g;
  Scratch scratch;
  const size_t n = 1 + g.Draw(4);
  std::vector<File> files(1 + g.Draw(2));
  files[0].rel = "main.xml";
  if (files.size() > 1) files[1].rel = "lib.xml";
  std::vector<int> where;
  for (size_t i = 0; i < n; ++i) where.push_back(static_cast<int>(g.Draw(files.size())));
  // every template includes the next one, and the last one includes one of the others or itself,
  // or (in correct procedures) nothing
  const bool cyclic = g.Draw(4) != 0;
  const size_t back = g.Draw(n);
  auto wrap = [&](Node x)
  {
    while (g.More(1))
    {
      Node w(std::vector<std::string>{"Sequence", "Inverter", "ForceSuccess", "Fallback"}[g.Draw(4)]);
      if (w.type == "Sequence" && g.Coin()) w.K(Node("Succeed"));
      w.K(x);
      if (w.type == "Fallback" && g.Coin()) w.K(Node("Message", {{"text", "m"}}));
      x = w;
    }
    return x;
  };
  auto include = [&](int from, size_t to)
  {
    Node i(g.Draw(3) == 0 ? "IncludeProcedure" : "Include", {{"path", pbt::Str("t", to)}});
    if (i.type == "IncludeProcedure" || where[to] != from || g.Coin()) i.A("file", files[where[to]].rel);
    // the target is named by a placeholder
    if (g.Draw(4) == 3) i.A("p", g.Coin() ? "x" : pbt::Str("y", g.Draw(3)));
    return i;
  };
  for (size_t i = 0; i < n; ++i)
  {
    Node x = i + 1 < n ? include(where[i], i + 1) : cyclic ? include(where[i], back) : Node("Succeed");
    x = wrap(x);
    Node t("Sequence", {{"name", pbt::Str("t", i)}});
    if (g.Coin()) t.K(Node("Message", {{"text", "m"}}));
    t.K(x);
    files[where[i]].top.push_back(t);
  }
  where.push_back(0);
  Node root = wrap(include(0, g.Draw(n)));
  root.attrs.emplace_back("isRoot", "true");
  files[0].top.push_back(root);
  for (auto& f : files)
  {
    const auto xml = ProcXml(f.top);
    PLOG(c) << "---- " << f.rel << "\n" << xml;
    scratch.Write(f.rel, xml);
  }
  auto p = ParseProcedureFile(scratch.path + "/main.xml");
  std::string thrown;
  try
  {
    p->Setup();
  }
  catch (const InstructionSetupException& e)
  {
    thrown = e.what();
  }
  PCHECK(c, thrown.empty() == !cyclic, cyclic ? "an endless include is accepted" : "a correct include is refused: ", thrown);
  // the same, a second time
  if (cyclic)
  {
    thrown.clear();
    try
    {
      p->Setup();
    }
    catch (const InstructionSetupException& e)
    {
      thrown = e.what();
    }
    PCHECK(c, !thrown.empty(), "an endless include is accepted the second time");
  }
  c.Label(cyclic ? "cycle" : "no cycle");
  if (n > 1) c.NonTrivial();
}

// An instruction may be included within itself as often as the placeholders say.
void Recursion(pbt::Case& c)
{
  auto& g = c.g;
  Scratch scratch;
  // t0 includes the instruction named by its first argument, with the other arguments moved up
  const size_t n = 1 + g.Draw(6);
  Node t("Sequence", {{"name", "again"}});
  t.K(Node("Message", {{"text", "$text"}}));
  Node i("Include", {{"path", "$p0"}, {"text", "$p0"}});
  for (size_t k = 0; k + 1 < n; ++k) i.A(pbt::Str("p", k), pbt::Str("$p", k + 1));
  i.A(pbt::Str("p", n - 1), "end");
  if (g.Coin()) i.A("file", "main.xml");
  t.K(i);
  Node start("Include", {{"path", "again"}, {"text", "start"}, {"isRoot", "true"}});
  size_t depth = g.Draw(n + 1);
  for (size_t k = 0; k < n; ++k) start.A(pbt::Str("p", k), k < depth ? "again" : "end");
  const auto xml = ProcXml({start, t, Node("Message", {{"name", "end"}, {"text", "$text"}})});
  PLOG(c) << xml;
  auto p = ParseProcedureFile(scratch.Write("main.xml", xml));
  p->Setup();
  Outcome o;
  Run(*p, o);
  std::vector<std::string> want = {"message start"};
  for (size_t k = 0; k < depth; ++k) want.push_back("message again");
  want.push_back("message end");
  PCHECK(c, o.said == want, Diff(o.said, want));
  if (depth > 0) c.NonTrivial();
}

void Valid(pbt::Case& c)
{
  IncludeCase(c, false);
}

void Mistakes(pbt::Case& c)
{
  IncludeCase(c, true);
}
}  // namespace

OAC_FACET("C25", "valid", Valid, Opts(8000, 400000, "includes within included instructions of other files, and some messages", 15));
OAC_FACET("C25", "mistakes", Mistakes, Opts(8000, 400000, "several includes of which one is wrong, or nested correct ones", 15));
OAC_FACET("C25", "cycles", Cycles, Opts(4000, 200000, "a chain of several includes", 10));
OAC_FACET("C25", "recursion", Recursion, Opts(2000, 50000, "an instruction that is included within itself", 5));
