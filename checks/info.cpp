// C27: descriptions of jobs, user requests and replies are faithful and survive their transport.
#include "values.h"

#include <sup/oac-tree/constants.h>
#include <sup/oac-tree/instruction_info_utils.h>
#include <sup/oac-tree/instruction_map.h>
#include <sup/oac-tree/instruction_state.h>
#include <sup/oac-tree/instruction_tree.h>
#include <sup/oac-tree/job_info_utils.h>
#include <sup/oac-tree/job_map.h>
#include <sup/oac-tree/user_input_reply.h>
#include <sup/oac-tree/user_input_request.h>
#include <sup/oac-tree/variable_map.h>
#include <sup/oac-tree/variable_utils.h>

#include <sup/dto/anyvalue_helper.h>

#include <algorithm>
#include <map>
#include <optional>
#include <set>

using namespace values;

namespace
{
using Attrs = std::vector<std::pair<std::string, std::string>>;
using sup::dto::uint32;

std::string RandText(pbt::Gen& g)
{
  static const char* const parts[] = {"", "x", "a b", "<", "&amp;", "\"", "\n", "$p", "@v", "true", "12", "\xc3\xa9", " lead", "."};
  std::string r;
  do r += parts[g.Draw(14)];
  while (g.More(1));
  if (g.Draw(500) == 499) r += std::string(size_t{100} << g.Draw(8), 'l') + "e";
  return r;
}

Attrs RandAttrs(pbt::Gen& g)
{
  static const std::vector<std::string> names = {"name", "timeout", "varName", "showCollapsed", "text", "x", "file", "path", "index", "type", "attributes", "children"};
  Attrs r;
  std::set<std::string> seen;
  while (g.More(2))
  {
    const auto& n = g.Pick(names);
    if (seen.insert(n).second) r.emplace_back(n, RandText(g));
  }
  return r;
}

Attrs Sorted(Attrs a)
{
  std::sort(a.begin(), a.end());
  return a;
}

// What an instruction description says.
struct Model
{
  std::string type;
  int cat = 0;
  uint32 index = 0;
  Attrs attrs;
  std::vector<Model> kids;
};

std::string Show(const Model& m)
{
  std::string r = m.type + "/" + std::to_string(m.cat) + "#" + std::to_string(m.index);
  for (auto& [k, v] : m.attrs) r += " " + k + "=[" + v + "]";
  if (!m.kids.empty())
  {
    r += " (";
    for (auto& k : m.kids) r += Show(k) + "; ";
    r += ")";
  }
  return r;
}

std::string Differs(const Model& m, const InstructionInfo& i)
{
  if (i.GetType() != m.type) return "type " + i.GetType() + " instead of " + m.type;
  if (static_cast<int>(i.GetCategory()) != m.cat) return "category of " + m.type;
  if (i.GetIndex() != m.index) return "index of " + m.type + ": " + std::to_string(i.GetIndex()) + " instead of " + std::to_string(m.index);
  if (Sorted(i.GetAttributes()) != Sorted(m.attrs)) return "attributes of " + m.type + "#" + std::to_string(m.index);
  const auto kids = i.Children();
  if (kids.size() != m.kids.size()) return "number of children of " + m.type;
  for (size_t k = 0; k < kids.size(); ++k)
  {
    const auto d = Differs(m.kids[k], *kids[k]);
    if (!d.empty()) return d;
  }
  return {};
}

size_t Count(const Model& m)
{
  size_t n = 1;
  for (auto& k : m.kids) n += Count(k);
  return n;
}

template <class F> void Each(Model& m, F f)
{
  f(m);
  for (auto& k : m.kids) Each(k, f);
}

std::unique_ptr<InstructionInfo> Build(const Model& m)
{
  auto r = std::make_unique<InstructionInfo>(m.type, static_cast<Instruction::Category>(m.cat), m.index, m.attrs);
  for (auto& k : m.kids) r->AppendChild(Build(k));
  return r;
}

using Vars = std::vector<std::pair<std::string, std::pair<std::string, Attrs>>>;

std::string Differs(const Vars& vars, const WorkspaceInfo& ws)
{
  if (ws.GetNumberOfVariables() != vars.size()) return "number of variables";
  const auto& infos = ws.GetVariableInfos();
  if (infos.size() != vars.size()) return "number of variables";
  for (size_t i = 0; i < vars.size(); ++i)
  {
    if (infos[i].first != vars[i].first) return "name of variable " + std::to_string(i);
    if (infos[i].second.GetIndex() != i) return "index of variable " + vars[i].first;
    if (infos[i].second.GetType() != vars[i].second.first) return "type of variable " + vars[i].first;
    if (Sorted(infos[i].second.GetAttributes()) != Sorted(vars[i].second.second)) return "attributes of variable " + vars[i].first;
  }
  return {};
}

std::string Differs(const std::string& name, const Vars& vars, const Model& m, const JobInfo& j)
{
  if (j.GetProcedureName() != name) return "name of the procedure";
  if (j.GetNumberOfVariables() != vars.size()) return "number of variables of the job";
  if (j.GetNumberOfInstructions() != Count(m)) return "number of instructions of the job";
  const auto d = Differs(vars, j.GetWorkspaceInfo());
  return d.empty() ? Differs(m, *j.GetRootInstructionInfo()) : d;
}

// Copies, moves and assignments of a description keep all of it and leave the others alone.
template <class T, class D> void Copies(pbt::Case& c, const T& value, const T& other, D differs)
{
  T a{value};
  PCHECK(c, differs(a).empty(), "after a copy: ", differs(a));
  PCHECK(c, a == value && !(a != value), "a copy is not equal");
  T b{std::move(a)};
  PCHECK(c, differs(b).empty(), "after a move: ", differs(b));
  T d{other};
  d = b;
  PCHECK(c, differs(d).empty(), "after an assignment: ", differs(d));
  PCHECK(c, differs(b).empty(), "the source of an assignment: ", differs(b));
  T e{other};
  e = std::move(d);
  PCHECK(c, differs(e).empty(), "after a move assignment: ", differs(e));
  T& alias = e;
  e = alias;
  PCHECK(c, differs(e).empty(), "after an assignment to itself: ", differs(e));
  b = other;
  PCHECK(c, b == other, "assigned, but not equal");
  PCHECK(c, differs(value).empty() && differs(e).empty(), "a copy depends on the original");
}

//------------------------------------------------------------------------------------------------
// From a procedure

const std::vector<std::string> g_leaves = {"Succeed", "Fail", "Message", "Wait", "Copy", "Equals", "Input", "Log"};
const std::vector<std::string> g_decorators = {"Inverter", "Repeat", "ForceSuccess", "Async", "For", "Listen"};
const std::vector<std::string> g_compounds = {"Sequence", "Fallback", "ParallelSequence", "ReactiveSequence", "Choice", "UserChoice"};

Node RandInstr(pbt::Gen& g, int depth)
{
  const int kind = depth <= 0 ? 0 : static_cast<int>("2102"[g.Draw(4)] - '0');
  Node n(kind == 0 ? g.Pick(g_leaves) : kind == 1 ? g.Pick(g_decorators) : g.Pick(g_compounds));
  n.attrs = RandAttrs(g);
  const size_t kids = kind == 0 ? 0 : kind == 1 ? 1 : g.Draw(5);
  for (size_t i = 0; i < kids; ++i) n.kids.push_back(RandInstr(g, depth - 1));
  if (kind == 2 && g.Draw(200) == 199)
  {
    // very many children
    const auto one = RandInstr(g, 0);
    n.kids.insert(n.kids.begin() + g.Draw(n.kids.size() + 1), size_t{16} << g.Draw(6), one);
  }
  if (kind == 1 && g.Draw(200) == 199)
    for (size_t i = 0, levels = 10 + g.Draw(120); i < levels; ++i)
    {
      Node above(g.Pick(g_decorators));
      above.kids.push_back(std::move(n));
      n = std::move(above);
    }
  return n;
}

// The description with indices as the map gives them.
Model Describe(const Node& n, const Instruction& i, const std::map<const Instruction*, uint32>& index)
{
  Model m;
  m.type = n.type;
  m.cat = std::count(g_leaves.begin(), g_leaves.end(), n.type) ? 0 : std::count(g_decorators.begin(), g_decorators.end(), n.type) ? 1 : 2;
  m.attrs = n.attrs;
  m.index = index.at(&i);
  const auto kids = i.ChildInstructions();
  for (size_t k = 0; k < kids.size() && k < n.kids.size(); ++k) m.kids.push_back(Describe(n.kids[k], *kids[k], index));
  return m;
}

template <class F> bool Throws(F f)
{
  try
  {
    f();
  }
  catch (const InvalidOperationException&)
  {
    return true;
  }
  return false;
}

void Bfs(const Instruction* root, std::vector<const Instruction*>& out, std::vector<const Instruction*>& leaves)
{
  out.push_back(root);
  for (size_t i = 0; i < out.size(); ++i)
  {
    const auto kids = out[i]->ChildInstructions();
    if (kids.empty()) leaves.push_back(out[i]);
    out.insert(out.end(), kids.begin(), kids.end());
  }
}

void FromProcedure(pbt::Case& c)
{
  auto& g = c.g;
  const auto root = RandInstr(g, 3);
  std::vector<Node> vars;
  for (size_t i = 0, n = g.Draw(100) == 99 ? size_t{8} << g.Draw(7) : g.Draw(4); i < n; ++i)
  {
    Node v(g.Draw(3) == 0 ? "File" : "Local", {{"name", i < 4 ? std::string(1, static_cast<char>('z' - i * 7)) + "v" : "v" + std::to_string(i * 7919 % 10007)}});
    for (auto& [k, t] : RandAttrs(g))
      if (k != "name") v.A(k, t);
    vars.push_back(v);
  }
  Attrs attrs;
  if (g.Coin()) attrs.emplace_back("name", RandText(g));
  const auto xml = ProcXml({root}, vars, attrs);
  PLOG(c) << xml;
  auto p = ParseProcedureString(xml);
  const auto* top = p->RootInstruction();
  std::vector<const Instruction*> all, leaves;
  Bfs(top, all, leaves);

  const auto tree = CreateFullInstructionTree(top);
  PCHECK(c, tree.GetInstruction() == top && !tree.IsEmpty(), "root of the full tree");
  PCHECK(c, FlattenBFS(tree) == all, "the full tree in breadth first order has ", FlattenBFS(tree).size(), " instructions instead of ", all.size());
  auto got = GetLeaves(tree);
  std::sort(got.begin(), got.end());
  std::sort(leaves.begin(), leaves.end());
  PCHECK(c, got == leaves, "leaves of the full tree");

  const InstructionMap map{top};
  PCHECK(c, map.GetNumberOfInstructions() == all.size(), "number of instructions of the map");
  const auto& index = map.GetInstructionIndexMap();
  std::map<const Instruction*, uint32> idx(index.begin(), index.end());
  std::set<uint32> used;
  for (auto* i : all)
  {
    PCHECK(c, idx.count(i) == 1, "an instruction has no index");
    PCHECK(c, map.FindInstructionIndex(i) == idx[i], "the map disagrees with itself");
    PCHECK(c, idx[i] < all.size() && used.insert(idx[i]).second, "index ", idx[i], " of ", all.size(), " is out of range or used twice");
  }
  const auto order = GetReverseMap(index);
  PCHECK(c, order.size() == all.size(), "size of the reverse map");
  for (size_t i = 0; i < order.size(); ++i) PCHECK(c, idx.at(order[i]) == i, "reverse map at ", i);
  {
    // any numbering of the instructions is reversed, and what is no numbering is refused
    InstructionMap::InstructionIndexMap other;
    std::vector<const Instruction*> left = all;
    while (!left.empty())
    {
      const auto k = g.Draw(left.size());
      other[left[k]] = static_cast<uint32>(left.size() - 1);
      left.erase(left.begin() + static_cast<long>(k));
    }
    bool valid = true;
    if (g.Coin())
    {
      auto* i = all[g.Draw(all.size())];
      const auto now = other[i];
      other[i] = g.Coin() ? static_cast<uint32>(all.size() + g.Pick(std::vector<size_t>{0, 0, 1, 1000000})) : static_cast<uint32>(g.Draw(all.size()));
      valid = other[i] == now;
    }
    else if (g.Coin(1, 4))
    {
      other.erase(all[g.Draw(all.size())]);
      std::set<uint32> seen;
      for (auto& [i, k] : other) valid = valid && k < other.size() && seen.insert(k).second;
    }
    std::vector<const Instruction*> back;
    const bool thrown = Throws([&] { back = GetReverseMap(other); });
    PCHECK(c, thrown == !valid, "reversing ", valid ? "a numbering" : "what is no numbering", thrown ? " fails" : " succeeds");
    if (valid)
    {
      PCHECK(c, back.size() == other.size(), "size of the reverse of another numbering");
      for (size_t i = 0; i < back.size(); ++i) PCHECK(c, other.at(back[i]) == i, "reverse of another numbering at ", i);
    }
  }
  for (auto* unknown : {static_cast<const Instruction*>(nullptr)})
  {
    bool thrown = false;
    try { (void)map.FindInstructionIndex(unknown); }
    catch (const InvalidOperationException&) { thrown = true; }
    PCHECK(c, thrown, "an unknown instruction has an index");
  }
  const VariableMap vmap{p->GetWorkspace()};
  PCHECK(c, vmap.GetNumberOfVariables() == vars.size(), "number of variables of the map");
  JobMap job{*p};
  job.InitializeInstructionTree(top);
  PCHECK(c, job.GetNumberOfInstructions() == all.size() && job.GetNumberOfVariables() == vars.size(), "numbers of the job map");
  PCHECK(c, job.GetOrderedInstructions() == order, "the job map orders the instructions otherwise");

  const auto m = Describe(root, *top, idx);
  Vars mv;
  for (auto& v : vars)
  {
    PCHECK(c, vmap.FindVariableIndex(v.attrs[0].second) == mv.size() && job.GetVariableIndex(v.attrs[0].second) == mv.size(), "index of variable ", v.attrs[0].second);
    mv.push_back({v.attrs[0].second, {v.type, v.attrs}});
  }
  {
    // every name has its index and nothing else has one
    const auto& by_name = vmap.GetVariableIndexMap();
    PCHECK(c, by_name.size() == mv.size() && by_name == job.GetVariableMap().GetVariableIndexMap(), "names of the variable maps");
    for (size_t i = 0; i < mv.size(); ++i) PCHECK(c, by_name.count(mv[i].first) && by_name.at(mv[i].first) == i, "index by name of variable ", i);
    const std::string unknown = g.Pick(std::vector<std::string>{"", "v", "zw", "zv ", "Zv"});
    PCHECK(c, Throws([&] { (void)vmap.FindVariableIndex(unknown); }) && Throws([&] { (void)job.GetVariableIndex(unknown); }), "the unknown variable [", unknown, "] has an index");
    PCHECK(c, job.GetInstructionMap().GetInstructionIndexMap() == index, "the maps of instructions differ");
    for (auto* i : all) PCHECK(c, job.GetInstructionIndex(i) == idx[i], "the job map gives an instruction another index");
    PCHECK(c, Throws([&] { (void)job.GetInstructionIndex(nullptr); }), "no instruction has an index");
    const JobMap early{*p};
    PCHECK(c, early.GetNumberOfInstructions() == 0 && early.GetNumberOfVariables() == mv.size(), "numbers of a map without instructions");
    PCHECK(c, Throws([&] { (void)early.GetInstructionIndex(top); }) && Throws([&] { (void)early.GetInstructionMap(); }) && Throws([&] { (void)early.GetOrderedInstructions(); }),
           "a map without instructions knows some");
    if (mv.size() > 1)
    {
      const auto infos = utils::CreateJobInfo(*p, map).GetWorkspaceInfo().GetVariableInfos();
      Copies(c, infos[0].second, infos[1].second, [&](const VariableInfo& v) {
        return v.GetType() != mv[0].second.first ? "type" : v.GetIndex() != 0 ? "index" : Sorted(v.GetAttributes()) != Sorted(mv[0].second.second) ? "attributes" : std::string{};
      });
      PCHECK(c, infos[0].second != infos[1].second && !(infos[0].second == infos[1].second), "different variables are equal");
    }
  }
  const auto name = attrs.empty() ? p->GetFilename() : attrs[0].second;
  const auto info = utils::CreateJobInfo(*p, map);
  PCHECK(c, Differs(name, mv, m, info).empty(), "created: ", Differs(name, mv, m, info));
  const auto av = utils::ToAnyValue(info);
  PCHECK(c, utils::ValidateJobInfoAnyValue(av), "the value of a job is not valid");
  const auto back = utils::ToJobInfo(av);
  PCHECK(c, Differs(name, mv, m, back).empty(), "back from its value: ", Differs(name, mv, m, back));
  PCHECK(c, back == info && !(back != info), "back from its value, a job is not equal to itself");
  const auto names = utils::BuildVariableNameMap(info.GetWorkspaceInfo());
  PCHECK(c, names.size() == mv.size(), "number of variable names");
  for (size_t i = 0; i < names.size(); ++i) PCHECK(c, names[i] == mv[i].first, "variable name ", i);
  const JobInfo other{"other", {}, std::make_unique<InstructionInfo>("Fail", Instruction::kAction, 0, Attrs{})};
  Copies(c, info, other, [&](const JobInfo& j) { return Differs(name, mv, m, j); });
  // The description remains valid without the procedure.
  p.reset();
  PCHECK(c, Differs(name, mv, m, back).empty() && Differs(name, mv, m, info).empty(), "the description depends on the procedure");
  if (all.size() > 4 && !vars.empty()) c.NonTrivial();
}

//------------------------------------------------------------------------------------------------
// Descriptions made by hand, with mistakes

Model RandModel(pbt::Gen& g, int depth)
{
  Model m;
  m.type = std::string(1, static_cast<char>('A' + g.Draw(4)));
  m.cat = depth <= 0 ? 0 : static_cast<int>("2102"[g.Draw(4)] - '0');
  m.attrs = RandAttrs(g);
  const size_t kids = m.cat == 0 ? 0 : m.cat == 1 ? g.Draw(3) != 2 : g.Draw(4);
  for (size_t i = 0; i < kids; ++i) m.kids.push_back(RandModel(g, depth - 1));
  return m;
}

bool Bijection(Model& m)
{
  const auto n = Count(m);
  std::set<uint32> used;
  bool ok = true;
  Each(m, [&](Model& k) { ok = ok && k.index < n && used.insert(k.index).second; });
  return ok;
}

void NumberRandomly(pbt::Gen& g, Model& m, bool mistakes)
{
  const auto n = static_cast<uint32>(Count(m));
  std::vector<uint32> perm(n);
  for (uint32 i = 0; i < n; ++i) perm[i] = i;
  for (uint32 i = n; i > 1; --i) std::swap(perm[i - 1], perm[g.Draw(i)]);
  uint32 next = 0;
  Each(m, [&](Model& k) { k.index = perm[next++]; });
  if (mistakes)
  {
    const auto which = g.Draw(n);
    const uint32 wrong = g.Draw(4) == 0 ? 0xffffffffu : static_cast<uint32>(g.Draw(n + 2));
    next = 0;
    Each(m, [&](Model& k) { if (next++ == which) k.index = wrong; });
  }
}

void ByHand(pbt::Case& c)
{
  auto& g = c.g;
  auto m = RandModel(g, 3);
  NumberRandomly(g, m, g.Coin());
  PLOG(c) << Show(m) << "\n";
  const bool ok = Bijection(m);
  auto info = Build(m);
  PCHECK(c, Differs(m, *info).empty(), "built: ", Differs(m, *info));
  const auto flat = Flatten(*info);
  PCHECK(c, flat.size() == Count(m) && std::set<const InstructionInfo*>(flat.begin(), flat.end()).size() == flat.size(), "flattened to ", flat.size(), " nodes");
  PCHECK(c, Throws([&] { ValidateInstructionInfoTree(*info); }) == !ok, "validation of a tree that is ", ok ? "valid" : "invalid");
  std::vector<const InstructionInfo*> order;
  PCHECK(c, Throws([&] { order = utils::CreateOrderedInstructionInfo(*info); }) == !ok, "ordering a tree that is ", ok ? "valid" : "invalid");
  if (ok)
    for (size_t i = 0; i < order.size(); ++i) PCHECK(c, order[i]->GetIndex() == i, "ordered list at ", i);
  const auto av = utils::ToAnyValueTree(*info);
  std::unique_ptr<InstructionInfo> back;
  PCHECK(c, Throws([&] { back = utils::ToInstructionInfoTree(av); }) == !ok, "the value of a tree that is ", ok ? "valid" : "invalid");
  if (ok) PCHECK(c, *back == *info && Differs(m, *back).empty(), "back from its value: ", Differs(m, *back));
  PCHECK(c, Throws([&] { (void)JobInfo{"job", {}, std::make_unique<InstructionInfo>(*info)}; }) == !ok, "a job of a tree that is ", ok ? "valid" : "invalid");
  const InstructionInfo other{"Other", Instruction::kAction, 7, {{"a", "b"}}};
  Copies(c, *info, other, [&](const InstructionInfo& i) { return Differs(m, i); });

  // One difference makes it unequal.
  auto changed = m;
  const auto which = g.Draw(Count(m));
  uint32 next = 0;
  bool different = true, extra = false;
  Each(changed, [&](Model& k) {
    if (next++ != which) return;
    switch (g.Draw(5))
    {
    case 0: k.type += "x"; break;
    case 1: k.index += 1; break;
    case 2: k.attrs.emplace_back("added", ""); break;
    case 3:
      if (k.attrs.empty()) different = false;
      else k.attrs[g.Draw(k.attrs.size())].second += "x";
      break;
    default:
      if (k.cat == 2 || (k.cat == 1 && k.kids.empty())) { k.kids.push_back(Model{"New", 0, 77, {}, {}}); extra = true; }
      else different = false;
    }
  });
  if (extra) {}
  const auto unequal = Build(changed);
  PCHECK(c, (*unequal == *info) == !different && (*info == *unequal) == !different && (*unequal != *info) == different, "compared with ", Show(changed));

  // Children are limited by the category.
  auto* at = info.get();
  const auto target = g.Draw(flat.size());
  at = const_cast<InstructionInfo*>(flat[target]);
  const auto had = at->Children().size();
  const bool allowed = at->GetCategory() == Instruction::kCompound || (at->GetCategory() == Instruction::kDecorator && had == 0);
  InstructionInfo* added = nullptr;
  PCHECK(c, Throws([&] { added = at->AppendChild(std::make_unique<InstructionInfo>("New", Instruction::kAction, 99, Attrs{})); }) == !allowed,
         "adding child ", had, " to category ", static_cast<int>(at->GetCategory()));
  PCHECK(c, at->Children().size() == had + allowed, "number of children after adding one");
  if (allowed) PCHECK(c, at->Children().back() == added && added->GetType() == "New", "the added child");

  // Workspaces
  WorkspaceInfo ws;
  Vars vars;
  for (size_t i = 0, n = g.Draw(6); i < n; ++i)
  {
    const std::string name(1, static_cast<char>('a' + g.Draw(5)));
    const uint32 index = static_cast<uint32>(g.Draw(4) == 3 ? g.Draw(6) : vars.size());
    const VariableInfo v{g.Coin() ? "Local" : "File", index, RandAttrs(g)};
    bool good = index == vars.size();
    for (auto& [k, x] : vars) good = good && k != name;
    PCHECK(c, Throws([&] { ws.AddVariableInfo(name, v); }) == !good, "adding variable ", name, " as ", index);
    if (good) vars.push_back({name, {v.GetType(), v.GetAttributes()}});
    PCHECK(c, Differs(vars, ws).empty(), "after adding variable ", name, ": ", Differs(vars, ws));
  }
  const auto wav = utils::ToAnyValue(ws);
  PCHECK(c, utils::ValidateWorkspaceInfoAnyValue(wav), "the value of a workspace is not valid");
  const auto wback = utils::ToWorkspaceInfo(wav);
  PCHECK(c, wback == ws && Differs(vars, wback).empty(), "a workspace back from its value: ", Differs(vars, wback));
  WorkspaceInfo wother;
  wother.AddVariableInfo("w", VariableInfo{"Local", 0, {}});
  Copies(c, ws, wother, [&](const WorkspaceInfo& w) { return Differs(vars, w); });
  c.Label(ok ? "valid" : "invalid");
  if (Count(m) > 3) c.NonTrivial();
}

//------------------------------------------------------------------------------------------------
// Values that come from somewhere else

// A value that can be edited.
struct Doc
{
  AnyValue leaf;
  bool isstruct = false;
  std::string type;
  std::vector<std::pair<std::string, Doc>> members;
};

Doc ToDoc(const AnyValue& v)
{
  Doc d;
  d.isstruct = sup::dto::IsStructValue(v);
  if (d.isstruct)
  {
    d.type = v.GetTypeName();
    for (auto& n : v.MemberNames()) d.members.emplace_back(n, ToDoc(v[n]));
  }
  else
    d.leaf = v;
  return d;
}

AnyValue FromDoc(const Doc& d)
{
  if (!d.isstruct) return d.leaf;
  auto v = sup::dto::EmptyStruct(d.type);
  for (auto& [n, k] : d.members) v.AddMember(n, FromDoc(k));
  return v;
}

const Doc* Member(const Doc& d, const std::string& n)
{
  for (auto& [k, v] : d.members)
    if (k == n) return &v;
  return nullptr;
}

std::optional<Attrs> ReadAttrs(const Doc* d)
{
  if (!d || !d->isstruct) return {};
  Attrs r;
  for (auto& [n, v] : d->members)
  {
    if (v.isstruct || v.leaf.GetType() != sup::dto::StringType) return {};
    r.emplace_back(n, v.leaf.As<std::string>());
  }
  return r;
}

template <class T> std::optional<T> Read(const Doc* d, const AnyType& t)
{
  if (!d || d->isstruct || d->leaf.GetType() != t) return {};
  return d->leaf.As<T>();
}

std::optional<Model> ReadModel(const Doc& d)
{
  if (!d.isstruct) return {};
  const auto type = Read<std::string>(Member(d, "type"), sup::dto::StringType);
  const auto cat = Read<uint32>(Member(d, "category"), sup::dto::UnsignedInteger32Type);
  const auto index = Read<uint32>(Member(d, "index"), sup::dto::UnsignedInteger32Type);
  const auto attrs = ReadAttrs(Member(d, "attributes"));
  if (!type || !cat || !index || !attrs) return {};
  Model m{*type, static_cast<int>(*cat), *index, *attrs, {}};
  if (auto* kids = Member(d, "children"))
  {
    if (!kids->isstruct) return {};
    for (size_t i = 0; i < kids->members.size(); ++i)
    {
      if (kids->members[i].first != "child_" + std::to_string(i)) return {};
      const auto k = ReadModel(kids->members[i].second);
      if (!k) return {};
      m.kids.push_back(*k);
    }
  }
  if (m.kids.size() > (m.cat == 1 ? 1u : m.cat == 2 ? 1000u : 0u)) return {};
  return m;
}

std::optional<Vars> ReadVars(const Doc* d)
{
  if (!d || !d->isstruct) return {};
  Vars r;
  for (auto& [n, v] : d->members)
  {
    if (!v.isstruct) return {};
    const auto type = Read<std::string>(Member(v, "type"), sup::dto::StringType);
    const auto index = Read<uint32>(Member(v, "index"), sup::dto::UnsignedInteger32Type);
    const auto attrs = ReadAttrs(Member(v, "attributes"));
    if (!type || type->empty() || !index || !attrs || *index != r.size()) return {};
    r.push_back({n, {*type, *attrs}});
  }
  return r;
}

AnyValue RandAny(pbt::Gen& g)
{
  switch (g.Draw(8))
  {
  case 0: return AnyValue{uint32{static_cast<uint32>(g.Draw(4))}};
  case 1: return AnyValue{std::string("text")};
  case 2: return AnyValue{};
  case 3: return AnyValue{sup::dto::int32{1}};
  case 4: return AnyValue{2, sup::dto::StringType};
  case 5: return sup::dto::EmptyStruct();
  case 6: return AnyValue{std::string()};
  default: return RandValue(g, RandType(g, 2));
  }
}

// All structures of a document.
void Structs(Doc& d, std::vector<Doc*>& out)
{
  if (!d.isstruct) return;
  out.push_back(&d);
  for (auto& [n, k] : d.members) Structs(k, out);
}

std::string Mutate(pbt::Gen& g, Doc& d)
{
  std::vector<Doc*> all;
  Structs(d, all);
  std::vector<Doc*> full;
  for (auto* s : all)
    if (!s->members.empty()) full.push_back(s);
  auto& s = *full[g.Draw(full.size())];
  const size_t i = g.Draw(s.members.size());
  const auto name = s.members[i].first;
  switch (g.Draw(9))
  {
  case 0:
    s.members.erase(s.members.begin() + i);
    return "removed " + name;
  case 1:
    s.members[i].second = ToDoc(RandAny(g));
    return "replaced " + name + " by " + Json(FromDoc(s.members[i].second));
  case 2:
  {
    for (auto& [n, v] : s.members)
      if (n == "other") return "nothing";
    s.members[i].first = "other";
    return "renamed " + name;
  }
  case 3:
    for (auto& [n, v] : s.members)
      if (n == "extra") return "nothing";
    s.members.insert(s.members.begin() + i, {"extra", ToDoc(RandAny(g))});
    return "added extra before " + name;
  case 4:
  {
    const size_t j = g.Draw(s.members.size());
    std::swap(s.members[i], s.members[j]);
    return "exchanged " + name + " and " + s.members[i].first;
  }
  default:
  {
    // another value of the same type where that matters
    for (auto* t : all)
    {
      for (auto& [n, v] : t->members)
      {
        if ((n != "index" && n != "category") || v.isstruct || v.leaf.GetType() != sup::dto::UnsignedInteger32Type || g.Draw(4) != 0) continue;
        v.leaf = AnyValue{static_cast<uint32>(g.Draw(20) == 0 ? 0x80000001u : g.Draw(5))};
        return n + " := " + Json(v.leaf);
      }
    }
    return "nothing";
  }
  }
}

void Foreign(pbt::Case& c)
{
  auto& g = c.g;
  auto m = RandModel(g, 3);
  NumberRandomly(g, m, false);
  WorkspaceInfo ws;
  for (size_t i = 0, n = g.Draw(4); i < n; ++i) ws.AddVariableInfo(std::string(1, static_cast<char>('a' + i)), VariableInfo{"Local", static_cast<uint32>(i), RandAttrs(g)});
  const JobInfo job{RandText(g), ws, Build(m)};
  auto d = ToDoc(utils::ToAnyValue(job));
  const size_t n = g.Draw(3);
  for (size_t i = 0; i < n; ++i)
  {
    const auto what = Mutate(g, d);
    PLOG(c) << what << "\n";
  }
  const auto av = FromDoc(d);
  PLOG(c) << Json(av) << "\n";
  const auto name = Read<std::string>(Member(d, "full_name"), sup::dto::StringType);
  const auto vars = ReadVars(Member(d, "ws_info"));
  std::optional<Model> model;
  if (auto* t = Member(d, "instr_tree_info")) model = ReadModel(*t);
  if (model && !Bijection(*model)) model.reset();
  const bool ok = name && vars && model;
  // (a category that is not known may be refused or not)
  bool unknown = false;
  if (ok) Each(*model, [&](Model& k) { unknown = unknown || k.cat < 0 || k.cat > 2; });
  if (unknown)
  {
    (void)Throws([&] { (void)utils::ToJobInfo(av); });
    return;
  }
  std::optional<JobInfo> got;
  const bool thrown = Throws([&] { got.emplace(utils::ToJobInfo(av)); });
  PCHECK(c, thrown == !ok, ok ? "a correct value is refused" : "a wrong value is accepted");
  if (ok) PCHECK(c, Differs(*name, *vars, *model, *got).empty(), "read: ", Differs(*name, *vars, *model, *got));
  if (ok) PCHECK(c, utils::ValidateJobInfoAnyValue(av), "a correct value is not valid");
  if (got)
  {
    // descriptions are equal exactly if all they say is
    const bool same = utils::ToAnyValue(*got) == utils::ToAnyValue(job);
    PCHECK(c, (*got == job) == same && (*got != job) == !same, same ? "equal descriptions are" : "different descriptions are not", " told apart");
    if (!same) c.Label("different");
    const JobInfo elsewhere{got->GetProcedureName(), WorkspaceInfo{}, std::make_unique<InstructionInfo>(*got->GetRootInstructionInfo())};
    const bool empty = got->GetNumberOfVariables() == 0;
    PCHECK(c, (*got == elsewhere) == empty && (*got != elsewhere) == !empty, "descriptions with ", empty ? "the same" : "other", " variables are ", empty ? "told apart" : "equal");
  }
  c.Label(ok ? "accepted" : "refused");
  if (n > 0 && Count(m) > 2) c.NonTrivial();
}

//------------------------------------------------------------------------------------------------
// States, requests and replies

void Messages(pbt::Case& c)
{
  auto& g = c.g;
  // instruction states
  const ES all[] = {ES::NOT_STARTED, ES::NOT_FINISHED, ES::RUNNING, ES::SUCCESS, ES::FAILURE};
  InstructionState s{g.Coin(), all[g.Draw(5)]};
  auto d = ToDoc(ToAnyValue(s));
  std::string what = "nothing";
  if (g.Coin()) what = Mutate(g, d);
  PLOG(c) << "state, " << what << "\n";
  const auto st = Read<sup::dto::uint16>(Member(d, "exec_status"), sup::dto::UnsignedInteger16Type);
  const auto bp = Read<sup::dto::boolean>(Member(d, "breakpoint"), sup::dto::BooleanType);
  InstructionState got{};
  const bool thrown = Throws([&] { got = ToInstructionState(FromDoc(d)); });
  PCHECK(c, thrown == !(st && bp), thrown ? "a correct state is refused" : "a wrong state is accepted");
  if (!thrown)
  {
    PCHECK(c, got.m_breakpoint_set == *bp && static_cast<int>(got.m_execution_status) == *st, "the state is read otherwise");
    if (what == "nothing") PCHECK(c, got == s && !(got != s), "the state is not equal to itself");
    InstructionState o = got;
    if (g.Coin()) o.m_breakpoint_set = !o.m_breakpoint_set;
    else o.m_execution_status = o.m_execution_status == ES::SUCCESS ? ES::FAILURE : ES::SUCCESS;
    PCHECK(c, o != got && !(o == got), "different states are equal");
  }

  // requests for a value
  const auto value = g.Draw(6) == 5 ? AnyValue{} : RandValue(g, RandType(g, 2));
  const auto text = RandText(g);
  const auto vr = CreateUserValueRequest(value, text);
  std::vector<std::string> options;
  for (size_t i = 0, n = g.Draw(5); i < n; ++i) options.push_back(RandText(g));
  const auto meta = g.Draw(4) == 3 ? AnyValue{} : RandValue(g, RandType(g, 2));
  const auto cr = CreateUserChoiceRequest(options, meta);
  PLOG(c) << "value request " << values::Show(value) << " [" << text << "], choice of " << options.size() << " " << values::Show(meta) << "\n";
  for (const auto* r : {&vr, &cr})
  {
    AnyValue v, md;
    std::string t = "before";
    std::vector<std::string> o = {"before"};
    const bool isvalue = r == &vr;
    PCHECK(c, ParseUserValueRequest(*r, v, t) == isvalue, "parsed as a request for a value");
    PCHECK(c, ParseUserChoiceRequest(*r, o, md) == !isvalue, "parsed as a request for a choice");
    if (isvalue)
    {
      PCHECK(c, v.GetType() == value.GetType() && t == text, "the request for a value");
      PCHECK(c, o == std::vector<std::string>{"before"} && sup::dto::IsEmptyValue(md), "a failed parse changed its output");
    }
    else
    {
      PCHECK(c, o == options && md == meta, "the request for a choice");
      PCHECK(c, t == "before" && sup::dto::IsEmptyValue(v), "a failed parse changed its output");
    }
    const UserInputRequest copy = *r;
    PCHECK(c, copy == *r && !(copy != *r), "a copy of a request is not equal");
    UserInputRequest changed = *r;
    switch (g.Draw(3))
    {
    case 0: changed.m_request_type = InputRequestType::kInvalid; break;
    case 1: changed.m_meta_data = AnyValue{sup::dto::uint64{77}}; break;
    default: changed.m_input_type = changed.m_input_type == sup::dto::UnsignedInteger64Type ? sup::dto::StringType : sup::dto::UnsignedInteger64Type;
    }
    PCHECK(c, changed != *r && !(changed == *r), "a changed request is equal");
  }
  PCHECK(c, vr != cr && vr != kInvalidUserInputRequest && cr != kInvalidUserInputRequest, "different requests are equal");

  // wrong requests
  UserInputRequest wrong = g.Coin() ? vr : cr;
  wrong.m_request_type = static_cast<InputRequestType>(g.Draw(3));
  if (g.Coin())
  {
    auto wd = ToDoc(cr.m_meta_data);
    const auto change = Mutate(g, wd);
    PLOG(c) << "metadata: " << change << "\n";
    wrong.m_meta_data = FromDoc(wd);
  }
  else
    wrong.m_meta_data = RandAny(g);
  {
    const auto wd = ToDoc(wrong.m_meta_data);
    AnyValue v;
    std::string t;
    const bool valueok = wrong.m_request_type == InputRequestType::kUserValue && wrong.m_meta_data.GetType() == sup::dto::StringType;
    PCHECK(c, ParseUserValueRequest(wrong, v, t) == valueok, "value request with metadata ", values::Show(wrong.m_meta_data));
    const auto* opt = Member(wd, "options");
    const bool choiceok = wrong.m_request_type == InputRequestType::kUserChoice && opt && Member(wd, "metadata") && !opt->isstruct &&
                          sup::dto::IsArrayValue(opt->leaf) && opt->leaf.GetType().ElementType() == sup::dto::StringType;
    std::vector<std::string> o;
    AnyValue md;
    PCHECK(c, ParseUserChoiceRequest(wrong, o, md) == choiceok, "choice request with metadata ", values::Show(wrong.m_meta_data));
    if (choiceok) PCHECK(c, o.size() == opt->leaf.NumberOfElements(), "number of options");
  }

  // replies
  const bool res = g.Coin();
  const int choice = static_cast<int>(g.Draw(4) == 0 ? g.Range(-2147483647, 2147483647) : g.Range(-2, 5));
  const auto a = CreateUserValueReply(res, value);
  const auto b = CreateUserChoiceReply(res, choice);
  const auto pa = ParseUserValueReply(a);
  PCHECK(c, pa.first == res && (res ? pa.second == value : sup::dto::IsEmptyValue(pa.second)), "reply with a value");
  const auto pb = ParseUserChoiceReply(b);
  PCHECK(c, pb.first == res && pb.second == (res ? choice : -1), "reply with choice ", choice);
  PCHECK(c, !ParseUserValueReply(b).first && !ParseUserChoiceReply(a).first, "a reply is accepted for the other kind of request");
  PCHECK(c, !ParseUserValueReply(kInvalidUserInputReply).first && !ParseUserChoiceReply(kInvalidUserInputReply).first, "the invalid reply is accepted");
  UserInputReply w{static_cast<InputRequestType>(g.Draw(3)), g.Draw(4) != 3, g.Coin() ? RandAny(g) : RandValue(g, RandType(g, 1))};
  const auto wc = ParseUserChoiceReply(w);
  const bool wok = w.m_request_type == InputRequestType::kUserChoice && w.m_result && w.m_payload.GetType() == sup::dto::SignedInteger32Type;
  PCHECK(c, wc.first == wok, "choice reply with payload ", values::Show(w.m_payload));
  const auto copy = w;
  PCHECK(c, copy == w && !(copy != w), "a copy of a reply is not equal");
  auto changed = w;
  switch (g.Draw(3))
  {
  case 0: changed.m_result = !w.m_result; break;
  case 1: changed.m_request_type = w.m_request_type == InputRequestType::kUserValue ? InputRequestType::kUserChoice : InputRequestType::kUserValue; break;
  default: changed.m_payload = w.m_payload == AnyValue{sup::dto::uint64{77}} ? AnyValue{} : AnyValue{sup::dto::uint64{77}};
  }
  PCHECK(c, changed != w && !(changed == w), "a changed reply is equal");
  if (options.size() > 1 && !sup::dto::IsEmptyValue(meta)) c.NonTrivial();
}
}  // namespace

OAC_FACET("C27", "procedures", FromProcedure, Opts(60000, 2000000, "more than four instructions, and variables", 12));
OAC_FACET("C27", "by-hand", ByHand, Opts(100000, 4000000, "more than three instructions", 12));
OAC_FACET("C27", "foreign", Foreign, Opts(100000, 4000000, "a changed value of several instructions", 12));
OAC_FACET("C27", "messages", Messages, Opts(150000, 6000000, "a choice among several options with metadata", 12));
