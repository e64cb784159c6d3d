// C19: instructions that change variables, against a twin workspace on which the documented
// operation is done directly; C20: instructions that compare variables.
#include <sup/oac-tree/log_severity.h>
#include "values.h"

#include <sup/oac-tree/procedure_context.h>

#include <sup/dto/anytype_helper.h>
#include <sup/dto/basic_scalar_types.h>

#include <cmath>
#include <fstream>
#include <map>
#include <set>
#include <unistd.h>

using namespace values;

namespace
{
const std::vector<std::string> g_names = {"v", "w", "vv", "V", "u"};

struct Spec
{
  std::string name;
  bool dynamic = false;
  bool typed = true;
  AnyValue initial;
  std::string file;
  bool registered = false;  // of the registered type T
  bool guarded = false;
};

std::unique_ptr<Variable> MakeVar(const Spec& s, const std::string& file)
{
  if (s.guarded)
  {
    auto v = std::make_unique<Guarded>(s.initial);
    v->SetName(s.name);
    return v;
  }
  auto v = GlobalVariableRegistry().Create(s.file.empty() ? "Local" : "File");
  v->SetName(s.name);
  if (!s.file.empty())
  {
    v->AddAttribute("file", file);
    return v;
  }
  if (s.dynamic) v->AddAttribute("dynamicType", "true");
  if (s.typed)
  {
    v->AddAttribute("type", dto::AnyTypeToJSONString(s.initial.GetType()));
    v->AddAttribute("value", Json(s.initial));
  }
  return v;
}

std::vector<Spec> RandSpecs(pbt::Gen& g)
{
  std::vector<Spec> r;
  const int n = 2 + static_cast<int>(g.Draw(4));
  for (int i = 0; i < n; ++i)
  {
    Spec s;
    s.name = g_names[i];
    s.dynamic = g.Coin();
    s.typed = g.Draw(8) != 7;
    AnyType t;
    switch (g.Draw(6))
    {
    case 0: t = dto::EmptyStructType("S0"); break;
    case 1: t = AnyType(g.Draw(3), Scalars()[g.Draw(5)]); break;
    case 2:
      if (!r.empty())
      {
        auto& o = r[g.Draw(r.size())].initial;
        t = dto::IsEmptyValue(o) ? dto::SignedInteger32Type : AnyType(g.Draw(3), o.GetType());
        break;
      }
      [[fallthrough]];
    default: t = RandType(g, 2);
    }
    if (dto::IsStructType(t) && t.NumberOfMembers() == 0) t.AddMember("a", dto::SignedInteger32Type);
    if (s.typed) s.initial = RandValue(g, t);
    if (g.Draw(12) == 11) s.file = "f" + std::to_string(i);
    else if (s.typed && g.Draw(5) == 4) s.guarded = true;
    r.push_back(s);
  }
  return r;
}

struct Log
{
  std::vector<std::string> notes;
  std::vector<std::string> logs;
};

std::string Content(const Workspace& ws)
{
  std::string r;
  for (auto& n : ws.VariableNames())
  {
    AnyValue v;
    const bool ok = ws.GetValue(n, v);
    r += "\n    " + n + " = " + (ok ? Show(v) : "unreadable");
  }
  return r;
}

struct Scratch
{
  std::string path;
  std::set<std::string> files;
  Scratch()
  {
    char t[] = "/tmp/verif-act-XXXXXX";
    path = mkdtemp(t);
  }
  ~Scratch()
  {
    for (auto& f : files) unlink(f.c_str());
    rmdir(path.c_str());
  }
  std::string File(const std::string& n)
  {
    files.insert(path + "/" + n);
    return path + "/" + n;
  }
};

// The names an attribute may hold: a variable, a field, something absent or nothing.
std::string RandName(pbt::Gen& g, const Workspace& ws, bool whole = true)
{
  const auto names = ws.VariableNames();
  if (g.Draw(20) == 19) return g.Coin() ? "" : g.Coin() ? "absent" : "absent.a";
  const auto n = g.Pick(names);
  AnyValue v;
  if (!ws.GetValue(n, v)) return g.Draw(4) == 3 ? n + ".a" : n;
  return FieldName(n, RandPath(g, v, whole));
}

struct Attr
{
  std::string in, out, member;
};

// What the operation does, with the functions of a workspace and of values.
bool Direct(const std::string& type, const Attr& a, const Workspace& from, Workspace& to)
{
  AnyValue in, out;
  auto has = [](const Workspace& ws, const std::string& n) { return ws.HasVariable(SplitFieldName(n).first); };
  if (type == "ResetVariable") return to.HasVariable(a.out) && to.ResetVariable(a.out);
  if (type == "Copy" || type == "CopyFromProcedure" || type == "CopyToProcedure")
    return has(from, a.in) && from.GetValue(a.in, in) && has(to, a.out) && to.SetValue(a.out, in);
  if (!has(to, a.out) || !to.GetValue(a.out, out)) return false;
  if (type == "VarExists") return true;
  if (type == "Increment") return dto::Increment(out) && to.SetValue(a.out, out);
  if (type == "Decrement") return dto::Decrement(out) && to.SetValue(a.out, out);
  if (type == "Condition")
  {
    bool r = false;
    return out.As(r) && r;
  }
  if (!has(from, a.in) || !from.GetValue(a.in, in)) return false;
  if (type == "AddElement")
  {
    if (!dto::IsArrayValue(out) || out.GetType().ElementType() != in.GetType()) return false;
    // built element by element: independent of AddElement
    AnyValue longer(out.NumberOfElements() + 1, out.GetType().ElementType(), out.GetTypeName());
    for (size_t i = 0; i < out.NumberOfElements(); ++i) longer[i] = out[i];
    longer[out.NumberOfElements()] = in;
    return to.SetValue(a.out, longer);
  }
  if (type == "AddMember")
  {
    if (a.member.empty() || !dto::IsStructValue(out)) return false;
    auto more = dto::EmptyStruct(out.GetTypeName());
    for (auto& m : out.MemberNames())
    {
      if (m == a.member) return false;
      more.AddMember(m, out[m]);
    }
    more.AddMember(a.member, in);
    return to.SetValue(a.out, more);
  }
  return false;
}

void Listen(Workspace& ws, Log& log)
{
  ws.RegisterGenericCallback([&log](const std::string& n, const AnyValue& v, bool connected) {
    log.notes.push_back(n + " = " + Show(v) + (connected ? "" : " not connected"));
  });
}

// A warning or an error that names the type of the instruction
bool Explained(const std::vector<std::string>& logs, const std::string& type)
{
  for (auto& l : logs)
    if (l[0] == '!' && l.find(type) != std::string::npos) return true;
  return false;
}

// One instruction of the history and its attributes.
struct Used
{
  std::unique_ptr<Instruction> instr;
  std::string type;
  Attr attr;
};

const std::vector<std::string> g_types = {"Copy", "AddElement", "AddMember", "Increment", "Decrement", "Condition", "VarExists", "ResetVariable"};

bool TwoNames(const std::string& t)
{
  return t[0] == 'C' ? t != "Condition" : t.compare(0, 3, "Add") == 0;
}

void Actions(pbt::Case& c)
{
  auto& g = c.g;
  Scratch scratch;
  auto specs = RandSpecs(g);
  Workspace ws, twin;
  Log seen, expected;
  for (auto& s : specs)
  {
    PLOG(c) << s.name << (s.dynamic ? " (dynamic)" : "") << (s.file.empty() ? "" : " (file)") << (s.guarded ? " (guarded)" : "") << " = " << Show(s.initial) << "\n";
    ws.AddVariable(s.name, MakeVar(s, scratch.File(s.name + "1")));
    twin.AddVariable(s.name, MakeVar(s, scratch.File(s.name + "2")));
    if (!s.file.empty() && s.typed)
      for (auto k : {"1", "2"}) dto::AnyValueToJSONFile(s.initial, scratch.File(s.name + k));
  }
  Listen(ws, seen);
  Listen(twin, expected);
  ws.Setup();
  twin.Setup();
  HookUI ui;
  ui.on_log = [&](int severity, const std::string& m) { seen.logs.push_back((severity <= sup::oac_tree::log::SUP_SEQ_LOG_WARNING ? "!" : " ") + m); };
  Procedure proc;
  std::vector<Used> used;
  int done = 0, failed = 0;
  std::set<std::string> kinds;
  do
  {
    size_t k = used.size();
    if (!used.empty() && g.Draw(3) == 2)
    {
      k = g.Draw(used.size());
      used[k].instr->Reset(ui);
    }
    else
    {
      Used u;
      u.type = g.Pick(g_types);
      u.instr = GlobalInstructionRegistry().Create(u.type);
      u.attr.out = RandName(g, ws);
      if (u.type == "AddElement" && g.Coin())
      {  // make it likely that the types match
        std::vector<std::pair<std::string, std::string>> pairs;
        for (auto& a : ws.VariableNames())
          for (auto& b : ws.VariableNames())
          {
            AnyValue va, vb;
            if (ws.GetValue(a, va) && ws.GetValue(b, vb) && dto::IsArrayValue(va) && va.GetType().ElementType() == vb.GetType()) pairs.emplace_back(a, b);
          }
        if (!pairs.empty())
        {
          auto& p = g.Pick(pairs);
          u.attr.out = p.first;
          u.attr.in = p.second;
        }
      }
      if (TwoNames(u.type))
      {
        if (u.attr.in.empty()) u.attr.in = RandName(g, ws);
        u.instr->AddAttribute("inputVar", u.attr.in);
        u.instr->AddAttribute("outputVar", u.attr.out);
        if (u.type == "AddMember")
        {
          u.attr.member = g.Draw(12) == 11 ? "" : g.Pick(Members());
          u.instr->AddAttribute("memberName", u.attr.member);
        }
      }
      else
        u.instr->AddAttribute("varName", u.attr.out);
      u.instr->Setup(proc);
      used.push_back(std::move(u));
    }
    auto& u = used[k];
    PLOG(c) << u.type << " [" << u.attr.in << "] [" << u.attr.out << "] " << u.attr.member;
    seen = {};
    expected = {};
    const auto before = Content(ws);
    const bool ok = Direct(u.type, u.attr, twin, twin);
    u.instr->ExecuteSingle(ui, ws);
    const auto st = u.instr->GetStatus();
    PLOG(c) << " -> " << St(st) << "\n";
    if (st != (ok ? ES::SUCCESS : ES::FAILURE)) c.Fail(u.type + " [" + u.attr.in + "] [" + u.attr.out + "] gives " + St(st) + " with" + before);
    const auto now = Content(ws), want = Content(twin);
    if (now != want) c.Fail(u.type + " leaves" + now + "\n  instead of" + want);
    if (!ok && now != before) c.Fail(u.type + " failed but changed the variables:" + before + "\n  ->" + now);
    if (seen.notes != expected.notes) c.Fail(pbt::Str(u.type, ": ", seen.notes.size(), " updates of variables instead of ", expected.notes.size()));
    if (ok && !seen.logs.empty()) c.Fail(u.type + " succeeded but logged: " + seen.logs[0]);
    if (!ok && u.type != "Condition" && !Explained(seen.logs, u.type)) c.Fail(u.type + " failed without a warning or an error that names it");
    if (now != before)
    {
      ++done;
      kinds.insert(u.type);
    }
    if (!ok) ++failed;
    c.Label(u.type + (ok ? now != before ? " changes" : " ok" : " fails"));
  } while (g.More(6));
  if (done >= 2 && kinds.size() >= 2 && failed) c.NonTrivial();
}

// ---------------------------------------------------------------- to and from other procedures
void OtherProcedures(pbt::Case& c)
{
  auto& g = c.g;
  Scratch scratch;
  const int nfiles = 1 + static_cast<int>(g.Draw(2));
  std::vector<std::vector<Spec>> specs;
  std::vector<std::string> names;
  std::vector<std::vector<Node>> preambles;
  auto workspace = [](const std::vector<Spec>& s) {
    std::vector<Node> r;
    for (auto& v : s)
    {
      const auto type = v.typed ? dto::AnyTypeToJSONString(v.initial.GetType()) : "";
      auto n = LocalVar(v.name, v.registered ? "{\"type\":\"T\"}" : type, v.typed ? Json(v.initial) : "");
      if (v.dynamic) n.A("dynamicType", "true");
      r.push_back(n);
    }
    return r;
  };
  for (int i = 0; i <= nfiles; ++i)
  {
    auto s = RandSpecs(g);
    for (auto& v : s) { v.file.clear(); v.guarded = false; }
    std::vector<Node> regs;
    if (g.Draw(3) == 0)
    {  // a type that this procedure registers; others may call a different one the same
      auto t = dto::EmptyStructType("T");
      t.AddMember("m", RandType(g, 1));
      if (g.Coin()) t.AddMember("k", dto::SignedInteger32Type);
      for (auto& v : s)
        if (g.Coin())
        {
          v.typed = v.registered = true;
          v.initial = RandValue(g, t);
        }
      const auto json = dto::AnyTypeToJSONString(t);
      if (g.Coin()) regs.push_back(Node("RegisterType", {{"jsontype", json}}));
      else
      {
        const auto file = pbt::Str("t", i, ".json");
        std::ofstream(scratch.File(file), std::ios::binary) << json;
        regs.push_back(Node("RegisterType", {{"jsonfile", file}}));
      }
    }
    preambles.push_back(regs);
    specs.push_back(s);
    names.push_back(scratch.File(pbt::Str("p", i, ".xml")));
    for (auto& v : s) PLOG(c) << "procedure " << i << ": " << v.name << (v.dynamic ? " (dynamic)" : "") << " = " << Show(v.initial) << "\n";
  }
  std::vector<std::unique_ptr<Workspace>> twins;
  for (auto& s : specs)
  {
    twins.push_back(std::make_unique<Workspace>());
    for (auto& v : s) twins.back()->AddVariable(v.name, MakeVar(v, ""));
    twins.back()->Setup();
  }
  struct Act
  {
    std::string type;
    int other;
    Attr attr;
  };
  std::vector<Act> acts;
  Node seq("Sequence");
  do
  {
    Act a;
    a.type = g.Coin() ? "CopyFromProcedure" : "CopyToProcedure";
    a.other = 1 + static_cast<int>(g.Draw(nfiles));
    const bool from = a.type == "CopyFromProcedure";
    a.attr.in = RandName(g, *twins[from ? a.other : 0]);
    a.attr.out = RandName(g, *twins[from ? 0 : a.other]);
    const bool relative = g.Coin();
    Node n(a.type, {{"file", relative ? pbt::Str("p", a.other, ".xml") : names[a.other]}, {"inputVar", a.attr.in}, {"outputVar", a.attr.out}});
    seq.K(Node("ForceSuccess").K(n));
    acts.push_back(a);
    PLOG(c) << a.type << " " << a.other << (relative ? " (relative)" : "") << " [" << a.attr.in << "] [" << a.attr.out << "]\n";
  } while (g.More(4) && acts.size() < 10);
  for (int i = 0; i <= nfiles; ++i)
  {
    std::ofstream f(names[i], std::ios::binary);
    f << ProcXml({i == 0 ? seq : Node("Succeed")}, workspace(specs[i]), {}, preambles[i]);
  }
  auto proc = ParseProcedureFile(names[0]);
  proc->Setup();
  HookUI ui;
  std::vector<Instruction*> inner;
  for (auto s : proc->RootInstruction()->ChildInstructions()) inner.push_back(s->ChildInstructions().at(0));
  PCHECK(c, inner.size() == acts.size(), "the procedure has ", inner.size(), " instructions");
  std::vector<std::string> untouched;
  for (int round = 0; round < (g.Draw(3) == 2 ? 2 : 1); ++round)
  {
    if (round)
    {  // the reset of a procedure is the reset of the workspaces it uses
      proc->Reset(ui);
      for (auto& t : twins)
      {
        t->Teardown();
        t->Setup();
      }
    }
    int moved = 0;
    std::string before;
    for (size_t i = 0; i < acts.size(); ++i)
    {
      auto& a = acts[i];
      const bool from = a.type == "CopyFromProcedure";
      auto* src = twins[from ? a.other : 0].get();
      auto* dst = twins[from ? 0 : a.other].get();
      const auto was = Content(*dst);
      const bool ok = Direct(a.type, a.attr, *src, *dst);
      if (was != Content(*dst)) ++moved;
      // execute until the child has finished
      int ticks = 0;
      while (!IsFinishedStatus(inner[i]->GetStatus()) && ++ticks < 20) proc->ExecuteSingle(ui);
      if (inner[i]->GetStatus() != (ok ? ES::SUCCESS : ES::FAILURE)) c.Fail(pbt::Str(a.type, " number ", i, " gives ", St(inner[i]->GetStatus())));
      for (int k = 0; k <= nfiles; ++k)
      {
        auto ctx = proc->GetContext();
        const auto& real = k == 0 ? proc->GetWorkspace() : ctx.GetWorkspace(names[k]);
        bool is_used = k == 0;
        for (auto& x : acts) is_used = is_used || x.other == k;
        if (!is_used) continue;
        const auto got = Content(real), want = Content(*twins[k]);
        if (got != want) c.Fail(pbt::Str("after number ", i, " (", a.type, ") the workspace ", k, " holds", got, "\n  instead of", want));
      }
    }
    if (moved >= 2 && nfiles == 2) c.NonTrivial();
    c.Label(moved >= 3 ? "3+ moved" : moved ? "1-2 moved" : "none moved");
  }
}

// ------------------------------------------------------------------------------- comparisons
const std::vector<std::string> g_compare = {"Equals", "LessThan", "LessThanOrEqual", "GreaterThan", "GreaterThanOrEqual"};

// Order of two scalar numbers, computed in a wider type.
bool Number(const AnyValue& v, long double& r)
{
  switch (v.GetTypeCode())
  {
  case dto::TypeCode::Int8: r = v.As<dto::int8>(); return true;
  case dto::TypeCode::UInt8: r = v.As<dto::uint8>(); return true;
  case dto::TypeCode::Int16: r = v.As<dto::int16>(); return true;
  case dto::TypeCode::UInt16: r = v.As<dto::uint16>(); return true;
  case dto::TypeCode::Int32: r = v.As<dto::int32>(); return true;
  case dto::TypeCode::UInt32: r = v.As<dto::uint32>(); return true;
  case dto::TypeCode::Int64: r = v.As<dto::int64>(); return true;
  case dto::TypeCode::UInt64: r = v.As<dto::uint64>(); return true;
  case dto::TypeCode::Float32: r = v.As<dto::float32>(); return true;
  case dto::TypeCode::Float64: r = v.As<dto::float64>(); return true;
  default: return false;
  }
}

void Comparisons(pbt::Case& c)
{
  auto& g = c.g;
  Workspace ws;
  std::vector<Spec> specs;
  const bool numbers = g.Coin(2, 3);
  if (numbers)
  {
    // close numbers, of one type or of several
    const bool mixed = g.Coin();
    auto t = Scalars()[g.Draw(Scalars().size())];
    for (int i = 0; i < 3; ++i)
    {
      Spec s;
      s.name = g_names[i];
      if (mixed) t = Scalars()[g.Draw(Scalars().size())];
      s.initial = RandScalar(g, t);
      specs.push_back(s);
      if (g.Draw(4) == 3 && i + 1 < 3)
      {
        Spec same = specs.back();
        same.name = g_names[++i];
        specs.push_back(same);
      }
    }
  }
  else
  {
    specs = RandSpecs(g);
    if (g.Coin())
    {
      Spec same = specs[0];
      same.name = "twin";
      specs.push_back(same);
    }
    for (auto& s : specs) s.file.clear();
  }
  for (auto& s : specs)
  {
    PLOG(c) << s.name << " = " << Show(s.initial) << "\n";
    ws.AddVariable(s.name, MakeVar(s, ""));
  }
  ws.Setup();
  HookUI ui;
  std::vector<std::string> logs;
  ui.on_log = [&](int severity, const std::string& m) { logs.push_back((severity <= sup::oac_tree::log::SUP_SEQ_LOG_WARNING ? "!" : " ") + m); };
  bool explained = true;
  Procedure proc;
  const auto before = Content(ws);
  auto run = [&](const std::string& type, const std::string& l, const std::string& r) {
    auto i = GlobalInstructionRegistry().Create(type);
    i->AddAttribute("leftVar", l);
    i->AddAttribute("rightVar", r);
    i->Setup(proc);
    logs.clear();
    i->ExecuteSingle(ui, ws);
    const auto st = i->GetStatus();
    PCHECK(c, st == ES::SUCCESS || st == ES::FAILURE, type, " gives ", St(st));
    if (st == ES::SUCCESS && !logs.empty()) c.Fail(type + " succeeded but logged: " + logs[0]);
    explained = Explained(logs, type);
    // and once more
    i->Reset(ui);
    i->ExecuteSingle(ui, ws);
    PCHECK(c, i->GetStatus() == st, type, " gives ", St(st), ", then ", St(i->GetStatus()));
    return st == ES::SUCCESS;
  };
  int ordered = 0, equal = 0;
  for (int k = 0; k < 3; ++k)
  {
    const auto l = RandName(g, ws, true), r = RandName(g, ws, true);
    AnyValue a, b;
    const bool ok = ws.HasVariable(SplitFieldName(l).first) && ws.HasVariable(SplitFieldName(r).first) && ws.GetValue(l, a) && ws.GetValue(r, b);
    bool got[5];
    for (int i = 0; i < 5; ++i)
    {
      got[i] = run(g_compare[i], l, r);
      if (explained == ok) c.Fail(g_compare[i] + " [" + l + "] [" + r + (ok ? "] complains although" : "] does not complain although not") + " both values can be read");
    }
    auto what = [&](int i) { return g_compare[i] + " [" + l + "] [" + r + "] (" + Show(a) + ", " + Show(b) + ") gives " + (got[i] ? "success" : "failure"); };
    PLOG(c) << l << " <> " << r << ":" << got[0] << got[1] << got[2] << got[3] << got[4] << "\n";
    if (!ok)
    {
      for (int i = 0; i < 5; ++i)
        if (got[i]) c.Fail(what(i) + " without both values");
      c.Label("missing");
      continue;
    }
    if (got[0] != (a == b)) c.Fail(what(0));
    const auto cmp = dto::Compare(a, b);
    const bool less = cmp == dto::CompareResult::Less, eq = cmp == dto::CompareResult::Equivalent, greater = cmp == dto::CompareResult::Greater;
    const bool want[5] = {a == b, less, less || eq, greater, greater || eq};
    for (int i = 1; i < 5; ++i)
      if (got[i] != want[i]) c.Fail(what(i));
    long double x, y;
    if (Number(a, x) && Number(b, y))
    {
      const bool num[5] = {a == b, x < y, x <= y, x > y, x >= y};
      for (int i = 1; i < 5; ++i)
        if (got[i] != num[i] && a.GetType() == b.GetType()) c.Fail(what(i));
      if (a.GetType() == b.GetType() && got[0] != (x == y)) c.Fail(what(0));
    }
    // the other way around
    const bool back[5] = {got[0], got[3], got[4], got[1], got[2]};
    for (int i = 0; i < 5; ++i)
      if (run(g_compare[i], r, l) != back[i]) c.Fail(what(i) + " but the other way around is no reflection of it");
    ordered += less || greater;
    equal += got[0];
    c.Label(less ? "less" : greater ? "greater" : eq ? "equivalent" : "not comparable");
  }
  PCHECK(c, Content(ws) == before, "comparisons changed the variables");
  if (ordered && (equal || !numbers)) c.NonTrivial();
}

OAC_FACET("C19", "actions", Actions, Opts(25000, 1000000, "at least two changes by two kinds of action, and one failure", 18));
OAC_FACET("C19", "other-procedures", OtherProcedures, Opts(6000, 200000, "at least two values moved between three procedures", 12));
OAC_FACET("C20", "comparisons", Comparisons, Opts(40000, 2000000, "an ordered pair, and an equal pair or structured values", 18));
}  // namespace
