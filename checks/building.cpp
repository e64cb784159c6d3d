// C31: procedures that are built and edited by a program: trees of instructions, registries.
#include "oac.h"

#include <sup/oac-tree/attribute_definition.h>
#include <sup/oac-tree/procedure_context.h>

#include <algorithm>
#include <deque>
#include <map>
#include <set>

using namespace oac;

namespace
{
// A leaf whose results are an attribute and that counts its instances.
std::vector<std::string>* g_trace = nullptr;
int g_live = 0;

class CProbe : public Instruction
{
public:
  CProbe() : Instruction("CProbe") { ++g_live; }
  ~CProbe() override { --g_live; }

private:
  ES ExecuteSingleImpl(UserInterface&, Workspace&) override
  {
    auto script = HasAttribute("script") ? GetAttributeString("script") : std::string("s");
    char r = script.empty() ? 's' : script[m_pos++ % script.size()];
    if (g_trace) g_trace->push_back("executed: " + GetName() + "/" + script + " -> " + r);
    return r == 'f' ? ES::FAILURE : r == 'n' ? ES::NOT_FINISHED : ES::SUCCESS;
  }
  void ResetHook(UserInterface&) override { m_pos = 0; }
  size_t m_pos = 0;
};

const std::vector<std::string> kCompounds = {"Sequence", "Fallback", "ReactiveSequence", "ReactiveFallback"};
const std::vector<std::string> kDecorators = {"Inverter", "ForceSuccess", "Repeat", "Include"};
const std::vector<std::string> kLeaves = {"CProbe", "CProbe", "CProbe", "Succeed", "Fail"};

bool In(const std::string& s, const std::vector<std::string>& v)
{
  return std::find(v.begin(), v.end(), s) != v.end();
}

struct M
{
  const Instruction* ptr = nullptr;
  std::string type;
  StringAttributeList attrs;
  std::vector<std::unique_ptr<M>> kids;
};

std::unique_ptr<M> Copy(const M& m)
{
  auto r = std::make_unique<M>();
  r->type = m.type;
  r->attrs = m.attrs;
  for (auto& k : m.kids) r->kids.push_back(Copy(*k));
  return r;
}

int CountProbes(const M& m)
{
  int n = m.type == "CProbe";
  for (auto& k : m.kids) n += CountProbes(*k);
  return n;
}

const std::string* Attr(const M& m, const std::string& name)
{
  for (auto& [k, v] : m.attrs)
    if (k == name) return &v;
  return nullptr;
}

Node ToNode(const M& m)
{
  Node n(m.type);
  for (auto& [k, v] : m.attrs) n.A(k, v);
  for (auto& k : m.kids) n.K(ToNode(*k));
  return n;
}

void Bind(M& m, const Instruction* i)
{
  m.ptr = i;
  auto kids = i->ChildInstructions();
  for (size_t k = 0; k < m.kids.size(); ++k) Bind(*m.kids[k], kids[k]);
}

// Does the tree of instructions look like the model?
void Same(pbt::Case& c, const M& m, const Instruction* i, bool identity)
{
  PCHECK(c, i, "there is no instruction where a ", m.type, " was put");
  if (identity) PCHECK(c, i == m.ptr, "another instruction is found where a ", m.type, " was put");
  PCHECK(c, i->GetType() == m.type, "the type is ", i->GetType(), " instead of ", m.type);
  PCHECK(c, i->GetStringAttributes() == m.attrs, "attributes of a ", m.type, " differ");
  for (auto& name : {"name", "script", "note", "isRoot", "maxCount", "path"})
  {
    auto* v = Attr(m, name);
    PCHECK(c, i->HasAttribute(name) == (v != nullptr), "HasAttribute(", name, ") of a ", m.type);
    PCHECK(c, i->GetAttributeString(name) == (v ? *v : ""), "attribute ", name, " of a ", m.type, " is ", i->GetAttributeString(name));
  }
  auto* name = Attr(m, "name");
  PCHECK(c, i->GetName() == (name ? *name : ""), "the name of a ", m.type, " is ", i->GetName());
  const auto cat = In(m.type, kCompounds) ? Instruction::kCompound : In(m.type, kDecorators) ? Instruction::kDecorator : Instruction::kAction;
  PCHECK(c, i->GetCategory() == cat, "category of a ", m.type);
  PCHECK(c, i->GetStatus() == ES::NOT_STARTED, "an instruction that was not executed is ", St(i->GetStatus()));
  auto kids = i->ChildInstructions();
  PCHECK(c, kids.size() == m.kids.size() && i->ChildrenCount() == static_cast<int>(m.kids.size()), "a ", m.type, " has ", kids.size(), " / ", i->ChildrenCount(), " children instead of ", m.kids.size());
  for (size_t k = 0; k < kids.size(); ++k) Same(c, *m.kids[k], kids[k], identity);
}

void Flatten(const M& root, std::vector<const Instruction*>& bfs, std::vector<const Instruction*>& leaves)
{
  std::deque<const M*> q{&root};
  while (!q.empty())
  {
    auto* m = q.front();
    q.pop_front();
    bfs.push_back(m->ptr);
    if (m->kids.empty()) leaves.push_back(m->ptr);
    for (auto& k : m->kids) q.push_back(k.get());
  }
}

const M* RootOf(const std::vector<std::unique_ptr<M>>& top)
{
  if (top.size() == 1) return top[0].get();
  for (auto& t : top)
    if (auto* v = Attr(*t, "isRoot"))
      if (*v == "true") return t.get();
  return nullptr;
}

// Everything that can be seen when a procedure is executed.
std::vector<std::string> Behaviour(Procedure& proc, int ticks)
{
  std::vector<std::string> trace;
  g_trace = &trace;
  HookUI ui;
  try
  {
    proc.Setup();
    std::map<const Instruction*, int> ids;
    for (auto* i : FlattenBFS(CreateFullInstructionTree(proc.RootInstruction()))) ids.emplace(i, static_cast<int>(ids.size()));
    ui.on_status = [&](const Instruction* i) { trace.push_back(pbt::Str("#", ids.count(i) ? ids[i] : -1, " ", i->GetType(), " ", St(i->GetStatus()))); };
    ui.on_log = [&](int s, const std::string& m) { trace.push_back(pbt::Str("log ", s, " ", m)); };
    for (int t = 0; t < ticks; ++t)
    {
      std::string next;
      for (auto* i : GetNextInstructions(proc)) next += pbt::Str(" ", ids.count(i) ? ids[i] : -1);
      trace.push_back("next:" + next);
      if (IsFinishedStatus(proc.GetStatus())) break;
      proc.ExecuteSingle(ui);
    }
    trace.push_back("root " + St(proc.GetStatus()));
  }
  catch (const MessageException& e)
  {
    trace.push_back(std::string("exception: ") + e.what());
  }
  ui.on_status = nullptr;
  ui.on_log = nullptr;
  g_trace = nullptr;
  proc.Reset(ui);
  return trace;
}

void CompareTraces(pbt::Case& c, const std::vector<std::string>& a, const std::vector<std::string>& b, const std::string& what)
{
  for (size_t i = 0; i < std::max(a.size(), b.size()); ++i)
  {
    auto x = i < a.size() ? a[i] : "(end)", y = i < b.size() ? b[i] : "(end)";
    if (x != y) c.Fail(pbt::Str("event ", i, " is '", x, "' but with ", what, " it is '", y, "'"));
  }
}

void Edit(pbt::Case& c)
{
  const int before = g_live;
  int edits = 0, refused = 0;
  {
    Procedure proc;
    std::vector<std::unique_ptr<M>> top;
    struct Held
    {
      std::unique_ptr<Instruction> instr;
      std::unique_ptr<M> m;
    };
    std::vector<Held> hand;
    const bool include = c.g.Coin(1, 4);

    auto random_type = [&] {
      auto decorators = kDecorators;
      if (!include) decorators.pop_back();
      switch (c.g.Draw(5))
      {
      case 0: return c.g.Pick(kLeaves);
      case 1: return c.g.Pick(decorators);
      case 2: case 3: return c.g.Pick(kCompounds);
      default: return std::string("CProbe");
      }
    };
    auto all = [&](bool with_hand) {
      std::vector<M*> r;
      std::function<void(M&)> add = [&](M& m) {
        r.push_back(&m);
        for (auto& k : m.kids) add(*k);
      };
      for (auto& t : top) add(*t);
      if (with_hand)
        for (auto& h : hand) add(*h.m);
      return r;
    };
    auto mut = [](M* m) { return const_cast<Instruction*>(m->ptr); };
    auto create = [&](const std::string& type) {
      Held h;
      h.instr = GlobalInstructionRegistry().Create(type);
      PCHECK(c, h.instr, "no instruction of type ", type, " was created");
      h.m = std::make_unique<M>();
      h.m->type = type;
      h.m->ptr = h.instr.get();
      return h;
    };
    auto attribute = [&](M& m, const std::string& key, const std::string& value, int how) {
      auto* i = mut(&m);
      auto it = std::find_if(m.attrs.begin(), m.attrs.end(), [&](auto& a) { return a.first == key; });
      const bool there = it != m.attrs.end();
      switch (how)
      {
      case 0:
        PCHECK(c, i->AddAttribute(key, value) == !there, "adding attribute ", key, there ? " again" : "");
        if (!there) m.attrs.emplace_back(key, value);
        break;
      case 1:
        PCHECK(c, i->SetAttribute(key, value) == there, "setting attribute ", key, there ? "" : " that is not there");
        if (there) it->second = value;
        break;
      case 2:
        i->SetName(value);
        it = std::find_if(m.attrs.begin(), m.attrs.end(), [&](auto& a) { return a.first == "name"; });
        if (it != m.attrs.end()) it->second = value;
        else m.attrs.emplace_back("name", value);
        break;
      default:
      {
        StringAttributeList list;
        static const std::vector<std::string> keys{"note", "n1", "n2", "n3", "n4"};
        while (list.size() < 6 && (list.empty() || c.g.More(3))) list.emplace_back(c.g.Pick(keys), c.g.Coin() ? value : "x");
        bool ok = true;
        for (auto& [k, v] : list)
        {
          auto f = std::find_if(m.attrs.begin(), m.attrs.end(), [&](auto& a) { return a.first == k; });
          if (f == m.attrs.end()) m.attrs.emplace_back(k, v);
          else ok = false;
        }
        PCHECK(c, i->AddAttributes(list) == ok, "adding several attributes");
      }
      }
    };
    auto random_attribute = [&](M& m) {
      static const std::vector<std::string> scripts{"s", "f", "ns", "nf", "nns", "sf", "fs"};
      switch (c.g.Draw(7))
      {
      case 0: attribute(m, "name", c.g.Pick(std::vector<std::string>{"a", "b", "c", "a b", ""}), static_cast<int>(c.g.Draw(3))); break;
      case 1: attribute(m, "isRoot", c.g.Coin(1, 8) ? "maybe" : c.g.Coin() ? "true" : "false", static_cast<int>(c.g.Draw(2))); break;
      case 2: attribute(m, "maxCount", std::to_string(c.g.Draw(4)), static_cast<int>(c.g.Draw(2))); break;
      case 3: attribute(m, "path", c.g.Pick(std::vector<std::string>{"a", "b", "c", "a.b", "zz"}), static_cast<int>(c.g.Draw(2))); break;
      case 4: attribute(m, "note", c.g.Pick(std::vector<std::string>{"1 < 2 & 3", "\"q\"", "", "x"}), static_cast<int>(c.g.Draw(4))); break;
      default: attribute(m, "script", c.g.Pick(scripts), static_cast<int>(c.g.Draw(2)));
      }
    };
    auto verify = [&] {
      int probes = 0;
      PCHECK(c, proc.GetInstructionCount() == static_cast<int>(top.size()), "the procedure has ", proc.GetInstructionCount(), " instructions instead of ", top.size());
      auto tops = proc.GetTopInstructions();
      PCHECK(c, tops.size() == top.size(), "the procedure lists ", tops.size(), " instructions instead of ", top.size());
      for (size_t i = 0; i < top.size(); ++i)
      {
        Same(c, *top[i], tops[i], true);
        probes += CountProbes(*top[i]);
        std::vector<const Instruction*> bfs, leaves;
        Flatten(*top[i], bfs, leaves);
        auto tree = CreateFullInstructionTree(tops[i]);
        PCHECK(c, FlattenBFS(tree) == bfs, "the flattened tree differs");
        auto l = GetLeaves(tree);
        std::sort(l.begin(), l.end());
        std::sort(leaves.begin(), leaves.end());
        PCHECK(c, l == leaves, "the leaves of the tree differ");
      }
      for (auto& h : hand)
      {
        Same(c, *h.m, h.instr.get(), true);
        probes += CountProbes(*h.m);
      }
      auto* r = RootOf(top);
      PCHECK(c, proc.RootInstruction() == (r ? r->ptr : nullptr), "the root instruction is another one");
      if (!r) PCHECK(c, proc.GetStatus() == ES::SUCCESS && proc.GetNextInstructionTree().IsEmpty() && GetNextLeaves(proc).empty(), "a procedure without root is not finished");
      PCHECK(c, g_live - before == probes, g_live - before, " leaves exist instead of ", probes);
    };
    // one editing step
    auto step = [&](bool with_attrs) {
      auto nodes = all(true);
      switch (hand.empty() && c.g.Coin(1, 3) ? 0 : c.g.Draw(12))
      {
      case 0: case 1: case 2:
      {
        hand.push_back(create(random_type()));
        PLOG(c) << "create " << hand.back().m->type << "\n";
        if (with_attrs)
          for (int i = 0; i < 2; ++i) random_attribute(*hand.back().m);
        break;
      }
      case 3: case 4: case 5: case 6:  // insert
      {
        if (hand.empty()) return;
        auto h = static_cast<size_t>(c.g.Draw(hand.size()));
        auto* moved = hand[h].instr.get();
        std::set<const M*> own;
        std::function<void(const M&)> add = [&](const M& m) {
          own.insert(&m);
          for (auto& k : m.kids) add(*k);
        };
        add(*hand[h].m);
        std::vector<M*> targets{nullptr};
        for (auto* n : nodes)
          if (!own.count(n)) targets.push_back(n);
        auto* t = top.empty() ? nullptr : targets[c.g.Draw(targets.size())];
        const int n = static_cast<int>(t ? t->kids.size() : top.size());
        int at = c.g.Coin(1, 8) ? static_cast<int>(c.g.Pick(std::vector<int>{-1, n + 1, n + 100, -1000000, 2147483647})) : static_cast<int>(c.g.Draw(n + 1));
        const int how = static_cast<int>(c.g.Draw(3));
        if (how == 0) at = n;
        if (!t && c.g.Coin(1, 8))
        {
          // nothing to insert
          PLOG(c) << "insert nothing into the procedure at " << at << "\n";
          bool taken = true;
          if (how == 0)
          {
            try { proc.PushInstruction(nullptr); }
            catch (const InvalidOperationException&) { taken = false; }
          }
          else taken = proc.InsertInstruction(nullptr, at);
          PCHECK(c, !taken, "an empty pointer was inserted into a procedure");
          ++refused;
          return;
        }
        PLOG(c) << "insert " << hand[h].m->type << " into " << (t ? t->type : "procedure") << " at " << at << "\n";
        bool ok;
        if (!t && how == 0)
        {
          proc.PushInstruction(std::move(hand[h].instr));
          ok = true;
        }
        else if (!t) ok = proc.InsertInstruction(std::move(hand[h].instr), at);
        else if (how == 0) ok = AppendChildInstruction(*mut(t), std::move(hand[h].instr));
        else ok = mut(t)->InsertInstruction(std::move(hand[h].instr), at);
        if (t && In(t->type, kDecorators) && n == 1 && at == 0)
        {
          // the child is replaced
          PCHECK(c, ok, "the child of a decorator could not be replaced");
          auto old = std::move(t->kids[0]);
          t->kids[0] = std::move(hand[h].m);
          if (hand[h].instr)
          {
            PCHECK(c, hand[h].instr.get() == old->ptr, "replacing a child returns another instruction");
            hand[h].m = std::move(old);
          }
          else
            hand.erase(hand.begin() + static_cast<long>(h));
          ++edits;
          return;
        }
        const bool fits = at >= 0 && at <= n && (!t || In(t->type, kCompounds) || (In(t->type, kDecorators) && n == 0));
        PCHECK(c, ok == fits, "inserting at ", at, " of ", n, " into a ", t ? t->type : "procedure", " returned ", ok);
        if (!ok)
        {
          ++refused;
          PCHECK(c, hand[h].instr.get() == moved, "an instruction that was not inserted is gone");
          return;
        }
        auto& kids = t ? t->kids : top;
        kids.insert(kids.begin() + at, std::move(hand[h].m));
        hand.erase(hand.begin() + static_cast<long>(h));
        ++edits;
        break;
      }
      case 7: case 8:  // take
      {
        auto k = static_cast<size_t>(c.g.Draw(nodes.size() + 1));
        M* t = k < nodes.size() ? nodes[k] : nullptr;
        auto& kids = t ? t->kids : top;
        const int n = static_cast<int>(kids.size());
        const int at = n == 0 || c.g.Coin(1, 6) ? c.g.Pick(std::vector<int>{-1, n, n + 7, 2147483647}) : static_cast<int>(c.g.Draw(n));
        PLOG(c) << "take from " << (t ? t->type : "procedure") << " at " << at << "\n";
        auto got = t ? mut(t)->TakeInstruction(at) : proc.TakeInstruction(at);
        if (at < 0 || at >= n)
        {
          PCHECK(c, !got, "an instruction was taken from position ", at, " of ", n);
          ++refused;
          return;
        }
        PCHECK(c, got && got.get() == kids[at]->ptr, "another instruction was taken than the one at ", at);
        hand.push_back({std::move(got), std::move(kids[at])});
        kids.erase(kids.begin() + at);
        ++edits;
        break;
      }
      case 9:  // clone
      {
        if (nodes.empty() || nodes.size() > 40) return;
        auto* m = nodes[c.g.Draw(nodes.size())];
        PLOG(c) << "clone " << m->type << "\n";
        auto copy = CloneInstructionTree(*m->ptr);
        PCHECK(c, copy, "a ", m->type, " could not be cloned");
        auto cm = Copy(*m);
        Same(c, *cm, copy.get(), false);
        Bind(*cm, copy.get());
        hand.push_back({std::move(copy), std::move(cm)});
        break;
      }
      default:
        if (nodes.empty() || !with_attrs) return;
        random_attribute(*nodes[c.g.Draw(nodes.size())]);
      }
    };
    for (uint64_t s = 0, n = 4 + c.g.Draw(30); s < n; ++s)
    {
      step(true);
      verify();
    }
    try
    {
      proc.PushInstruction(nullptr);
      c.Fail("a procedure accepted an instruction that does not exist");
    }
    catch (const InvalidOperationException&)
    {
    }
    verify();
    // Executed, the procedure does what the same procedure from a file does.
    const int ticks = 3 + static_cast<int>(c.g.Draw(20));
    auto compare = [&](const std::string& when) {
      auto xml = [&] {
        std::vector<Node> nodes;
        for (auto& t : top) nodes.push_back(ToNode(*t));
        return ProcXml(nodes);
      };
      if (top.empty()) return false;
      PLOG(c) << when << ": " << xml();
      std::vector<std::string> want, cloned;
      auto text = xml();
      try
      {
        auto parsed = ParseProcedureString(text);
        PCHECK(c, parsed, "the same procedure could not be parsed");
        want = Behaviour(*parsed, ticks);
      }
      catch (const MessageException& e)
      {
        want = {std::string("not parsed: ") + e.what()};
      }
      Procedure second;
      for (auto* i : proc.GetTopInstructions()) second.PushInstruction(CloneInstructionTree(*i));
      auto got = Behaviour(proc, ticks);
      if (want.size() == 1 && want[0].rfind("not parsed", 0) == 0)
      {
        // the parser is stricter about some attributes
        c.Label("not parsed");
      }
      else
        CompareTraces(c, got, want, "the procedure from text");
      CompareTraces(c, got, Behaviour(second, ticks), "a copy of the procedure");
      return got.size() > 3;
    };
    bool ran = compare("executed");
    if (!include)
    {
      verify();
      // ... and again after further changes.
      for (uint64_t s = 0, n = c.g.Draw(6); s < n; ++s)
      {
        step(true);
        verify();
      }
      ran = compare("executed again") || ran;
    }
    if (ran && edits >= 2) c.NonTrivial();
    if (refused) c.Label("refused");
    // What is still held is destroyed before or after the procedure.
    if (c.g.Coin()) hand.clear();
  }
  PCHECK(c, g_live == before, g_live - before, " leaves still exist after everything was destroyed");
}
OAC_FACET("C31", "editing", Edit, Opts(60000, 2000000, "at least two changes and an execution with more than three events"));

// ---------------------------------------------------------------------------------- registries
template <class Registry, class Make, class Constructor, class Names, class Known>
int DriveRegistry(pbt::Case& c, Registry& reg, const std::vector<Constructor>& ctors, const std::vector<std::string>& types, std::map<std::string, size_t> model, Make make, Names names, Known known, void (*add)(Registry&, const std::string&, Constructor))
{
  static const std::vector<std::string> pool{"A", "B", "Sequence", "Local", "a", "", "A ", "x.y"};
  int hits = 0;
  for (uint64_t s = 0, n = 2 + c.g.Draw(16); s < n; ++s)
  {
    auto name = c.g.Pick(pool);
    if (c.g.Coin())
    {
      auto k = static_cast<size_t>(c.g.Draw(ctors.size()));
      bool threw = false;
      try
      {
        add(reg, name, ctors[k]);
      }
      catch (const InvalidOperationException&)
      {
        threw = true;
      }
      PLOG(c) << "register '" << name << "' as " << types[k] << (threw ? " refused" : "") << "\n";
      PCHECK(c, threw == (model.count(name) != 0), "registering '", name, threw ? "' was refused although it was not known" : "' twice was accepted");
      hits += threw;
      model.emplace(name, k);
    }
    else
    {
      std::string got;
      bool threw = false;
      try
      {
        got = make(name);
      }
      catch (const InvalidOperationException&)
      {
        threw = true;
      }
      PLOG(c) << "create '" << name << "' " << got << "\n";
      auto it = model.find(name);
      PCHECK(c, threw == (it == model.end()), "creating '", name, threw ? "' failed" : "' that was not registered succeeded");
      if (!threw) PCHECK(c, got == types[it->second], "creating '", name, "' gave a ", got, " instead of a ", types[it->second]);
      hits += !threw;
    }
    std::vector<std::string> want;
    for (auto& [k, v] : model) want.push_back(k);
    auto have = names();
    std::sort(have.begin(), have.end());
    PCHECK(c, have == want, "the registered names differ");
    for (auto& p : pool) PCHECK(c, known(p) == (model.count(p) != 0), "'", p, "' is ", known(p) ? "" : "not ", "said to be registered");
  }
  return hits;
}

template <int N>
Instruction* MakeInstruction()
{
  static const char* types[] = {"Sequence", "Wait", "Repeat"};
  return GlobalInstructionRegistry().Create(types[N]).release();
}
template <int N>
Variable* MakeVariable()
{
  static const char* types[] = {"Local", "File"};
  return GlobalVariableRegistry().Create(types[N]).release();
}

void Registries(pbt::Case& c)
{
  int hits = 0;
  {
    using R = InstructionRegistry;
    R reg;
    std::vector<R::InstructionConstructor> ctors{&MakeInstruction<0>, &MakeInstruction<1>, &MakeInstruction<2>};
    hits += DriveRegistry(
        c, reg, ctors, {"Sequence", "Wait", "Repeat"}, {}, [&](const std::string& n) { return reg.Create(n)->GetType(); }, [&] { return reg.RegisteredInstructionNames(); }, [&](const std::string& n) { return reg.IsRegisteredInstructionName(n); },
        +[](R& r, const std::string& n, R::InstructionConstructor k) { (void)r.RegisterInstruction(n, k); });
  }
  {
    using R = VariableRegistry;
    R reg;
    std::vector<R::VariableConstructor> ctors{&MakeVariable<0>, &MakeVariable<1>};
    hits += DriveRegistry(
        c, reg, ctors, {"Local", "File"}, {}, [&](const std::string& n) { return reg.Create(n)->GetType(); }, [&] { return reg.RegisteredVariableNames(); }, [&](const std::string& n) { return reg.IsRegisteredVariableName(n); },
        +[](R& r, const std::string& n, R::VariableConstructor k) { (void)r.RegisterVariable(n, k); });
  }
  // The global ones cannot lose what they contain.
  auto& g = GlobalInstructionRegistry();
  auto names = g.RegisteredInstructionNames();
  auto name = c.g.Pick(names);
  auto one = g.Create(name), two = g.Create(name);
  PCHECK(c, one && two && one != two && one->GetType() == name, "instruction ", name, " was not created");
  if (hits >= 3) c.NonTrivial();
}
OAC_FACET("C31", "registries", Registries, Opts(60000, 1000000, "at least three successful creations or refused registrations"));

// --------------------------------------------------------------------------- instruction trees
struct T
{
  const Instruction* i;
  std::vector<std::unique_ptr<T>> kids;
};

void SameTree(pbt::Case& c, const T& m, const InstructionTree& t)
{
  PCHECK(c, t.GetInstruction() == m.i && t.IsEmpty() == (m.i == nullptr), "a node of the tree has another instruction");
  auto kids = t.GetChildren();
  auto instr = t.GetChildInstructions();
  PCHECK(c, kids.size() == m.kids.size() && instr.size() == m.kids.size(), "a node of the tree has ", kids.size(), " / ", instr.size(), " children instead of ", m.kids.size());
  for (size_t k = 0; k < kids.size(); ++k)
  {
    PCHECK(c, instr[k] == m.kids[k]->i, "the children of a node are in another order");
    SameTree(c, *m.kids[k], *kids[k]);
  }
}

void Trees(pbt::Case& c)
{
  std::vector<std::unique_ptr<Instruction>> instr;
  for (int i = 0; i < 6; ++i) instr.push_back(GlobalInstructionRegistry().Create("Succeed"));
  auto pick = [&]() -> const Instruction* { return c.g.Coin(1, 12) ? nullptr : instr[c.g.Draw(instr.size())].get(); };
  struct Pair
  {
    std::unique_ptr<InstructionTree> t;
    std::unique_ptr<T> m;
  };
  std::vector<Pair> trees;
  int moves = 0, adds = 0;
  for (uint64_t s = 0, n = 2 + c.g.Draw(20); s < n; ++s)
  {
    const auto op = trees.empty() ? 0 : c.g.Draw(8);
    if (op == 0)
    {
      auto* i = pick();
      trees.push_back({std::make_unique<InstructionTree>(i), std::unique_ptr<T>(new T{i, {}})});
      PLOG(c) << "new tree\n";
    }
    else if (op == 1 || op == 2)  // move to a new one
    {
      auto k = c.g.Draw(trees.size());
      PLOG(c) << "move tree " << k << "\n";
      auto t = std::make_unique<InstructionTree>(std::move(*trees[k].t));
      if (c.g.Coin()) SameTree(c, *trees[k].m, *t);
      trees[k].t = std::move(t);
      ++moves;
    }
    else if (op == 3)  // assign
    {
      auto k = c.g.Draw(trees.size()), l = c.g.Draw(trees.size());
      if (k == l) continue;
      PLOG(c) << "assign tree " << k << " to " << l << "\n";
      *trees[l].t = std::move(*trees[k].t);
      trees[l].m = std::move(trees[k].m);
      trees.erase(trees.begin() + static_cast<long>(k));
      ++moves;
    }
    else if (op == 4)  // in a container
    {
      std::vector<InstructionTree> v;
      for (auto& p : trees) v.push_back(std::move(*p.t));
      PLOG(c) << "all in a vector\n";
      for (size_t k = 0; k < trees.size(); ++k)
      {
        SameTree(c, *trees[k].m, v[k]);
        trees[k].t = std::make_unique<InstructionTree>(std::move(v[k]));
      }
      ++moves;
    }
    else
    {
      auto k = c.g.Draw(trees.size());
      InstructionTree* t = trees[k].t.get();
      T* m = trees[k].m.get();
      while (!m->kids.empty() && c.g.Coin(2, 3))
      {
        auto j = c.g.Draw(m->kids.size());
        t = t->GetChildren()[j];
        m = m->kids[j].get();
      }
      auto* i = pick();
      auto* child = t->AddChildInstruction(i);
      m->kids.push_back(std::unique_ptr<T>(new T{i, {}}));
      PCHECK(c, child && child == t->GetChildren().back() && child->GetInstruction() == i, "adding a child returns another node");
      PLOG(c) << "add a child to tree " << k << "\n";
      ++adds;
    }
    for (auto& p : trees)
    {
      SameTree(c, *p.m, *p.t);
      std::vector<const Instruction*> bfs;
      std::deque<const T*> q{p.m.get()};
      std::vector<const Instruction*> leaves;
      while (!q.empty())
      {
        auto* m = q.front();
        q.pop_front();
        bfs.push_back(m->i);
        if (m->kids.empty()) leaves.push_back(m->i);
        for (auto& x : m->kids) q.push_back(x.get());
      }
      PCHECK(c, FlattenBFS(*p.t) == bfs, "flattened tree");
      PCHECK(c, GetLeaves(*p.t) == leaves, "leaves of the tree");
    }
  }
  try
  {
    (void)CreateFullInstructionTree(nullptr);
    c.Fail("a tree was made of nothing");
  }
  catch (const InvalidOperationException&)
  {
  }
  if (adds >= 3 && moves) c.NonTrivial();
}
OAC_FACET("C31", "trees", Trees, Opts(60000, 1000000, "at least three additions and a move"));

// ----------------------------------------------------------------------- attribute definitions
// Definitions are values: copies, moves and assignments in any order behave like those of a
// plain structure.
void Definitions(pbt::Case& c)
{
  struct D
  {
    std::string name, type;
    bool mandatory;
    AttributeCategory cat;
  };
  struct Pair
  {
    std::unique_ptr<AttributeDefinition> d;
    std::unique_ptr<D> m;  // nullptr: moved from
  };
  const std::vector<sup::dto::AnyType> types{sup::dto::StringType, sup::dto::BooleanType, sup::dto::UnsignedInteger32Type, sup::dto::Float64Type};
  std::vector<Pair> all;
  int assigned = 0, revived = 0;
  auto cats = std::vector<AttributeCategory>{AttributeCategory::kLiteral, AttributeCategory::kVariableName, AttributeCategory::kBoth};
  for (uint64_t s = 0, n = 4 + c.g.Draw(24); s < n; ++s)
  {
    const auto op = all.empty() ? 0 : c.g.Draw(9);
    auto k = all.empty() ? 0 : c.g.Draw(all.size());
    auto l = all.empty() ? 0 : c.g.Draw(all.size());
    if (op <= 1)
    {
      auto name = c.g.Pick(std::vector<std::string>{"a", "b", "", "long name of an attribute that is on the heap"});
      auto& t = c.g.Pick(types);
      all.push_back({std::make_unique<AttributeDefinition>(name, t), std::unique_ptr<D>(new D{name, t.GetTypeName(), false, AttributeCategory::kLiteral})});
      PLOG(c) << "new definition '" << name << "'\n";
    }
    else if (op == 2 && all[k].m)
    {
      PLOG(c) << "copy of " << k << "\n";
      auto copy = std::make_unique<AttributeDefinition>(*all[k].d);
      auto m = std::make_unique<D>(*all[k].m);
      all.push_back({std::move(copy), std::move(m)});
    }
    else if (op == 3 && all[k].m)
    {
      PLOG(c) << "move of " << k << "\n";
      auto to = std::make_unique<AttributeDefinition>(std::move(*all[k].d));
      auto m = std::move(all[k].m);
      all.push_back({std::move(to), std::move(m)});
    }
    else if (op == 4 && all[k].m)
    {
      PLOG(c) << "assign " << k << " to " << l << "\n";
      auto& r = (*all[l].d = *all[k].d);
      PCHECK(c, &r == all[l].d.get(), "assignment returns another object");
      if (!all[l].m) ++revived;
      if (k != l) all[l].m = std::make_unique<D>(*all[k].m);
      ++assigned;
    }
    else if (op == 5 && all[k].m && k != l)
    {
      PLOG(c) << "move " << k << " to " << l << "\n";
      *all[l].d = std::move(*all[k].d);
      if (!all[l].m) ++revived;
      all[l].m = std::move(all[k].m);
      ++assigned;
    }
    else if (op == 6 && all[k].m)
    {
      const bool on = c.g.Coin();
      auto& r = on && c.g.Coin() ? all[k].d->SetMandatory() : all[k].d->SetMandatory(on);
      PCHECK(c, &r == all[k].d.get(), "SetMandatory returns another object");
      all[k].m->mandatory = on;
      PLOG(c) << "mandatory " << k << " " << on << "\n";
    }
    else if (op == 7 && all[k].m)
    {
      auto cat = c.g.Pick(cats);
      auto& r = all[k].d->SetCategory(cat);
      PCHECK(c, &r == all[k].d.get(), "SetCategory returns another object");
      all[k].m->cat = cat;
      PLOG(c) << "category " << k << "\n";
    }
    else if (op == 8)
    {
      PLOG(c) << "destroy " << k << "\n";
      all.erase(all.begin() + static_cast<long>(k));
    }
    for (size_t i = 0; i < all.size(); ++i)
    {
      if (!all[i].m) continue;
      auto& d = *all[i].d;
      auto& m = *all[i].m;
      PCHECK(c, d.GetName() == m.name, "the name of definition ", i, " is ", d.GetName(), " instead of ", m.name);
      PCHECK(c, d.GetType().GetTypeName() == m.type, "the type of definition ", i, " is ", d.GetType().GetTypeName());
      PCHECK(c, d.IsMandatory() == m.mandatory, "definition ", i, " is ", d.IsMandatory() ? "" : "not ", "mandatory");
      PCHECK(c, d.GetCategory() == m.cat, "definition ", i, " has another category");
    }
  }
  if (assigned >= 2) c.NonTrivial();
  if (revived) c.Label("assigned to a definition that was moved from");
}
OAC_FACET("C31", "definitions", Definitions, Opts(60000, 1000000, "at least two assignments"));

// Attributes of instructions, variables, procedures and of a handler of its own, by histories.
class PlainVariable : public Variable
{
public:
  PlainVariable() : Variable("PlainVariable") {}
private:
  bool GetValueImpl(sup::dto::AnyValue&) const override { return false; }
  bool SetValueImpl(const sup::dto::AnyValue&) override { return false; }
};

void Attributes(pbt::Case& c)
{
  enum { kInstr, kVar, kProc, kHandler };
  const int kind = static_cast<int>(c.g.Draw(4));
  static const char* const kinds[] = {"instruction", "variable", "procedure", "handler"};
  c.Label(kinds[kind]);
  auto instr = GlobalInstructionRegistry().Create("Wait");
  PlainVariable var;
  Procedure proc;
  AttributeHandler handler;
  StringAttributeList model;
  static const std::vector<std::string> keys{"name", "a", "A", "ab", "", "a b", "isRoot", "tickTimeout", std::string("a\0", 2), "a\n"};
  static const std::vector<std::string> values{"", "1", "0.25", "true", "x", " x", "<&>\"'", std::string("x\0y", 3), "@a", "$a"};
  auto find = [&](const std::string& k) {
    return std::find_if(model.begin(), model.end(), [&](auto& a) { return a.first == k; });
  };
  int refused = 0, changed = 0;
  int ops = 0;
  while (ops < 40 && (ops < 2 || c.g.More(12)))
  {
    ++ops;
    auto key = c.g.Pick(keys);
    auto value = c.g.Draw(12) == 11 ? std::string(c.g.Draw(3000), 'v') : c.g.Pick(values);
    auto it = find(key);
    const bool there = it != model.end();
    const auto op = c.g.Draw(8);
    if (op < 3)
    {
      bool added = false;
      switch (kind)
      {
      case kInstr: added = instr->AddAttribute(key, value); break;
      case kVar: added = var.AddAttribute(key, value); break;
      case kProc: added = proc.AddAttribute(key, value); break;
      default: added = handler.AddStringAttribute(key, value);
      }
      PLOG(c) << "add [" << key << "] = [" << value << "] " << added << "\n";
      PCHECK(c, added == !there, "adding an attribute that is ", there ? "" : "not ", "there gives ", added);
      if (!there) model.emplace_back(key, value);
      else ++refused;
    }
    else if (op < 5 && kind != kHandler)
    {
      StringAttributeList list;
      bool ok = true;
      while (list.size() < 8 && (list.empty() || c.g.More(3))) list.emplace_back(c.g.Pick(keys), c.g.Pick(values));
      for (auto& [k, v] : list)
      {
        PLOG(c) << "list [" << k << "] = [" << v << "]\n";
        if (find(k) == model.end()) model.emplace_back(k, v);
        else
        {
          ok = false;
          ++refused;
        }
      }
      bool added = kind == kInstr ? instr->AddAttributes(list) : kind == kVar ? var.AddAttributes(list) : proc.AddAttributes(list);
      PCHECK(c, added == ok, "adding attributes ", ok ? "none" : "some", " of which are there gives ", added);
    }
    else if (op < 7 && (kind == kInstr || kind == kHandler))
    {
      PLOG(c) << "set [" << key << "] = [" << value << "]\n";
      if (kind == kInstr)
      {
        PCHECK(c, instr->SetAttribute(key, value) == there, "setting an attribute that is ", there ? "" : "not ", "there");
        if (there) it->second = value;
      }
      else
      {
        handler.SetStringAttribute(key, value);
        if (there) it->second = value;
        else model.emplace_back(key, value);
      }
      if (there) ++changed;
    }
    else if (kind == kInstr || kind == kVar)
    {
      PLOG(c) << "name [" << value << "]\n";
      it = find("name");
      if (kind == kInstr)
      {
        instr->SetName(value);
        if (it == model.end()) model.emplace_back("name", value);
        else it->second = value;
      }
      else
      {
        var.SetName(value);
        if (it == model.end()) model.emplace_back("name", value);
      }
      ++changed;
    }
    const auto& all = kind == kInstr ? instr->GetStringAttributes() : kind == kVar ? var.GetStringAttributes()
      : kind == kProc ? proc.GetStringAttributes() : handler.GetStringAttributes();
    if (all != model)
    {
      std::string got, want;
      for (auto& [k, v] : all) got += " [" + k + "]=[" + v + "]";
      for (auto& [k, v] : model) want += " [" + k + "]=[" + v + "]";
      c.Fail("the attributes of the " + std::string(kinds[kind]) + " are" + got + "\n  expected" + want);
    }
    for (auto& k : keys)
    {
      auto f = find(k);
      const bool has = kind == kInstr ? instr->HasAttribute(k) : kind == kVar ? var.HasAttribute(k)
        : kind == kProc ? proc.HasAttribute(k) : handler.HasStringAttribute(k);
      const auto text = kind == kInstr ? instr->GetAttributeString(k) : kind == kVar ? var.GetAttributeString(k)
        : kind == kProc ? proc.GetAttributeString(k) : GetStringAttributeValue(handler.GetStringAttributes(), k);
      PCHECK(c, has == (f != model.end()), "attribute [", k, "] is ", has ? "" : "not ", "there");
      PCHECK(c, text == (f == model.end() ? "" : f->second), "attribute [", k, "] is [", text, "]");
    }
    auto name = find("name");
    const auto want = name == model.end() ? "" : name->second;
    if (kind == kInstr) PCHECK(c, instr->GetName() == want, "the name is [", instr->GetName(), "]");
    if (kind == kVar) PCHECK(c, var.GetName() == want, "the name is [", var.GetName(), "]");
    if (kind == kProc)
    {
      PCHECK(c, GetProcedureName(proc) == want, "the name is [", GetProcedureName(proc), "]");
      auto text = [&](const std::string& k, std::string& v) {
        try
        {
          v = proc.GetAttributeValue<std::string>(k);
          return true;
        }
        catch (const RuntimeException&)
        {
          return false;
        }
      };
      for (auto& k : keys)
      {
        if (k == "tickTimeout") continue;
        std::string v;
        auto f = find(k);
        PCHECK(c, text(k, v) == (f != model.end()), "the value of attribute [", k, "]");
        if (f != model.end()) PCHECK(c, v == f->second, "the value of attribute [", k, "] is [", v, "]");
      }
    }
  }
  if (refused && (changed || kind == kProc)) c.NonTrivial();
}
OAC_FACET("C31", "attributes", Attributes, Opts(40000, 800000, "an attribute was refused since it was there, and one changed"));

struct Init
{
  Init()
  {
    pbt::SetWorkerInit([] {
      auto& reg = GlobalInstructionRegistry();
      if (!reg.IsRegisteredInstructionName("CProbe"))
        reg.RegisterInstruction("CProbe", []() -> Instruction* { return new CProbe(); });
    });
  }
} init;
}  // namespace
