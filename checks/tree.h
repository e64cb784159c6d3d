// Random instruction trees with scripted leaves, and an independent interpreter for them.
#ifndef VERIF_TREE_H_
#define VERIF_TREE_H_

#include "oac.h"

#include <sup/oac-tree/user_input_reply.h>
#include <sup/oac-tree/user_input_request.h>

#include <algorithm>
#include <map>

namespace tree
{
using namespace oac;

enum Kind { kProbe, kSucceed, kFail, kSeq, kFb, kRSeq, kRFb, kInv, kForce, kRepeat, kFor, kChoice, kListen, kInclude, kCond, kUChoice, kParallel, kAsync, kXml, kNumKinds };

inline const char* KindName(Kind k)
{
  static const char* names[] = {"VProbe", "Succeed", "Fail", "Sequence", "Fallback", "ReactiveSequence", "ReactiveFallback",
    "Inverter", "ForceSuccess", "Repeat", "For", "Choice", "Listen", "Include", "Condition", "UserChoice", "ParallelSequence", "Async", "?"};
  return names[k];
}

// ------------------------------------------------------------------------------ workspace model
struct Val
{
  bool array = false;
  std::vector<int64_t> v;
  bool operator==(const Val& o) const { return array == o.array && v == o.v; }
};

using Ws = std::map<std::string, Val>;

struct VarSpec
{
  std::string name, elem;  // element type
  bool array;
  Val init;
};

inline Node VarNode(const VarSpec& s)
{
  std::string val;
  auto one = [&](int64_t x) { return s.elem == "bool" ? std::string(x ? "true" : "false") : std::to_string(x); };
  if (!s.array)
    return LocalVar(s.name, "{\"type\":\"" + s.elem + "\"}", one(s.init.v[0]));
  val = "[";
  for (size_t i = 0; i < s.init.v.size(); ++i) val += (i ? "," : "") + one(s.init.v[i]);
  val += "]";
  return LocalVar(s.name, "{\"type\":\"" + s.elem + "_arr\",\"multiplicity\":" + std::to_string(s.init.v.size())
                            + ",\"element\":{\"type\":\"" + s.elem + "\"}}", val);
}

inline void AssignScalar(AnyValue& a, const std::string& elem, int64_t x)
{
  if (elem == "bool") a = static_cast<sup::dto::boolean>(x != 0);
  else if (elem == "uint32") a = static_cast<sup::dto::uint32>(x);
  else a = static_cast<sup::dto::int32>(x);
}

inline AnyValue MakeValue(const VarSpec& s, const Val& v)
{
  auto t = s.elem == "bool" ? sup::dto::BooleanType : s.elem == "uint32" ? sup::dto::UnsignedInteger32Type : sup::dto::SignedInteger32Type;
  if (!s.array)
  {
    AnyValue a(t);
    AssignScalar(a, s.elem, v.v[0]);
    return a;
  }
  AnyValue a(v.v.size(), t, s.elem + "_arr");
  for (size_t i = 0; i < v.v.size(); ++i) AssignScalar(a[i], s.elem, v.v[i]);
  return a;
}

// --------------------------------------------------------------------------------- descriptions
struct Step
{
  ES status;
  int var = -1;  // index into Spec::vars that is set before returning
  Val val;
  int work = 0;  // concurrent checks: > 0: this many milliseconds, < 0: until told to halt
};

struct Script
{
  std::vector<Step> steps;
  uint64_t init_fail = 0;  // bit n: n-th initialisation fails
};

struct Reply
{
  int delay;   // number of operations before the reply is there
  bool null;   // the request is refused
  bool result;
  int choice;
};

struct D  // description of one node
{
  Kind k;
  int pid = -1;        // probes
  std::string var;     // attribute value (variable name, maxCount, included name)
  std::string var2;
  bool flag = false;
  int max = 0;
  std::vector<D> kids;
  Node x;  // kXml: the whole leaf
};

struct Spec
{
  std::vector<D> libs;  // top level named L0, L1...
  D root;
  std::vector<VarSpec> vars;
  std::vector<Script> scripts;
  std::vector<Reply> replies;
  bool dyn = false;  // also a variable of dynamic type
};

inline Node ToNode(const D& d, const std::string& name)
{
  Node n = d.k == kXml ? d.x : Node(KindName(d.k));
  if (!name.empty()) n.A("name", name);
  switch (d.k)
  {
  case kProbe: n.A("pid", std::to_string(d.pid)); break;
  case kRepeat:
    if (d.var != "none") n.A("maxCount", d.var);
    break;
  case kFor: n.A("arrayVar", d.var).A("elementVar", d.var2); break;
  case kChoice:
  case kCond: n.A("varName", d.var); break;
  case kListen:
    n.A("varNames", d.var);
    if (d.flag) n.A("forceSuccess", "true");
    break;
  case kInclude: n.A("path", d.var); break;
  case kParallel:
    if (!d.var.empty()) n.A("successThreshold", d.var);
    if (!d.var2.empty()) n.A("failureThreshold", d.var2);
    break;
  default: break;
  }
  for (auto& kd : d.kids) n.K(ToNode(kd, ""));
  return n;
}

inline std::string SpecXml(const Spec& s)
{
  std::vector<Node> top;
  for (size_t i = 0; i < s.libs.size(); ++i) top.push_back(ToNode(s.libs[i], "L" + std::to_string(i)));
  auto r = ToNode(s.root, "root");
  r.A("isRoot", "true");
  top.push_back(r);
  std::vector<Node> vars;
  if (s.dyn) vars.push_back(LocalVar("dyn", "", "").A("dynamicType", "true"));
  for (auto& v : s.vars) vars.push_back(VarNode(v));
  return ProcXml(top, vars);
}

// ------------------------------------------------------------------------------------ generator
struct GenOpts
{
  bool async_leaves = true;  // leaves may return RUNNING
  bool vars = true;          // leaves change variables
  bool user = true;
  bool listen = true;
  bool init_failures = true;
  int max_nodes = 14;
  std::vector<Kind> focus;   // these kinds are preferred
  bool repeated_choice = true;
  bool any_leaves = false;   // all kinds of leaf instructions (not understood by the model)
  bool parallel = false;     // ParallelSequence and Async (not understood by the model)
  bool timed = false;        // waits with real timeouts
  bool endless_wait = false; // blocking waits that only end when halted
  int work = 0;              // leaves that take time: 1 finite, 2 also until halted
};

class Maker
{
public:
  Maker(pbt::Case& c, const GenOpts& o) : c(c), g(c.g), o(o) {}

  Spec Make()
  {
    MakeVars();
    s.dyn = o.any_leaves;
    int nlib = static_cast<int>(g.Draw(3));
    for (int i = 0; i < nlib; ++i)
    {
      m_budget = 4;
      s.libs.push_back(Tree(2, i));
    }
    m_budget = 2 + static_cast<int>(g.Draw(o.max_nodes));
    s.root = Tree(4, nlib, true);
    int nrep = 6;
    for (int i = 0; i < nrep; ++i)
    {
      Reply r{};
      r.delay = static_cast<int>(g.Draw(4));
      r.null = g.Coin(1, 12);
      r.result = !g.Coin(1, 10);
      r.choice = static_cast<int>(g.Range(0, 4)) - (g.Coin(1, 10) ? 3 : 0);
      s.replies.push_back(r);
    }
    return s;
  }

private:
  void MakeVars()
  {
    auto add = [&](const char* n, const char* e, bool arr, std::vector<int64_t> v) {
      VarSpec vs{n, e, arr, Val{arr, std::move(v)}};
      s.vars.push_back(vs);
    };
    add("b0", "bool", false, {static_cast<int64_t>(g.Draw(2))});
    add("b1", "bool", false, {static_cast<int64_t>(g.Draw(2))});
    add("n0", "int32", false, {g.Range(0, 3)});
    add("n1", "int32", false, {g.Range(0, 5) - 1});
    add("c0", "uint32", false, {g.Range(0, 3)});
    add("ca", "uint32", true, Indices(1 + g.Draw(3)));
    std::vector<int64_t> f;
    for (uint64_t i = 0, n = 1 + g.Draw(3); i < n; ++i) f.push_back(g.Range(-2, 9));
    add("fa", "int32", true, f);
    add("e0", "int32", false, {77});
  }

  std::vector<int64_t> Indices(size_t n)
  {
    std::vector<int64_t> pool{0, 1, 2, 3}, r;
    for (size_t i = 0; i < n; ++i)
    {
      auto k = g.Draw(pool.size());
      r.push_back(pool[k]);
      if (!o.repeated_choice) pool.erase(pool.begin() + k);
    }
    return r;
  }

  Val NewVal(const VarSpec& v)
  {
    Val r;
    r.array = v.array;
    if (v.name == "ca") r.v = Indices(v.init.v.size());
    else
      for (size_t i = 0; i < v.init.v.size(); ++i)
        r.v.push_back(v.elem == "bool" ? static_cast<int64_t>(g.Draw(2)) : v.elem == "uint32" ? g.Range(0, 3) : g.Range(-1, 4));
    return r;
  }

  D Leaf()
  {
    D d;
    if (o.any_leaves && g.Coin(1, 2))
    {
      d.k = kXml;
      d.x = AnyLeaf();
      return d;
    }
    uint64_t r = g.Draw(10);
    if (r < 7)
    {
      d.k = kProbe;
      d.pid = static_cast<int>(s.scripts.size());
      Script sc;
      uint64_t n = 1 + g.Draw(4);
      for (uint64_t i = 0; i < n; ++i)
      {
        Step st;
        static const std::vector<ES> sync{ES::SUCCESS, ES::FAILURE, ES::SUCCESS, ES::NOT_FINISHED};
        static const std::vector<ES> async{ES::SUCCESS, ES::FAILURE, ES::RUNNING, ES::SUCCESS, ES::NOT_FINISHED, ES::RUNNING};
        st.status = g.Pick(o.async_leaves ? async : sync);
        if (o.vars && g.Coin(1, 4))
        {
          st.var = static_cast<int>(g.Draw(s.vars.size()));
          st.val = NewVal(s.vars[st.var]);
        }
        if (o.work && g.Coin(1, 2)) st.work = static_cast<int>(1 + g.Draw(30));
        if (o.work > 1 && g.Coin(1, 4)) st.work = -1;
        sc.steps.push_back(st);
      }
      if (o.init_failures && g.Coin(1, 10)) sc.init_fail = 1ull << g.Draw(3);
      s.scripts.push_back(sc);
    }
    else if (r == 7) d.k = kSucceed;
    else if (r == 8) d.k = kFail;
    else
    {
      d.k = kCond;
      d.var = g.Pick(std::vector<std::string>{"b0", "b1", "n0", "nope"});
    }
    return d;
  }

  Node AnyLeaf()
  {
    auto num = [&] { return g.Pick(std::vector<std::string>{"n0", "n1", "e0", "c0"}); };
    auto any = [&] { return g.Pick(std::vector<std::string>{"n0", "n1", "b0", "b1", "fa", "e0", "nope", "dyn"}); };
    auto time = [&] { return o.timed ? g.Pick(std::vector<std::string>{"0.05", "0.0", "0.3", "1000"}) : g.Pick(std::vector<std::string>{"0.0", "1000"}); };
    switch (g.Draw(19))
    {
    case 0: return Node("Increment", {{"varName", num()}});
    case 1: return Node("Decrement", {{"varName", num()}});
    case 2: return Node("Copy", {{"inputVar", any()}, {"outputVar", any()}});
    case 3: return Node("Equals", {{"leftVar", any()}, {"rightVar", any()}});
    case 4: return Node("LessThan", {{"leftVar", num()}, {"rightVar", num()}});
    case 5: return Node("GreaterThanOrEqual", {{"leftVar", num()}, {"rightVar", num()}});
    case 6: return Node("ResetVariable", {{"varName", any()}});
    case 7: return Node("VarExists", {{"varName", any()}});
    case 8: return Node("Message", {{"text", g.Coin(1, 2) ? "hello" : "@n0"}});
    case 9: return Node("Log", {{"message", g.Coin(1, 2) ? "text" : "other text"}, {"severity", "WARNING"}, {"inputVar", any()}});
    case 10: return Node("Output", {{"fromVar", any()}, {"description", "out"}});
    case 11:
    case 12: return Node("Input", {{"outputVar", any()}, {"description", "in"}});
    case 13: return Node("UserConfirmation", {{"description", "sure?"}});
    case 14: return Node("Wait", {{"timeout", time()}});
    case 15:
    {
      Node n("Wait", {{"timeout", o.endless_wait ? time() : o.timed ? "0.07" : "0.0"}, {"blocking", "true"}});
      return n;
    }
    case 16:
    {
      Node n("WaitForVariable", {{"varName", any()}, {"timeout", time()}});
      if (g.Coin(1, 2)) n.A("equalsVar", any());
      return n;
    }
    case 17: return Node("AddElement", {{"inputVar", num()}, {"outputVar", "dyn"}});
    default: return Node("Copy", {{"inputVar", any()}, {"outputVar", "dyn"}});
    }
  }

  D Tree(int depth, int nlib, bool root = false)
  {
    --m_budget;
    if (depth == 0 || m_budget <= 0 || (!root && g.Coin(1, 4))) return Leaf();
    static const std::vector<Kind> all{kSeq, kFb, kRSeq, kRFb, kInv, kForce, kRepeat, kFor, kChoice, kListen, kInclude, kUChoice};
    Kind k = (!o.focus.empty() && g.Coin(2, 3)) ? g.Pick(o.focus) : g.Pick(all);
    if (o.parallel && g.Coin(1, 3)) k = g.Coin(1, 3) ? kAsync : kParallel;
    if (k == kInclude && nlib == 0) k = kSeq;
    if (k == kUChoice && !o.user) k = kFb;
    if (k == kListen && !o.listen) k = kInv;
    D d;
    d.k = k;
    switch (k)
    {
    case kSeq: case kFb: case kRSeq: case kRFb: case kChoice: case kUChoice: case kParallel:
    {
      if (k == kParallel)
      {
        if (g.Coin(1, 2)) d.var = std::to_string(g.Range(0, 4));
        if (g.Coin(1, 2)) d.var2 = std::to_string(g.Range(1, 4));
      }
      uint64_t n = 1 + g.Draw(4);
      for (uint64_t i = 0; i < n; ++i) d.kids.push_back(Tree(depth - 1, nlib));
      if (k == kChoice) d.var = g.Pick(std::vector<std::string>{"ca", "c0", "ca", "nope"});
      break;
    }
    case kInclude: d.var = "L" + std::to_string(g.Draw(nlib)); break;
    default:
      if (k == kRepeat) d.var = g.Pick(std::vector<std::string>{"2", "3", "1", "0", "-1", "@n0", "@n1", "none", "@nope"});
      if (k == kFor)
      {
        d.var = g.Pick(std::vector<std::string>{"fa", "fa", "fa", "fa", "n0", "nope"});
        d.var2 = g.Pick(std::vector<std::string>{"e0", "e0", "e0", "e0", "b0", "nope"});
      }
      if (k == kListen)
      {
        d.var = g.Pick(std::vector<std::string>{"b0", "n0", "b0,n0", "fa", "e0,n1", "nope", "nope,b1", "b0,,n1,"});
        d.flag = g.Coin(1, 2);
      }
      d.kids.push_back(Tree(depth - 1, nlib));
    }
    return d;
  }

  pbt::Case& c;
  pbt::Gen& g;
  GenOpts o;
  Spec s;
  int m_budget = 0;
};

// -------------------------------------------------------------------------------------- events
struct Event
{
  enum T { kNotify, kExec, kInit, kHalted, kRequest, kOther } t;
  int node;
  int a;            // status or ordinal
  std::string ctx;  // what the leaf saw
  bool operator==(const Event& o) const { return t == o.t && node == o.node && a == o.a && ctx == o.ctx; }
  bool operator<(const Event& o) const { return std::tie(t, node, a, ctx) < std::tie(o.t, o.node, o.a, o.ctx); }
};

inline std::string Show(const Event& e)
{
  switch (e.t)
  {
  case Event::kNotify: return "#" + std::to_string(e.node) + ":" + St(static_cast<ES>(e.a));
  case Event::kExec: return "exec#" + std::to_string(e.node) + "[" + e.ctx + "]->" + St(static_cast<ES>(e.a));
  case Event::kInit: return "init#" + std::to_string(e.node);
  case Event::kHalted: return "halted#" + std::to_string(e.node);
  case Event::kOther: return e.ctx;
  case Event::kRequest: return "request#" + std::to_string(e.a) + "(" + e.ctx + ")";
  }
  return "?";
}

inline std::string Show(const std::vector<Event>& v)
{
  std::string r;
  for (auto& e : v) r += " " + Show(e);
  return r;
}

// The order among the notifications of one reset, and among the leaves told to halt, is not
// specified: sorted here.
inline std::vector<Event> Normal(std::vector<Event> v)
{
  auto is_reset = [](const Event& e) { return (e.t == Event::kNotify && e.a == static_cast<int>(ES::NOT_STARTED)) || e.t == Event::kHalted; };
  for (size_t i = 0; i < v.size();)
  {
    if (!is_reset(v[i]))
    {
      ++i;
      continue;
    }
    size_t j = i;
    while (j < v.size() && is_reset(v[j])) ++j;
    std::sort(v.begin() + i, v.begin() + j);
    auto same = [](const Event& a, const Event& b) { return a == b && a.t == Event::kHalted; };
    v.erase(std::unique(v.begin() + i, v.begin() + j, same), v.begin() + j);
    while (i < v.size() && is_reset(v[i])) ++i;
  }
  return v;
}

// --------------------------------------------------------------------------------------- model
struct M
{
  const D* d;
  int id;
  std::vector<std::unique_ptr<M>> kids;
  ES st = ES::NOT_STARTED;
  bool halt = false;
  int count = 0, max = 0;
  std::vector<int> list;
  bool list_init = false;
  size_t cur = 0;
  bool arr_ok = false;
  Val arr;
  std::map<std::string, std::pair<bool, Val>> cache;
  bool force = false;
  int choice = -1;
  int fut = -1;
  size_t pos = 0, inits = 0;
  const Instruction* real = nullptr;
};

inline std::string Trim(const std::string& s)
{
  size_t b = s.find_first_not_of(' '), e = s.find_last_not_of(' ');
  return b == std::string::npos ? "" : s.substr(b, e - b + 1);
}

class Model
{
public:
  explicit Model(const Spec& spec) : s(spec)
  {
    ResetVars();
    root = Build(s.root);
  }
  void ResetVars()
  {
    ws.clear();
    for (auto& v : s.vars) ws[v.name] = v.init;
  }
  std::unique_ptr<M> Build(const D& d)
  {
    auto m = std::make_unique<M>();
    m->d = &d;
    m->id = static_cast<int>(nodes.size());
    nodes.push_back(m.get());
    if (d.k == kInclude) m->kids.push_back(Build(s.libs[d.var[1] - '0']));
    for (auto& kd : d.kids) m->kids.push_back(Build(kd));
    return m;
  }
  void Notify(M& m) { ev.push_back({Event::kNotify, m.id, static_cast<int>(m.st), ""}); }

  void Exec(M& m)
  {
    if (m.st == ES::NOT_STARTED)
    {
      m.st = Init(m) ? ES::NOT_FINISHED : ES::FAILURE;
      Notify(m);
    }
    ES before = m.st;
    bool fin = before == ES::SUCCESS || before == ES::FAILURE;
    if (!fin && !m.halt) m.st = Impl(m);
    if (m.st != before) Notify(m);
  }

  bool Init(M& m)
  {
    switch (m.d->k)
    {
    case kProbe:
    {
      ev.push_back({Event::kInit, m.id, 0, ""});
      bool ok = m.inits >= 64 || !((s.scripts[m.d->pid].init_fail >> m.inits) & 1);
      ++m.inits;
      return ok;
    }
    case kRepeat:
    {
      m.count = 0;
      m.max = 0;
      if (m.d->var == "none") return true;
      if (m.d->var[0] == '@')
      {
        auto it = ws.find(m.d->var.substr(1));
        if (it == ws.end()) return false;
        m.max = static_cast<int>(it->second.v[0]);
      }
      else m.max = std::stoi(m.d->var);
      if (m.max < 0) m.max = -1;
      return true;
    }
    case kFor:
    {
      m.count = 0;
      auto it = ws.find(m.d->var);
      if (it == ws.end()) return false;
      m.arr = it->second;
      return true;
    }
    case kListen:
    {
      m.cache.clear();
      std::string v = m.d->var;
      size_t b = 0;
      while (true)
      {
        auto e = v.find(',', b);
        if (auto nm = v.substr(b, e == std::string::npos ? e : e - b); !nm.empty()) m.cache[nm] = {false, {}};
        if (e == std::string::npos) break;
        b = e + 1;
      }
      m.force = m.d->flag;
      return true;
    }
    case kUChoice:
    {
      int r = requests++;
      ev.push_back({Event::kRequest, 0, r, std::to_string(m.kids.size())});
      auto& rep = s.replies[r % s.replies.size()];
      if (rep.null) return false;
      m.fut = r;
      ready_at[r] = now + rep.delay;
      return true;
    }
    default: return true;
    }
  }

  static bool Done(ES st) { return st == ES::SUCCESS || st == ES::FAILURE; }

  // A sequence over the children with the given indices; `good` is the status that lets it go on.
  ES Line(M& m, const std::vector<int>& idx, ES good, bool reactive)
  {
    for (int i : idx)
    {
      auto& k = *m.kids[i];
      if (k.st == good) continue;
      if (!Done(k.st))
      {
        Exec(k);
        if (reactive && k.st == ES::RUNNING)
        {
          for (auto& o : m.kids)
            if (o.get() != &k) Reset(*o);
          return ES::RUNNING;
        }
      }
      break;
    }
    for (int i : idx)
    {
      auto& k = *m.kids[i];
      if (k.st == good) continue;
      return (k.st == ES::NOT_STARTED || k.st == ES::NOT_FINISHED) ? ES::NOT_FINISHED : k.st;
    }
    return good;
  }

  std::vector<int> All(const M& m)
  {
    std::vector<int> r;
    for (size_t i = 0; i < m.kids.size(); ++i) r.push_back(static_cast<int>(i));
    return r;
  }

  ES Loop(M& m, int max)
  {
    auto& k = *m.kids[0];
    if (k.st == ES::SUCCESS) Reset(k);
    Exec(k);
    if (max > 0 && Done(k.st)) ++m.count;
    if (k.st == ES::SUCCESS) return m.count == max ? ES::SUCCESS : ES::NOT_FINISHED;
    return k.st;
  }

  ES Impl(M& m)
  {
    switch (m.d->k)
    {
    case kProbe:
    {
      auto& sc = s.scripts[m.d->pid].steps;
      auto& st = sc[m.pos % sc.size()];
      ++m.pos;
      ev.push_back({Event::kExec, m.id, static_cast<int>(st.status), "e0=" + std::to_string(ws["e0"].v[0])});
      if (st.var >= 0) ws[s.vars[st.var].name] = st.val;
      return st.status;
    }
    case kSucceed: return ES::SUCCESS;
    case kFail: return ES::FAILURE;
    case kCond:
    {
      auto it = ws.find(m.d->var);
      return it != ws.end() && it->second.v[0] != 0 ? ES::SUCCESS : ES::FAILURE;
    }
    case kSeq: return Line(m, All(m), ES::SUCCESS, false);
    case kRSeq: return Line(m, All(m), ES::SUCCESS, true);
    case kFb: return Line(m, All(m), ES::FAILURE, false);
    case kRFb: return Line(m, All(m), ES::FAILURE, true);
    case kInv:
    {
      auto& k = *m.kids[0];
      if (!Done(k.st)) Exec(k);
      return k.st == ES::SUCCESS ? ES::FAILURE : k.st == ES::FAILURE ? ES::SUCCESS : k.st;
    }
    case kForce:
    {
      auto& k = *m.kids[0];
      Exec(k);
      return k.st == ES::FAILURE ? ES::SUCCESS : k.st;
    }
    case kInclude:
    {
      auto& k = *m.kids[0];
      if (!Done(k.st)) Exec(k);
      return k.st;
    }
    case kRepeat: return m.max == 0 ? ES::SUCCESS : Loop(m, m.max);
    case kFor:
    {
      if (!m.arr.array) return ES::FAILURE;
      auto it = ws.find(m.d->var2);
      if (it == ws.end() || m.d->var2 != "e0") return ES::FAILURE;
      it->second.v[0] = m.arr.v[m.count];
      return Loop(m, static_cast<int>(m.arr.v.size()));
    }
    case kChoice:
    {
      if (m.list.empty() && !m.list_init)
      {
        m.list_init = true;
        auto it = ws.find(m.d->var);
        if (it == ws.end()) return ES::FAILURE;
        for (auto i : it->second.v)
          if (i < 0 || i >= static_cast<int64_t>(m.kids.size())) return ES::FAILURE;
        for (auto i : it->second.v) m.list.push_back(static_cast<int>(i));
        return ES::NOT_FINISHED;
      }
      while (m.cur < m.list.size())
      {
        auto& k = *m.kids[m.list[m.cur]];
        Exec(k);
        if (k.st == ES::SUCCESS)
        {
          if (++m.cur == m.list.size()) break;
          if (Done(m.kids[m.list[m.cur]]->st)) Reset(*m.kids[m.list[m.cur]]);
          return ES::NOT_FINISHED;
        }
        return Ready(k.st) ? ES::NOT_FINISHED : k.st;
      }
      return ES::SUCCESS;
    }
    case kListen:
    {
      auto& k = *m.kids[0];
      if (k.st == ES::NOT_STARTED || Done(k.st))
      {
        if (Done(k.st)) Reset(k);
        bool changed = false;
        for (auto& [n, cv] : m.cache)
        {
          auto it = ws.find(n);
          if (it == ws.end() || (cv.first && cv.second == it->second)) continue;
          cv = {true, it->second};
          changed = true;
        }
        if (!changed) return ES::RUNNING;
      }
      Exec(k);
      if (k.st == ES::SUCCESS || (m.force && k.st == ES::FAILURE)) return ES::NOT_FINISHED;
      return k.st;
    }
    case kUChoice:
    {
      if (m.fut < 0) return ES::FAILURE;
      if (m.choice < 0)
      {
        if (now < ready_at[m.fut]) return ES::RUNNING;
        auto& r = s.replies[m.fut % s.replies.size()];
        if (!r.result || r.choice < 0 || r.choice >= static_cast<int>(m.kids.size())) return ES::FAILURE;
        m.choice = r.choice;
        return ES::NOT_FINISHED;
      }
      auto& k = *m.kids[m.choice];
      Exec(k);
      return k.st;
    }
    default: return ES::FAILURE;
    }
  }

  void Reset(M& m)
  {
    m.list.clear();
    m.list_init = false;
    m.cur = 0;
    m.cache.clear();
    m.choice = -1;
    m.fut = -1;
    for (auto& k : m.kids) Reset(*k);
    if (m.st != ES::NOT_STARTED)
    {
      m.st = ES::NOT_STARTED;
      Notify(m);
    }
    m.halt = false;
  }

  void Halt(M& m)
  {
    m.halt = true;
    if (m.d->k == kProbe) ev.push_back({Event::kHalted, m.id, 0, ""});
    for (auto& k : m.kids) Halt(*k);
  }

  static bool Ready(ES st) { return st == ES::NOT_STARTED || st == ES::NOT_FINISHED; }

  void Next(const M& m, std::vector<int>& out) const
  {
    out.push_back(m.id);
    std::vector<int> idx;
    ES good = (m.d->k == kFb || m.d->k == kRFb) ? ES::FAILURE : ES::SUCCESS;
    switch (m.d->k)
    {
    case kSeq: case kRSeq: case kFb: case kRFb:
      for (size_t i = 0; i < m.kids.size(); ++i) idx.push_back(static_cast<int>(i));
      break;
    case kChoice:
      if (m.cur < m.list.size()) idx = {m.list[m.cur]};
      break;
    case kUChoice:
      if (m.choice >= 0 && Ready(m.kids[m.choice]->st)) Next(*m.kids[m.choice], out);
      return;
    default:
      for (auto& k : m.kids) Next(*k, out);
      return;
    }
    for (int i : idx)
    {
      if (m.kids[i]->st == good) continue;
      if (Ready(m.kids[i]->st)) Next(*m.kids[i], out);
      return;
    }
  }

  const Spec& s;
  std::vector<M*> nodes;
  std::unique_ptr<M> root;
  Ws ws;
  std::vector<Event> ev;
  int requests = 0;
  int now = 0;
  std::map<int, int> ready_at;
};

// ---------------------------------------------------------------------------------------- real
class Real : public ProbeHub
{
public:
  Real(pbt::Case& c, const Spec& s) : c(c), s(s)
  {
    ui.on_status = [this](const Instruction* i) {
      ev.push_back({Event::kNotify, Id(i), static_cast<int>(i->GetStatus()), ""});
    };
    ui.on_request = [this](const UserInputRequest& r) -> std::unique_ptr<IUserInputFuture> {
      std::vector<std::string> options;
      AnyValue meta;
      bool ok = ParseUserChoiceRequest(r, options, meta);
      int n = requests++;
      ev.push_back({Event::kRequest, 0, n, ok ? std::to_string(options.size()) : "unparsable"});
      auto& rep = this->s.replies[n % this->s.replies.size()];
      if (rep.null) return std::make_unique<UnsupportedInputFuture>();
      auto f = std::make_unique<FnFuture>();
      int at = now + rep.delay;
      ++live;
      f->ready = [this, at]() { return now >= at; };
      f->value = [rep]() { return CreateUserChoiceReply(rep.result, rep.choice); };
      f->dropped = [this]() { --live; };
      return f;
    };
  }

  int Id(const Instruction* i)
  {
    auto it = ids.find(i);
    return it == ids.end() ? -1 : it->second;
  }
  bool Map(M& m, const Instruction* i)
  {
    ids[i] = m.id;
    m.real = i;
    auto k = i->ChildInstructions();
    if (k.size() != m.kids.size() || i->GetType() != (m.d->k == kXml ? m.d->x.type : KindName(m.d->k))) return false;
    for (size_t n = 0; n < k.size(); ++n)
      if (!Map(*m.kids[n], k[n])) return false;
    return true;
  }

  bool Init(VProbe& p, UserInterface&, Workspace&) override
  {
    int id = Id(&p);
    ev.push_back({Event::kInit, id, 0, ""});
    if (dirty[id]) c.Fail("a leaf was initialised again without having been reset");
    dirty[id] = true;
    auto n = inits[id]++;
    return n >= 64 || !((s.scripts[p.Pid()].init_fail >> n) & 1);
  }
  ES Exec(VProbe& p, UserInterface&, Workspace& w) override
  {
    int id = Id(&p);
    if (!dirty[id]) c.Fail("a leaf was executed without having been initialised");
    auto& sc = s.scripts[p.Pid()].steps;
    auto& st = sc[pos[id]++ % sc.size()];
    AnyValue e0;
    if (!w.GetValue("e0", e0)) c.Fail("leaf could not read e0");
    ev.push_back({Event::kExec, id, static_cast<int>(st.status), "e0=" + std::to_string(e0.As<sup::dto::int32>())});
    if (p.IsHaltRequested()) c.Fail("a leaf that was told to halt was executed");
    if (st.var >= 0 && !w.SetValue(s.vars[st.var].name, MakeValue(s.vars[st.var], st.val)))
      c.Fail("leaf could not write " + s.vars[st.var].name);
    return st.status;
  }
  void Halted(VProbe& p) override { ev.push_back({Event::kHalted, Id(&p), 0, ""}); }
  void ResetDone(VProbe& p, UserInterface&) override { dirty[Id(&p)] = false; }

  pbt::Case& c;
  const Spec& s;
  HookUI ui;
  std::map<const Instruction*, int> ids;
  std::vector<Event> ev;
  std::map<int, bool> dirty;
  std::map<int, size_t> pos, inits;
  int requests = 0;
  int now = 0;
  int live = 0;
};
}  // namespace tree
#endif
