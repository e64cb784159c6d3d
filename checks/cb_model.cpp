// C04: named callback manager, sequential histories against a reference model.
#include "pbt.h"

#include <sup/oac-tree/named_callback_manager.h>

#include <algorithm>
#include <functional>
#include <memory>
#include <string>
#include <vector>

using namespace sup::oac_tree;

namespace
{
struct Entry
{
  int id;
  int listener;  // index; 0 is the null listener
  std::string name;
  bool generic;
  bool throws;
};

struct Delivery
{
  int id;
  std::string name;
  std::string args;
};

const std::vector<std::string> kNames = {"a", "b", "", "aa", "A", "a ", "long variable name 0123456789",
                                         std::string("a\0b", 3), std::string(400, 'n') + "1", std::string(400, 'n') + "2"};

// Adapts the parameter list of the manager to a common text form.
struct NoArgs
{
  using Manager = NamedCallbackManager<>;
  using F = std::function<void(std::string, std::string)>;
  static std::function<void(const std::string&)> Generic(F f)
  { return [f](const std::string& n) { f(n, "()"); }; }
  static std::function<void()> Named(F f)
  { return [f] { f("", "()"); }; }
};

struct IntArg
{
  using Manager = NamedCallbackManager<int>;
  using F = std::function<void(std::string, std::string)>;
  static std::function<void(const std::string&, int)> Generic(F f)
  { return [f](const std::string& n, int v) { f(n, std::to_string(v)); }; }
  static std::function<void(int)> Named(F f)
  { return [f](int v) { f("", std::to_string(v)); }; }
};

struct ValueArgs
{
  using Manager = NamedCallbackManager<std::string, int>;
  using F = std::function<void(std::string, std::string)>;
  // receives by value and consumes: what it does to its copy must not reach anybody else
  static std::function<void(const std::string&, std::string, int)> Generic(F f)
  {
    return [f](const std::string& n, std::string s, int v) {
      std::string mine = std::move(s);
      s.clear();
      f(n, mine + "/" + std::to_string(v));
    };
  }
  static std::function<void(std::string, int)> Named(F f)
  {
    return [f](std::string s, int v) {
      std::string mine = std::move(s);
      s.clear();
      f("", mine + "/" + std::to_string(v));
    };
  }
};

struct RefArgs
{
  using Manager = NamedCallbackManager<const std::string&, bool>;
  using F = std::function<void(std::string, std::string)>;
  static std::function<void(const std::string&, const std::string&, bool)> Generic(F f)
  { return [f](const std::string& n, const std::string& s, bool b) { f(n, s + (b ? "+" : "-")); }; }
  static std::function<void(const std::string&, bool)> Named(F f)
  { return [f](const std::string& s, bool b) { f("", s + (b ? "+" : "-")); }; }
};

std::string Exec(const NoArgs::Manager& m, const std::string& n, const std::string&, int)
{ m.ExecuteCallbacks(n); return "()"; }
std::string Exec(const IntArg::Manager& m, const std::string& n, const std::string&, int v)
{ m.ExecuteCallbacks(n, v); return std::to_string(v); }
std::string Exec(const ValueArgs::Manager& m, const std::string& n, const std::string& s, int v)
{ m.ExecuteCallbacks(n, s, v); return s + "/" + std::to_string(v); }
std::string Exec(const RefArgs::Manager& m, const std::string& n, const std::string& s, int v)
{ m.ExecuteCallbacks(n, s, v & 1); return s + (v & 1 ? "+" : "-"); }
std::string Text(const NoArgs::Manager&, const std::string&, int) { return "()"; }
std::string Text(const IntArg::Manager&, const std::string&, int v) { return std::to_string(v); }
std::string Text(const ValueArgs::Manager&, const std::string& s, int v) { return s + "/" + std::to_string(v); }
std::string Text(const RefArgs::Manager&, const std::string& s, int v) { return s + (v & 1 ? "+" : "-"); }

template <typename A> void HistoryOf(pbt::Case& c)
{
  using Manager = typename A::Manager;
  auto m = std::make_unique<Manager>();
  int anchors[5];
  // Listeners are told apart by all of their address.
  const uint64_t keys = c.g.Draw(4);
  auto key = [&](int l) -> void* {
    if (l == 0) return nullptr;
    if (keys == 1) return reinterpret_cast<void*>(0x40 + (static_cast<uintptr_t>(l) << 32));
    if (keys == 2) return reinterpret_cast<void*>(0x7f0012345600 + static_cast<uintptr_t>(l - 1));
    return &anchors[l];
  };
  std::vector<Entry> model;
  std::vector<Delivery> got;
  std::vector<std::pair<int, ScopeGuard>> guards;
  int next_id = 0, n = 0, executed = 0, delivered_total = 0, removed = 0, thrown = 0, via_guard = 0;
  auto model_remove = [&](int l) {
    const auto before = model.size();
    std::vector<Entry> keep;
    for (auto& e : model)
      if (e.listener != l) keep.push_back(e);
    model = keep;
    return model.size() != before;
  };
  auto make = [&](int id, bool throws) {
    return [&got, id, throws](std::string name, std::string args) {
      got.push_back({id, name, args});
      if (throws) throw std::runtime_error("callback");
    };
  };
  auto execute = [&](const std::string& name, const std::string& s, int v) {
    got.clear();
    const std::string args = Text(*m, s, v);
    bool threw = false;
    try
    {
      Exec(*m, name, s, v);
    }
    catch (const std::runtime_error&)
    {
      threw = true;
    }
    std::vector<Entry> matching;
    bool any_throw = false;
    for (auto& e : model)
      if (e.generic || e.name == name)
      {
        matching.push_back(e);
        any_throw = any_throw || e.throws;
      }
    PLOG(c) << "Execute(\"" << name << "\", " << args << ") -> " << got.size() << " deliveries"
            << (threw ? ", exception" : "") << "\n";
    PCHECK(c, threw == any_throw, "exception of a callback: ", threw, " expected ", any_throw);
    std::vector<int> order_generic, order_named;
    for (auto& d : got)
    {
      const Entry* e = nullptr;
      for (auto& k : matching)
        if (k.id == d.id) e = &k;
      PCHECK(c, e, "callback ", d.id, " called although it is not registered for \"", name, "\"");
      PCHECK(c, d.args == args, "callback ", d.id, " got ", d.args, " instead of ", args);
      if (e->generic) PCHECK(c, d.name == name, "generic callback got name \"", d.name, "\"");
      (e->generic ? order_generic : order_named).push_back(d.id);
    }
    for (auto* o : {&order_generic, &order_named})
      for (size_t i = 1; i < o->size(); ++i)
        PCHECK(c, (*o)[i - 1] < (*o)[i], "called twice or not in registration order: ", (*o)[i]);
    if (!any_throw)
      PCHECK(c, got.size() == matching.size(), got.size(), " deliveries, ", matching.size(),
             " registered");
    else
      ++thrown;
    ++executed;
    delivered_total += static_cast<int>(got.size());
  };
  bool bulk = false;
  while (c.g.More(8 + 4 * c.g.Size()) && n < 500)
  {
    ++n;
    switch (c.g.Coin(1, 60) ? 8 : c.g.Draw(8))
    {
    case 0:
    case 1:
    {
      const int l = static_cast<int>(c.g.Draw(5));
      const std::string name = c.g.Pick(kNames);
      const bool empty = c.g.Coin(1, 10), throws = c.g.Coin(1, 25);
      bool r;
      if (empty) r = m->RegisterCallback(name, {}, key(l));
      else r = m->RegisterCallback(name, A::Named(make(next_id, throws)), key(l));
      PLOG(c) << "Register(\"" << name << "\", listener " << l << (empty ? ", no function" : "")
              << ") as " << next_id << " -> " << r << "\n";
      PCHECK(c, r == !empty, "RegisterCallback returned ", r);
      if (!empty) model.push_back({next_id++, l, name, false, throws});
      break;
    }
    case 8:  // many at once
    {
      if (bulk) break;
      bulk = true;
      const int l = static_cast<int>(c.g.Draw(5)), other = static_cast<int>(c.g.Draw(5)), count = 20 + static_cast<int>(c.g.Draw(280));
      const int every = 2 + static_cast<int>(c.g.Draw(20));
      const std::string name = c.g.Pick(kNames);
      PLOG(c) << count << " callbacks for \"" << name << "\" of listener " << l << ", each " << every << "th of " << other << "\n";
      for (int i = 0; i < count; ++i)
      {
        const int mine = i % every ? l : other;
        PCHECK(c, m->RegisterCallback(name, A::Named(make(next_id, false)), key(mine)), "RegisterCallback returned 0");
        model.push_back({next_id++, mine, name, false, false});
      }
      break;
    }
    case 2:
    {
      const int l = static_cast<int>(c.g.Draw(5));
      const bool empty = c.g.Coin(1, 10), throws = c.g.Coin(1, 25);
      bool r;
      if (empty) r = m->RegisterGenericCallback({}, key(l));
      else r = m->RegisterGenericCallback(A::Generic(make(next_id, throws)), key(l));
      PLOG(c) << "RegisterGeneric(listener " << l << (empty ? ", no function" : "") << ") as "
              << next_id << " -> " << r << "\n";
      PCHECK(c, r == !empty, "RegisterGenericCallback returned ", r);
      if (!empty) model.push_back({next_id++, l, "", true, throws});
      break;
    }
    case 3:
    {
      const int l = static_cast<int>(c.g.Draw(5));
      const bool r = m->UnregisterListener(key(l));
      PLOG(c) << "Unregister(listener " << l << ") -> " << r << "\n";
      const bool expect = model_remove(l);
      PCHECK(c, r == expect, "UnregisterListener returned ", r, " expected ", expect);
      if (expect) ++removed;
      break;
    }
    case 4:
    {
      if (guards.size() >= 4) break;
      const int l = static_cast<int>(c.g.Draw(5));
      PLOG(c) << "guard for listener " << l << "\n";
      guards.emplace_back(l, m->GetCallbackGuard(key(l)));
      break;
    }
    case 5:
    {
      if (guards.empty()) break;
      const size_t k = c.g.Draw(guards.size());
      const int l = guards[k].first;
      PLOG(c) << "end of guard for listener " << l << "\n";
      {
        ScopeGuard g = std::move(guards[k].second);
        guards.erase(guards.begin() + static_cast<long>(k));
      }
      if (l != 0 && model_remove(l)) ++via_guard;
      break;
    }
    default:
    {
      static const std::vector<std::string> kStr = {"", "x", "a string that does not fit in place",
                                                    std::string("x\0y", 3), std::string(3000, 's')};
      execute(c.g.Pick(kNames), c.g.Pick(kStr), static_cast<int>(c.g.Range(-3, 3)));
      break;
    }
    }
  }
  for (auto& name : kNames) execute(name, "final", 1);
  guards.clear();
  if (delivered_total >= 2 && (removed || via_guard)) c.NonTrivial();
  if (thrown) c.Label("with a throwing callback");
  if (via_guard) c.Label("unregistered through a guard");
  if (removed) c.Label("unregistered explicitly");
  if (bulk) c.Label("many callbacks");
}

void History(pbt::Case& c)
{
  switch (c.g.Draw(4))
  {
  case 0: HistoryOf<ValueArgs>(c); break;
  case 1: HistoryOf<IntArg>(c); break;
  case 2: HistoryOf<RefArgs>(c); break;
  default: HistoryOf<NoArgs>(c); break;
  }
}

// Callbacks of a manager that use another one: managers are independent.
void Nested(pbt::Case& c)
{
  using Manager = NamedCallbackManager<int>;
  struct Reg
  {
    int id, manager, listener, name;  // name -1: any
    int does;                         // 0: nothing, 1: executes, 2: registers, 3: unregisters at the next manager
    int what;
  };
  const int n_managers = 2 + static_cast<int>(c.g.Draw(2));
  std::vector<std::unique_ptr<Manager>> ms;
  for (int i = 0; i < n_managers; ++i) ms.push_back(std::make_unique<Manager>());
  int anchors[3];
  static const std::vector<std::string> names = {"a", "b"};
  // by manager
  std::vector<std::vector<Reg>> model(n_managers);
  std::vector<std::string> real, want;
  int next_id = 0, nested = 0;
  std::function<void(const Reg&, int)> act = [&](const Reg& r, int arg) {
    real.push_back(pbt::Str(r.id, "(", arg, ")"));
    const int next = r.manager + 1;
    if (next >= n_managers) return;
    if (r.does == 1) ms[next]->ExecuteCallbacks(names[r.what], arg + 1);
    if (r.does == 2) ms[next]->RegisterCallback(names[r.what], [&real](int v) { real.push_back(pbt::Str("x(", v, ")")); }, &anchors[r.listener]);
    if (r.does == 3) real.push_back(ms[next]->UnregisterListener(&anchors[r.what]) ? "gone" : "none");
  };
  std::function<void(int, int, int)> model_exec = [&](int m, int name, int arg) {
    const auto regs = model[m];
    for (int pass = 0; pass < 2; ++pass)
      for (auto& r : regs)
      {
        if ((r.name < 0) != (pass == 0) || (r.name >= 0 && r.name != name)) continue;
        if (r.id < 0)
        {
          want.push_back(pbt::Str("x(", arg, ")"));
          continue;
        }
        want.push_back(pbt::Str(r.id, "(", arg, ")"));
        if (m + 1 >= n_managers) continue;
        if (r.does) ++nested;
        auto& other = model[m + 1];
        if (r.does == 1) model_exec(m + 1, r.what, arg + 1);
        if (r.does == 2) other.push_back({-1, m + 1, r.listener, r.what, 0, 0});
        if (r.does == 3)
        {
          const auto before = other.size();
          other.erase(std::remove_if(other.begin(), other.end(), [&](const Reg& o) { return o.listener == r.what; }), other.end());
          want.push_back(other.size() != before ? "gone" : "none");
        }
      }
  };
  while (c.g.More(24) && next_id < 60)
  {
    const int m = static_cast<int>(c.g.Draw(n_managers));
    switch (c.g.Draw(4))
    {
    case 0:
    case 1:
    {
      Reg r{next_id++, m, static_cast<int>(c.g.Draw(3)), static_cast<int>(c.g.Draw(3)) - 1, static_cast<int>(c.g.Draw(4)), 0};
      r.what = static_cast<int>(c.g.Draw(r.does == 3 ? 3 : 2));
      PLOG(c) << "manager " << m << ": callback " << r.id << " of listener " << r.listener << " for " << (r.name < 0 ? "any" : names[r.name]) << ", which "
              << (r.does == 0 ? "does nothing" : r.does == 1 ? "executes" : r.does == 2 ? "registers" : "unregisters") << " " << r.what << "\n";
      if (r.name < 0) ms[m]->RegisterGenericCallback([&act, r](const std::string&, int v) { act(r, v); }, &anchors[r.listener]);
      else ms[m]->RegisterCallback(names[r.name], [&act, r](int v) { act(r, v); }, &anchors[r.listener]);
      model[m].push_back(r);
      break;
    }
    case 2:
    {
      const int l = static_cast<int>(c.g.Draw(3));
      PLOG(c) << "manager " << m << ": unregister " << l << "\n";
      auto& mine = model[m];
      const auto before = mine.size();
      mine.erase(std::remove_if(mine.begin(), mine.end(), [&](const Reg& o) { return o.listener == l; }), mine.end());
      const bool r = ms[m]->UnregisterListener(&anchors[l]);
      PCHECK(c, r == (mine.size() != before), "UnregisterListener returned ", r);
      break;
    }
    default:
    {
      const int name = static_cast<int>(c.g.Draw(2));
      PLOG(c) << "manager " << m << ": execute " << names[name] << "\n";
      real.clear();
      want.clear();
      ms[m]->ExecuteCallbacks(names[name], 0);
      model_exec(m, name, 0);
      PCHECK(c, real == want, "unexpected calls: ", real.size(), " instead of ", want.size());
    }
    }
  }
  if (nested > 1) c.NonTrivial();
}

pbt::FacetOpts NestedOpts()
{
  pbt::FacetOpts o;
  o.quick = 30000;
  o.thorough = 500000;
  o.rule = "histories with 2-3 managers whose callbacks execute, register at and unregister from the next manager, against list models; "
           "non-trivial: at least two callbacks that used another manager";
  return o;
}
pbt::Facet f2("C04", "nested", Nested, NestedOpts());

pbt::FacetOpts Opts()
{
  pbt::FacetOpts o;
  o.quick = 60000;
  o.thorough = 1000000;
  o.rule = "random histories of (generic) registration, unregistration, guards and execution over 5 "
           "listeners (null included), 10 names and 4 parameter lists, against a list model; "
           "non-trivial: at least two deliveries and an effective unregistration";
  return o;
}
pbt::Facet f1("C04", "histories", History, Opts());
}  // namespace
