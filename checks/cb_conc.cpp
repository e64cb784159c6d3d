// C05: named callback manager under concurrent use.
#include "pbt.h"

#include <sup/oac-tree/named_callback_manager.h>

#include <algorithm>
#include <atomic>
#include <functional>
#include <memory>
#include <set>
#include <stdexcept>
#include <string>
#include <thread>
#include <vector>

#ifdef VERIF_SCHED
#include "detsched.h"
#endif

using namespace sup::oac_tree;

namespace
{
void Pause()
{
#ifdef VERIF_SCHED
  ds::Yield();
#endif
}
void Note(const std::string& s)
{
#ifdef VERIF_SCHED
  ds::Note(s);
#else
  (void)s;
#endif
}

using Manager = NamedCallbackManager<int, std::string>;
const std::vector<std::string> kNames = {"x", "y"};

enum Kind { kReg, kRegGeneric, kUnreg, kGuardBegin, kGuardEnd, kExec };

struct Op
{
  Kind kind;
  int name;
};

// One registration of a callback; only its owner thread and callbacks touch it.
struct Registration
{
  int id;
  int owner;
  bool generic;
  int name;
  uint64_t reg_inv = 0, reg_res = 0;       // around the registration
  uint64_t unreg_inv = UINT64_MAX;         // just before the unregistration
  uint64_t unreg_res = UINT64_MAX;         // just after
};

struct Call
{
  int reg;
  int exec;
  uint64_t begin = 0, end = 0;
};

struct Exec
{
  int id;
  int name;
  uint64_t inv = 0, res = 0;
};

#ifdef VERIF_SCHED
void Scheduled(pbt::Case& c)
{
  const int n_threads = 2 + static_cast<int>(c.g.Draw(2));
  std::vector<std::vector<Op>> prog(n_threads);
  for (auto& p : prog)
  {
    const int n = 1 + static_cast<int>(c.g.Draw(6));
    for (int i = 0; i < n; ++i)
    {
      static const Kind kinds[] = {kReg, kExec, kUnreg, kRegGeneric, kExec, kGuardBegin, kGuardEnd,
                                   kReg};
      p.push_back({kinds[c.g.Draw(8)], static_cast<int>(c.g.Draw(2))});
    }
  }
  const int n_initial = static_cast<int>(c.g.Draw(3));
  std::atomic<uint64_t> clock{0};
  auto stamp = [&] { return clock.fetch_add(1) + 1; };
  // Serialised by the scheduler; reserved so that nothing moves.
  std::vector<std::unique_ptr<Registration>> regs;
  std::vector<Call> calls;
  std::vector<Exec> execs;
  regs.reserve(256);
  calls.reserve(4096);
  execs.reserve(256);
  ds::Options opts;
  int anchors[8];
  int running = 0;  // callbacks that are being executed
  ds::Run(c, opts, [&] {
    Manager m;
    auto do_register = [&](int owner, bool generic, int name) {
      Registration* p = nullptr;
      {
        ds::Quiet quiet;
        auto r = std::make_unique<Registration>();
        r->id = static_cast<int>(regs.size());
        r->owner = owner;
        r->generic = generic;
        r->name = name;
        p = r.get();
        regs.push_back(std::move(r));
        p->reg_inv = stamp();
      }
      auto body = [&, p](int exec, const std::string& payload) {
        size_t slot = 0;
        {
          ds::Quiet quiet;
          slot = calls.size();
          calls.push_back({p->id, exec, stamp(), 0});
        }
        if (running++) throw pbt::Failure("", pbt::Str("callback ", p->id, " begins while another one is running"));
        Note(pbt::Str("callback ", p->id, " begins (execution ", exec, ")"));
        if (payload != "payload" + std::to_string(exec))
          throw pbt::Failure("", "wrong argument " + payload);
        if (!p->generic && execs[exec].name != p->name)
          throw pbt::Failure("", "callback called for another name");
        if (p->unreg_res != UINT64_MAX)
          throw pbt::Failure("", "callback runs after its listener was unregistered");
        Pause();
        Pause();
        if (p->unreg_res != UINT64_MAX)
          throw pbt::Failure("", "listener was unregistered while its callback is still running");
        --running;
        calls[slot].end = stamp();
        Note(pbt::Str("callback ", p->id, " ends"));
      };
      bool ok;
      if (generic)
        ok = m.RegisterGenericCallback(
          [body, name](const std::string& n, int exec, std::string s) {
            (void)n;
            body(exec, s);
          },
          &anchors[owner]);
      else
        ok = m.RegisterCallback(kNames[name], [body](int exec, std::string s) { body(exec, s); },
                                &anchors[owner]);
      if (!ok) throw pbt::Failure("", "registration refused");
      p->reg_res = stamp();
      Note(pbt::Str("registered ", generic ? "generic " : "", p->id, " of listener ", owner));
    };
    auto mark_unreg = [&](int owner, bool before) {
      ds::Quiet quiet;
      int n = 0;
      for (auto& r : regs)
      {
        if (r->owner != owner || r->unreg_res != UINT64_MAX) continue;
        if (before) r->unreg_inv = clock.load() + 1;
        ++n;
      }
      if (before) (void)stamp();
      if (!before)
      {
        const auto s = stamp();
        for (auto& r : regs)
          if (r->owner == owner && r->unreg_res == UINT64_MAX) r->unreg_res = s;
      }
      return n;
    };
    auto execute = [&](int name) {
      Exec e;
      {
        ds::Quiet quiet;
        e.id = static_cast<int>(execs.size());
        e.name = name;
        e.inv = stamp();
        execs.push_back(e);
      }
      Note(pbt::Str("execution ", e.id, " of ", kNames[name], " begins"));
      m.ExecuteCallbacks(kNames[name], e.id, "payload" + std::to_string(e.id));
      execs[e.id].res = stamp();
      Note(pbt::Str("execution ", e.id, " ends"));
    };
    for (int i = 0; i < n_initial; ++i) do_register(7, i & 1, i & 1);
    std::vector<std::thread> threads;
    for (int t = 0; t < n_threads; ++t)
    {
      threads.emplace_back([&, t] {
        ScopeGuard guard;
        auto end_guard = [&] {
          if (!guard.IsValid()) return;
          (void)mark_unreg(t, true);
          {
            ScopeGuard g = std::move(guard);
          }
          (void)mark_unreg(t, false);
          Note(pbt::Str("guard of listener ", t, " ended"));
        };
        for (auto& op : prog[t])
        {
          switch (op.kind)
          {
          case kReg: do_register(t, false, op.name); break;
          case kRegGeneric: do_register(t, true, op.name); break;
          case kUnreg:
          {
            const int n = mark_unreg(t, true);
            const bool r = m.UnregisterListener(&anchors[t]);
            (void)mark_unreg(t, false);
            Note(pbt::Str("listener ", t, " unregistered"));
            if (r != (n > 0))
              throw pbt::Failure("", pbt::Str("UnregisterListener returned ", r, " with ", n,
                                              " callbacks registered"));
            break;
          }
          case kGuardBegin:
            if (!guard.IsValid()) guard = m.GetCallbackGuard(&anchors[t]);
            break;
          case kGuardEnd: end_guard(); break;
          case kExec: execute(op.name); break;
          }
        }
        end_guard();
      });
    }
    for (auto& t : threads) t.join();
    execute(0);
    execute(1);
  });
  // exactness of every execution
  int concurrent = 0, deliveries = 0;
  for (auto& e : execs)
  {
    for (auto& r : regs)
    {
      int n = 0;
      for (auto& k : calls)
        if (k.exec == e.id && k.reg == r->id)
        {
          ++n;
          PCHECK(c, k.end != 0, "callback not finished");
          PCHECK(c, k.begin > e.inv && k.end < e.res, "callback outside of its execution");
        }
      deliveries += n;
      PCHECK(c, n <= 1, "execution ", e.id, " called callback ", r->id, " ", n, " times");
      const bool match = r->generic || r->name == e.name;
      if (!match) PCHECK(c, n == 0, "callback ", r->id, " called for another name");
      const bool surely_in = match && r->reg_res < e.inv && r->unreg_inv > e.res;
      if (surely_in)
        PCHECK(c, n == 1, "execution ", e.id, " [", e.inv, ",", e.res, "] did not call callback ",
               r->id, " registered during [", r->reg_res, ",", r->unreg_inv, "]");
      const bool surely_out = r->reg_inv > e.res || r->unreg_res < e.inv;
      if (surely_out) PCHECK(c, n == 0, "execution ", e.id, " called callback ", r->id);
      if (match && !surely_in && !surely_out) ++concurrent;
    }
  }
  // The callbacks that one unregistration removes are removed at once.
  for (auto& e : execs)
    for (auto& r : regs)
      for (auto& s : regs)
      {
        if (s->owner != r->owner || s->unreg_inv != r->unreg_inv || r->unreg_inv == UINT64_MAX) continue;
        if (r->reg_res > e.inv || s->reg_res > e.inv) continue;
        if (!(r->generic || r->name == e.name) || !(s->generic || s->name == e.name)) continue;
        bool x = false, y = false;
        for (auto& k : calls)
        {
          x = x || (k.exec == e.id && k.reg == r->id);
          y = y || (k.exec == e.id && k.reg == s->id);
        }
        PCHECK(c, x == y, "execution ", e.id, " called only one of the callbacks ", r->id, " and ", s->id, " that were unregistered together");
      }
  if (ds::LastStats().switches >= 2 && deliveries) c.NonTrivial();
  if (concurrent) c.Label("(un)registration concurrent with an execution");
  if (deliveries) c.Label("with deliveries");
}

// Listeners that several threads register and unregister, callbacks that throw: every operation takes
// effect at once, in an order that agrees with the order of the calls.
struct SharedOp
{
  enum Kind { kRegister, kUnregister, kGuard, kExecute } kind;
  int listener = 0, name = 0, id = 0;
  bool generic = false, throws = false;
  uint64_t inv = 0, res = 0;
  bool result = false;       // of an unregistration; of an execution: a callback threw
  std::vector<int> called;   // by an execution
};

bool Linearizable(const std::vector<SharedOp>& ops)
{
  std::set<std::pair<uint32_t, std::vector<int>>> dead;
  std::function<bool(uint32_t, const std::vector<int>&)> search = [&](uint32_t done, const std::vector<int>& regs) {
    if (done + 1 == 1u << ops.size()) return true;
    if (dead.count({done, regs})) return false;
    uint64_t first_res = UINT64_MAX;
    for (size_t i = 0; i < ops.size(); ++i)
      if (!(done >> i & 1)) first_res = std::min(first_res, ops[i].res);
    for (size_t i = 0; i < ops.size(); ++i)
    {
      auto& o = ops[i];
      if (done >> i & 1 || o.inv > first_res) continue;
      auto next = regs;
      bool ok = true;
      if (o.kind == SharedOp::kRegister) next.push_back(static_cast<int>(i));
      else if (o.kind == SharedOp::kExecute)
      {
        std::vector<int> want;
        bool thrown = false;
        for (int pass = 0; pass < 2 && !thrown; ++pass)
          for (int r : regs)
            if (!thrown && ops[r].generic == (pass == 0) && (ops[r].generic || ops[r].name == o.name))
            {
              want.push_back(r);
              thrown = ops[r].throws;
            }
        ok = want == o.called && thrown == o.result;
      }
      else
      {
        next.erase(std::remove_if(next.begin(), next.end(), [&](int r) { return ops[r].listener == o.listener; }), next.end());
        ok = o.kind == SharedOp::kGuard || o.result == (next.size() != regs.size());
      }
      if (ok && search(done | 1u << i, next)) return true;
    }
    dead.insert({done, regs});
    return false;
  };
  return search(0, {});
}

void Shared(pbt::Case& c)
{
  const int n_threads = 2 + static_cast<int>(c.g.Draw(2));
  const int n_listeners = 1 + static_cast<int>(c.g.Draw(2));
  std::vector<SharedOp> ops;
  std::vector<std::vector<size_t>> prog(n_threads + 1);  // the first ones before the threads begin
  auto add = [&](int t, SharedOp::Kind k) {
    SharedOp o;
    o.kind = k;
    o.listener = static_cast<int>(c.g.Draw(n_listeners));
    o.name = static_cast<int>(c.g.Draw(2));
    o.generic = c.g.Draw(3) == 0;
    o.throws = k == SharedOp::kRegister && c.g.Draw(6) == 0;
    o.id = static_cast<int>(ops.size());
    prog[t].push_back(ops.size());
    ops.push_back(o);
  };
  for (int i = 0, n = static_cast<int>(c.g.Draw(4)); i < n; ++i) add(0, SharedOp::kRegister);
  for (int t = 1; t <= n_threads; ++t)
    for (int i = 0, n = 1 + static_cast<int>(c.g.Draw(4)); i < n; ++i)
    {
      static const SharedOp::Kind kinds[] = {SharedOp::kExecute, SharedOp::kUnregister, SharedOp::kRegister, SharedOp::kGuard, SharedOp::kExecute, SharedOp::kRegister};
      add(t, kinds[c.g.Draw(6)]);
    }
  ds::Options opts;
  int anchors[2];
  uint64_t clock = 0;  // the threads are serialised
  ds::Run(c, opts, [&] {
    Manager m;
    auto stamp = [&] {
      ds::Quiet quiet;
      return ++clock;
    };
    auto run = [&](size_t at) {
      auto& o = ops[at];
      void* listener = &anchors[o.listener];
      ScopeGuard guard;
      if (o.kind == SharedOp::kGuard) guard = m.GetCallbackGuard(listener);
      o.inv = stamp();
      switch (o.kind)
      {
      case SharedOp::kRegister:
      {
        auto body = [&ops, at](int exec) {
          {
            ds::Quiet quiet;
            ops[exec].called.push_back(static_cast<int>(at));
          }
          Pause();
          if (ops[at].throws) throw std::runtime_error("callback");
        };
        if (o.generic) m.RegisterGenericCallback([body](const std::string&, int e, std::string) { body(e); }, listener);
        else m.RegisterCallback(kNames[o.name], [body](int e, std::string) { body(e); }, listener);
        break;
      }
      case SharedOp::kUnregister: o.result = m.UnregisterListener(listener); break;
      case SharedOp::kGuard:
      {
        ScopeGuard end{std::move(guard)};
        break;
      }
      case SharedOp::kExecute:
        try
        {
          m.ExecuteCallbacks(kNames[o.name], static_cast<int>(at), "");
        }
        catch (const std::runtime_error&)
        {
          o.result = true;
        }
        break;
      }
      o.res = stamp();
    };
    for (auto i : prog[0]) run(i);
    std::vector<std::thread> threads;
    for (int t = 1; t <= n_threads; ++t)
      threads.emplace_back([&, t] {
        for (auto i : prog[t]) run(i);
      });
    for (auto& t : threads) t.join();
  });
  std::string history;
  bool concurrent = false;
  for (auto& o : ops)
  {
    static const char* const names[] = {"register", "unregister", "end the guard of", "execute"};
    history += pbt::Str("  #", o.id, " [", o.inv, ",", o.res, "] ", names[o.kind]);
    if (o.kind == SharedOp::kExecute)
    {
      history += " " + kNames[o.name] + " calls";
      for (int r : o.called) history += " #" + std::to_string(r);
      if (o.result) history += ", which throws";
    }
    else history += pbt::Str(" listener ", o.listener);
    if (o.kind == SharedOp::kRegister) history += o.generic ? " for any name" : " for " + kNames[o.name];
    if (o.kind == SharedOp::kUnregister) history += o.result ? " -> true" : " -> false";
    history += "\n";
    for (auto& p : ops) concurrent = concurrent || (p.inv < o.inv && o.inv < p.res && (p.kind != SharedOp::kExecute || o.kind != SharedOp::kExecute));
  }
  PLOG(c) << history;
  PCHECK(c, Linearizable(ops), "the results do not agree with any order of the operations:\n", history);
  if (concurrent && ds::LastStats().switches >= 2) c.NonTrivial();
}

pbt::FacetOpts SharedOpts()
{
  pbt::FacetOpts o;
  o.quick = 60000;
  o.thorough = 1000000;
  o.quick_cap_s = 60;
  o.thorough_cap_s = 300;
  o.rule = "2-3 threads registering, unregistering and executing callbacks of shared listeners, some of which throw, under a random "
           "controlled schedule; oracle: some order of the operations that agrees with their calls and returns explains every result and "
           "every list of called callbacks; non-trivial: operations that overlap";
  return o;
}
pbt::Facet f2("C05", "shared", Shared, SharedOpts());

pbt::FacetOpts Opts()
{
  pbt::FacetOpts o;
  o.quick = 120000;
  o.thorough = 1500000;
  o.quick_cap_s = 90;
  o.thorough_cap_s = 900;
  o.rule = "2-3 threads registering, unregistering (explicitly or by guard) and executing callbacks "
           "under a random controlled schedule; oracle: a callback never runs once its listener's "
           "unregistration returned, each execution calls every callback registered throughout "
           "exactly once with the right arguments; non-trivial: at least two preemptions and a "
           "delivery";
  return o;
}
pbt::Facet f1("C05", "schedules", Scheduled, Opts());
#else
void Stress(pbt::Case& c)
{
  const int n_threads = 3 + static_cast<int>(c.g.Draw(2));
  std::vector<std::vector<Op>> prog(n_threads);
  for (auto& p : prog)
  {
    const int n = 20 + static_cast<int>(c.g.Draw(60));
    for (int i = 0; i < n; ++i)
    {
      static const Kind kinds[] = {kReg, kExec, kUnreg, kRegGeneric, kExec, kGuardBegin, kGuardEnd,
                                   kReg};
      p.push_back({kinds[c.g.Draw(8)], static_cast<int>(c.g.Draw(2))});
    }
  }
  // plain (unsynchronised) per listener: a callback that overlaps the unregistration of its listener
  // is a data race on it
  struct Listener
  {
    int registered = 0;
    bool alive = false;
  };
  std::vector<Listener> listeners(n_threads);
  std::atomic<int> bad{0}, delivered{0};
  {
    Manager m;
    std::vector<std::thread> threads;
    for (int t = 0; t < n_threads; ++t)
    {
      threads.emplace_back([&, t] {
        Listener& l = listeners[t];
        ScopeGuard guard;
        auto cb = [&l, &bad, &delivered](int, const std::string& s) {
          if (s.size() != 3) bad.fetch_add(1, std::memory_order_relaxed);
          if (!l.alive) bad.fetch_add(1, std::memory_order_relaxed);
          delivered.fetch_add(1, std::memory_order_relaxed);
        };
        auto reg = [&](bool generic, int name) {
          if (l.registered >= 8) return;
          if (l.registered == 0) l.alive = true;
          if (generic)
            m.RegisterGenericCallback(
              [cb](const std::string&, int v, const std::string& s) { cb(v, s); }, &l);
          else
            m.RegisterCallback(kNames[name], cb, &l);
          ++l.registered;
        };
        for (auto& op : prog[t])
        {
          switch (op.kind)
          {
          case kReg: reg(false, op.name); break;
          case kRegGeneric: reg(true, op.name); break;
          case kUnreg:
            if (m.UnregisterListener(&l) != (l.registered > 0))
              bad.fetch_add(1, std::memory_order_relaxed);
            l.registered = 0;
            l.alive = false;
            break;
          case kGuardBegin:
            if (!guard.IsValid()) guard = m.GetCallbackGuard(&l);
            break;
          case kGuardEnd:
            if (!guard.IsValid()) break;
            {
              ScopeGuard g = std::move(guard);
            }
            l.registered = 0;
            l.alive = false;
            break;
          case kExec: m.ExecuteCallbacks(kNames[op.name], 1, "abc"); break;
          }
        }
        m.UnregisterListener(&l);
        l.alive = false;
      });
    }
    for (auto& t : threads) t.join();
  }
  PCHECK(c, bad.load() == 0, bad.load(), " wrong results");
  if (delivered.load() > 10) c.NonTrivial();
}

pbt::FacetOpts Opts()
{
  pbt::FacetOpts o;
  o.quick = 10000;
  o.thorough = 100000;
  o.workers = 3;
  o.hang_s = 30;
  o.confirm_needed = 2;
  o.confirm_runs = 8;
  o.quick_cap_s = 40;
  o.rule = "3-4 real threads with 20-80 random operations each under ThreadSanitizer; oracle: no data "
           "race (also none between a callback and the end of its registration), results as "
           "expected; non-trivial: more than 10 deliveries";
  return o;
}
pbt::Facet f1("C05", "stress", Stress, Opts());
#endif
}  // namespace
