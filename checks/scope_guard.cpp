// C03: a scope guard's function runs exactly once, at the end of the life of the guard that holds it
// last, whatever moves and swaps happened in between.
#include "pbt.h"

#include <sup/oac-tree/scope_guard.h>

#include <memory>
#include <vector>

using namespace sup::oac_tree;

namespace
{
const int kSlots = 4;

struct World
{
  int model[kSlots];             // token held, 0: guard without function, -1: no guard
  std::vector<int> vmodel;       // same for vec
  std::vector<int> runs{0};      // per token: how often its function ran
  std::vector<int> expected{0};  // how often it should have
  std::vector<int> chain{-1};    // slot whose guard is destroyed when the token runs
  bool busy[kSlots] = {};
  // last: their functions use the above
  std::unique_ptr<ScopeGuard> slot[kSlots];
  std::vector<ScopeGuard> vec;

  int NewToken(int chained)
  {
    runs.push_back(0);
    expected.push_back(0);
    chain.push_back(chained);
    return static_cast<int>(runs.size()) - 1;
  }
  std::function<void()> Func(int token, int weight)
  {
    // functions of different sizes: stored inside std::function or on the heap
    if (weight == 0) return [this, token] { Run(token); };
    std::vector<int> payload(static_cast<size_t>(weight), token);
    return [this, payload] {
      for (auto p : payload)
        if (p != payload[0]) throw std::logic_error("payload");
      Run(payload[0]);
    };
  }
  // real effect of running a token
  void Run(int token)
  {
    ++runs[token];
    const int k = chain[token];
    if (k >= 0 && slot[k] && !busy[k])
    {
      auto g = std::move(slot[k]);
      model[k] = ModelRelease(model[k]);
      g.reset();
    }
  }
  // model effect of the end of a guard holding this token (chains are followed by the real run)
  int ModelRelease(int token)
  {
    if (token > 0) ++expected[token];
    return -1;
  }
};

void History(pbt::Case& c)
{
  World w;
  for (auto& m : w.model) m = -1;
  int n = 0, moves = 0, replaced = 0, chained = 0, vec_ops = 0;
  auto check = [&](const char* when) {
    for (size_t t = 1; t < w.runs.size(); ++t)
      PCHECK(c, w.runs[t] == w.expected[t], when, ": function ", t, " ran ", w.runs[t],
             " times, expected ", w.expected[t]);
    for (int i = 0; i < kSlots; ++i)
    {
      PCHECK(c, static_cast<bool>(w.slot[i]) == (w.model[i] >= 0), when, ": harness slot");
      if (w.slot[i])
        PCHECK(c, w.slot[i]->IsValid() == (w.model[i] > 0), when, ": guard ", i, " IsValid is ",
               w.slot[i]->IsValid());
    }
    PCHECK(c, w.vec.size() == w.vmodel.size(), "vector size");
    for (size_t i = 0; i < w.vec.size(); ++i)
      PCHECK(c, w.vec[i].IsValid() == (w.vmodel[i] > 0), when, ": vector guard ", i);
  };
  auto destroy = [&](int i) {
    auto g = std::move(w.slot[i]);
    w.model[i] = w.ModelRelease(w.model[i]);
    g.reset();
  };
  while (c.g.More(6 + 3 * c.g.Size()) && n < 400)
  {
    ++n;
    const int i = static_cast<int>(c.g.Draw(kSlots));
    const int j = static_cast<int>(c.g.Draw(kSlots));
    switch (c.g.Draw(9))
    {
    case 0:
    case 1:
    {
      // a new guard with a function in slot i
      const int chain = c.g.Coin(1, 4) ? static_cast<int>(c.g.Draw(kSlots)) : -1;
      const int weight = c.g.Coin(1, 2) ? 8 : 0;
      PLOG(c) << "slot " << i << ": new guard with function " << w.runs.size()
              << (chain >= 0 ? pbt::Str(" ending slot ", chain) : "") << "\n";
      if (w.slot[i]) destroy(i);
      if (w.slot[i]) break;
      if (chain >= 0) ++chained;
      const int t = w.NewToken(chain);
      w.slot[i] = std::make_unique<ScopeGuard>(w.Func(t, weight));
      w.model[i] = t;
      break;
    }
    case 2:
    {
      PLOG(c) << "slot " << i << ": new empty guard\n";
      if (w.slot[i]) destroy(i);
      if (w.slot[i]) break;
      w.slot[i] = c.g.Coin(1, 2) ? std::make_unique<ScopeGuard>(std::function<void()>{})
                                 : std::make_unique<ScopeGuard>();
      w.model[i] = 0;
      break;
    }
    case 3:
    {
      if (!w.slot[i]) break;
      PLOG(c) << "slot " << i << ": end of guard\n";
      destroy(i);
      break;
    }
    case 4:
    {
      // move construction
      if (!w.slot[i] || i == j) break;
      PLOG(c) << "slot " << j << ": move constructed from slot " << i << "\n";
      if (w.slot[j]) destroy(j);
      if (!w.slot[i] || w.slot[j]) break;
      w.slot[j] = std::make_unique<ScopeGuard>(std::move(*w.slot[i]));
      w.model[j] = w.model[i];
      w.model[i] = 0;
      ++moves;
      break;
    }
    case 5:
    {
      // move assignment, including to itself
      if (!w.slot[i] || !w.slot[j]) break;
      PLOG(c) << "slot " << j << " = move(slot " << i << ")\n";
      w.busy[i] = w.busy[j] = true;
      if (i != j)
      {
        const int old = w.model[j];
        w.model[j] = w.model[i];
        w.model[i] = 0;
        (void)w.ModelRelease(old);
        if (old > 0) ++replaced;
      }
      ScopeGuard& src = *w.slot[i];
      ScopeGuard& res = (*w.slot[j] = std::move(src));
      PCHECK(c, &res == w.slot[j].get(), "assignment returns something else");
      w.busy[i] = w.busy[j] = false;
      ++moves;
      break;
    }
    case 6:
    {
      if (!w.slot[i] || !w.slot[j]) break;
      PLOG(c) << "slot " << i << ".Swap(slot " << j << ")\n";
      w.slot[i]->Swap(*w.slot[j]);
      std::swap(w.model[i], w.model[j]);
      ++moves;
      break;
    }
    case 7:
    {
      if (!w.slot[i]) break;
      PLOG(c) << "vector: push_back(move(slot " << i << "))\n";
      w.vec.push_back(std::move(*w.slot[i]));
      w.vmodel.push_back(w.model[i]);
      w.model[i] = 0;
      ++vec_ops;
      break;
    }
    default:
    {
      if (w.vec.empty()) break;
      const size_t k = c.g.Draw(w.vec.size());
      PLOG(c) << "vector: erase(" << k << ")\n";
      const int token = w.vmodel[k];
      w.vmodel.erase(w.vmodel.begin() + static_cast<long>(k));
      (void)w.ModelRelease(token);
      w.vec.erase(w.vec.begin() + static_cast<long>(k));
      ++vec_ops;
      break;
    }
    }
    check("after operation");
  }
  for (int i = 0; i < kSlots; ++i)
    if (w.slot[i]) destroy(i);
  for (auto& t : w.vmodel) (void)w.ModelRelease(t);
  w.vmodel.clear();
  w.vec.clear();
  check("at the end");
  for (size_t t = 1; t < w.runs.size(); ++t)
    PCHECK(c, w.runs[t] == 1, "at the end function ", t, " ran ", w.runs[t], " times");
  if (w.runs.size() > 2 && moves >= 1) c.NonTrivial();
  if (replaced) c.Label("assignment over a guard with function");
  if (chained) c.Label("function that ends another guard");
  if (vec_ops) c.Label("guards in a vector");
}

// A guard does its job on every way out of a scope.
void Unwinding(pbt::Case& c)
{
  const int depth = 1 + static_cast<int>(c.g.Draw(8));
  const int throw_at = static_cast<int>(c.g.Draw(static_cast<uint64_t>(depth) + 2));
  std::vector<int> order;
  std::function<void(int)> rec = [&](int d) {
    ScopeGuard g{[&order, d] { order.push_back(d); }};
    if (d == throw_at) throw std::runtime_error("x");
    if (d + 1 < depth) rec(d + 1);
  };
  bool threw = false;
  try
  {
    rec(0);
  }
  catch (const std::runtime_error&)
  {
    threw = true;
  }
  const int last = throw_at < depth ? throw_at : depth - 1;
  PLOG(c) << "nested scopes " << depth << ", exception in scope " << throw_at << "\n";
  PCHECK(c, threw == (throw_at < depth), "exception lost");
  PCHECK(c, static_cast<int>(order.size()) == last + 1, order.size(), " functions ran");
  for (int i = 0; i <= last; ++i) PCHECK(c, order[i] == last - i, "wrong order");
  c.NonTrivial();
}

pbt::FacetOpts Opts(uint64_t q, const char* rule)
{
  pbt::FacetOpts o;
  o.quick = q;
  o.thorough = q * 20;
  o.rule = rule;
  return o;
}
pbt::Facet f1("C03", "histories", History,
              Opts(150000, "random histories of construction, destruction, move construction, move "
                          "assignment (self too), swap and storage in a vector over 4 guards, with "
                          "functions that end other guards, against a token model; non-trivial: at "
                          "least two functions and one move or swap"));
pbt::Facet f2("C03", "unwinding", Unwinding,
              Opts(200, "nested scopes left normally or by an exception"));
}  // namespace
