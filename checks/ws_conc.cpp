// C18: workspace variables under concurrent use, and waiting for their availability.
#include "conc.h"
#include "oac.h"

#include <atomic>
#include <map>
#include <thread>

using namespace oac;

namespace
{
constexpr auto kRelaxed = std::memory_order_relaxed;

AnyValue Pair(int a, int b)
{
  return AnyValue({{"a", AnyValue{sup::dto::int32(a)}}, {"b", AnyValue{sup::dto::int32(b)}}});
}
int Int(const AnyValue& v) { return v.As<sup::dto::int32>(); }

enum Kind { kSetWhole, kGetWhole, kSetField, kGetField, kGetAll, kListen, kLeave, kAsk, kConvert };
struct Op
{
  Kind kind;
  int arg;
};

void Accesses(pbt::Case& c)
{
  auto& g = c.g;
  const int n_threads = 2 + static_cast<int>(g.Draw(3));
  std::vector<std::vector<Op>> prog(n_threads);
  int writes = 0;
  for (auto& p : prog)
  {
    static const Kind kinds[] = {kSetField, kGetAll, kSetWhole, kGetWhole, kSetField, kGetField, kListen, kLeave, kAsk, kConvert};
    const int n = 1 + static_cast<int>(g.Draw(7));
    for (int i = 0; i < n; ++i)
    {
      p.push_back({kinds[g.Draw(10)], static_cast<int>(g.Draw(3))});
      if (p.back().kind == kSetField || p.back().kind == kSetWhole) ++writes;
    }
  }
  const int arrays = static_cast<int>(g.Draw(2));
  PLOG(c) << n_threads << " threads\n";
  for (int t = 0; t < n_threads; ++t)
  {
    PLOG(c) << "thread " << t << ":";
    for (auto& o : prog[t]) PLOG(c) << " " << o.kind << "/" << o.arg;
    PLOG(c) << "\n";
  }
  conc::Run(c, [&] {
    Workspace ws;
    // "pair": both members always carry the same number; "mine": thread t counts up in its field.
    auto add = [&](const std::string& name, const std::string& type, const std::string& value) {
      auto v = GlobalVariableRegistry().Create("Local");
      v->SetName(name);
      v->AddAttribute("type", type);
      v->AddAttribute("value", value);
      ws.AddVariable(name, std::move(v));
    };
    add("pair", R"({"type":"p","attributes":[{"a":{"type":"int32"}},{"b":{"type":"int32"}}]})", R"({"a":0,"b":0})");
    std::string type = R"({"type":"m","attributes":[)", value = "{";
    if (arrays)
    {
      type = R"({"type":"m","multiplicity":)" + std::to_string(n_threads) + R"(,"element":{"type":"int32"}})";
      value = "[";
    }
    for (int t = 0; t < n_threads; ++t)
    {
      const std::string sep = t ? "," : "";
      if (!arrays) type += sep + R"({"f)" + std::to_string(t) + R"(":{"type":"int32"}})";
      value += arrays ? sep + "0" : sep + "\"f" + std::to_string(t) + "\":0";
    }
    if (!arrays) type += "]}";
    add("mine", type, value + (arrays ? "]" : "}"));
    auto field = [&](int t) { return arrays ? "mine[" + std::to_string(t) + "]" : "mine.f" + std::to_string(t); };
    auto part = [&](const AnyValue& v, int t) { return Int(arrays ? v[t] : v["f" + std::to_string(t)]); };
    ws.Setup();
    // What is heard about the variables; each is reported by one thread at a time.
    std::vector<int> pairs;
    std::vector<std::vector<int>> mines;
    std::atomic<bool> busy{false};
    int key = 0;
    auto heard = [&](const std::string& name, const AnyValue& v, bool connected) {
      if (busy.exchange(true, kRelaxed)) conc::Die("a listener is called twice at the same time");
      if (!connected) conc::Die("a local variable is reported as not connected");
      if (name == "pair")
      {
        if (Int(v["a"]) != Int(v["b"])) conc::Die("a torn value is reported");
        pairs.push_back(Int(v["a"]));
      }
      else
      {
        std::vector<int> m;
        for (int t = 0; t < n_threads; ++t) m.push_back(part(v, t));
        mines.push_back(m);
      }
      conc::Yield();
      busy.store(false, kRelaxed);
    };
    auto guard = ws.GetCallbackGuard(&key);
    ws.RegisterGenericCallback(heard, &key);
    std::vector<int> last(n_threads, 0);
    std::vector<int> fields(n_threads, 0);
    std::vector<std::thread> threads;
    std::atomic<int> set{0};
    for (int t = 0; t < n_threads; ++t)
      threads.emplace_back([&, t] {
        int n = 0;
        std::vector<int> seen(n_threads, 0);
        struct Ear
        {
          int key = 0;
          std::atomic<bool> on{true};
          std::unique_ptr<ScopeGuard> guard;
        };
        std::vector<std::unique_ptr<Ear>> ears;
        auto see = [&](int u, int x) {
          if (x < seen[u]) conc::Die(pbt::Str("thread ", t, " sees field ", u, " go back from ", seen[u], " to ", x));
          if (u == t && x != n) conc::Die(pbt::Str("thread ", t, " wrote ", n, " and reads ", x));
          seen[u] = x;
        };
        for (auto& o : prog[t])
        {
          switch (o.kind)
          {
          case kSetWhole:
          {
            const int k = (t + 1) * 1000 + static_cast<int>(set.fetch_add(1, kRelaxed));
            if (!ws.SetValue("pair", Pair(k, k))) conc::Die("writing failed");
            last[t] = k;
            break;
          }
          case kGetWhole:
          {
            AnyValue v;
            if (!ws.GetValue("pair", v)) conc::Die("reading failed");
            if (Int(v["a"]) != Int(v["b"])) conc::Die(pbt::Str("a torn value is read: ", Json(v)));
            break;
          }
          case kConvert:
          {
            // the value to be read has another type
            AnyValue v(sup::dto::Float64Type);
            if (!ws.GetValue("pair.a", v) || v.GetType() != sup::dto::Float64Type) conc::Die("reading with a conversion failed");
            if (ws.SetValue("pair", AnyValue{std::string("no")})) conc::Die("a text was written to a structure");
            break;
          }
          case kSetField:
            ++n;
            if (!ws.SetValue(field(t), AnyValue{sup::dto::int32(n)})) conc::Die("writing a field failed");
            break;
          case kGetField:
          {
            const int u = o.arg % n_threads;
            AnyValue v;
            if (!ws.GetValue(field(u), v)) conc::Die("reading a field failed");
            see(u, Int(v));
            break;
          }
          case kGetAll:
          {
            AnyValue v;
            if (!ws.GetValue("mine", v)) conc::Die("reading failed");
            for (int u = 0; u < n_threads; ++u) see(u, part(v, u));
            break;
          }
          case kListen:
          {
            auto e = std::make_unique<Ear>();
            auto* raw = e.get();
            e->guard = std::make_unique<ScopeGuard>(ws.GetCallbackGuard(&e->key));
            ws.RegisterCallback(o.arg ? "mine" : "pair", [raw](const AnyValue&, bool) {
              if (!raw->on.load(kRelaxed)) conc::Die("a listener is called after it left");
              conc::Yield();
              if (!raw->on.load(kRelaxed)) conc::Die("a listener left while it is called");
            }, &e->key);
            ears.push_back(std::move(e));
            break;
          }
          case kLeave:
            if (ears.empty()) break;
            ears.back()->guard.reset();
            ears.back()->on.store(false, kRelaxed);
            break;
          case kAsk:
            if (!ws.GetVariable("mine")->IsAvailable()) conc::Die("a local variable is not available");
            break;
          }
        }
        for (auto& e : ears)
        {
          e->guard.reset();
          e->on.store(false, kRelaxed);
        }
        fields[t] = n;
      });
    for (auto& t : threads) t.join();
    guard = ScopeGuard{};
    AnyValue v;
    if (!ws.GetValue("mine", v)) conc::Die("reading failed");
    int total = 0;
    for (int t = 0; t < n_threads; ++t)
    {
      if (part(v, t) != fields[t]) conc::Die(pbt::Str("field ", t, " is ", part(v, t), " instead of ", fields[t]));
      total += fields[t];
    }
    if (static_cast<int>(mines.size()) != total) conc::Die(pbt::Str(mines.size(), " reports of ", total, " writes"));
    for (size_t i = 1; i < mines.size(); ++i)
    {
      int diff = 0;
      for (int t = 0; t < n_threads; ++t) diff += mines[i][t] - mines[i - 1][t] < 0 ? 1000 : mines[i][t] - mines[i - 1][t];
      if (diff != 1) conc::Die("reports are not in the order of the writes");
    }
    AnyValue p;
    if (!ws.GetValue("pair", p)) conc::Die("reading failed");
    if (static_cast<int>(pairs.size()) != set.load(kRelaxed)) conc::Die(pbt::Str(pairs.size(), " reports of ", set.load(kRelaxed), " writes"));
    if (!pairs.empty() && pairs.back() != Int(p["a"])) conc::Die(pbt::Str("the last report is ", pairs.back(), " but the value is ", Json(p)));
    std::map<int, int> latest;
    for (int x : pairs)
    {
      if (latest[x / 1000] > x) conc::Die("the writes of a thread are reported in another order");
      latest[x / 1000] = x;
    }
    for (int t = 0; t < n_threads; ++t)
      if (latest[t + 1] != last[t]) conc::Die("the last write of a thread is not reported");
  });
  if (writes >= 3) c.NonTrivial();
}
CONC_FACET("C18", "accesses", Accesses, conc::Opts(12000, 500000, "at least three concurrent writes"));

// ------------------------------------------------------------------------------------------ waiting
class SwitchVariable : public Variable
{
public:
  SwitchVariable() : Variable("VSwitch") {}
  std::atomic<bool> on{false};
  void Turn(bool b)
  {
    on.store(b);
    Notify(AnyValue{b}, b);
  }

private:
  bool GetValueImpl(AnyValue&) const override { return on; }
  bool SetValueImpl(const AnyValue&) override { return false; }
  bool IsAvailableImpl() const override { return on; }
};

const int kForever = 1000000;
double Seconds(int ms)
{
  if (ms >= kForever) return conc::kHuge[ms - kForever];
  return conc::kSched ? ms / 1000.0 : ms / 1000.0 / 50;
}

void Waiting(pbt::Case& c)
{
  auto& g = c.g;
  struct Turn
  {
    int at;
    bool to;
  };
  struct Wait
  {
    int at;
    int timeout;
    bool want;
    bool result = false;
    uint64_t begin = 0, end = 0;
  };
  std::vector<Turn> turns;
  const bool start = g.Coin();
  int at = 0;
  bool now = start;
  const int n_turns = static_cast<int>(g.Draw(6));
  for (int i = 0; i < n_turns; ++i)
  {
    at += 10 * static_cast<int>(g.Draw(25));
    if (g.Draw(4) != 3) now = !now;  // else: an update without a change
    turns.push_back({at, now});
  }
  std::vector<std::vector<Wait>> waits(1 + g.Draw(3));
  size_t n_waits = 0;
  for (auto& w : waits)
  {
    const int n = 1 + static_cast<int>(g.Draw(3));
    for (int i = 0; i < n; ++i, ++n_waits)
      w.push_back({10 * static_cast<int>(g.Draw(20)), g.Draw(6) == 0 ? 0 : 5 + 10 * static_cast<int>(g.Draw(40)), g.Coin()});
  }
  // The last state lasts: one may wait for it as long as it takes.
  for (auto& list : waits)
    for (auto& w : list)
      if (w.want == now && g.Draw(6) == 5) w.timeout = kForever + static_cast<int>(g.Draw(conc::kHuges));
  PLOG(c) << "initially " << start;
  for (auto& t : turns) PLOG(c) << ", " << t.to << " at " << t.at << " ms";
  PLOG(c) << "\n";
  const bool unknown = g.Coin();
  std::vector<std::pair<uint64_t, bool>> history;  // begin of each change
  std::vector<uint64_t> finished;                  // end of each change
  conc::Run(c, [&] {
    Workspace ws;
    auto var = std::make_unique<SwitchVariable>();
    auto* sw = var.get();
    ws.AddVariable("s", std::move(var));
    sw->on = start;
    ws.Setup();
    const auto t0 = conc::NowMs();
    std::vector<std::thread> threads;
    threads.emplace_back([&] {
      int last = 0;
      for (auto& t : turns)
      {
        if (t.at > last) conc::SleepMs(t.at - last);
        last = t.at;
        history.emplace_back(conc::NowMs() - t0, t.to);
        sw->Turn(t.to);
        finished.push_back(conc::NowMs() - t0);
      }
    });
    for (auto& w : waits)
      threads.emplace_back([&] {
        for (auto& x : w)
        {
          if (x.at) conc::SleepMs(x.at);
          x.begin = conc::NowMs() - t0;
          x.result = ws.WaitForVariable("s", Seconds(x.timeout), x.want);
          x.end = conc::NowMs() - t0;
        }
      });
    if (ws.WaitForVariable("t", 100.0, unknown)) conc::Die("waiting for an unknown variable succeeded");
    for (auto& t : threads) t.join();
  });
  // The state over time, with the uncertainty of each change.
  const uint64_t slack = 3;
  int successful = 0;
  for (auto& list : waits)
    for (auto& w : list)
    {
      PLOG(c) << "waited for " << w.want << " from " << w.begin << " to " << w.end << " ms (timeout " << w.timeout << "): " << w.result << "\n";
      // Certainly in the wanted state during [from, to]?
      bool state = start;
      uint64_t since = 0;
      bool possible_at_end = false;     // was the state possibly as wanted just at the end?
      bool certain_at_end = true;       // was it certainly?
      uint64_t first_certain = UINT64_MAX;  // earliest time at which it stayed so longer than the slack
      for (size_t i = 0; i <= history.size(); ++i)
      {
        const uint64_t until = i < history.size() ? history[i].first : UINT64_MAX;
        if (state == w.want)
        {
          const auto from = std::max(since, w.begin);
          if (until != UINT64_MAX ? until > from + slack : true) first_certain = std::min(first_certain, from);
          if (since <= w.end + slack && (until == UINT64_MAX || until + slack >= w.end)) possible_at_end = true;
        }
        else if (since <= w.end + slack && (until == UINT64_MAX || until + slack >= w.end))
          certain_at_end = false;
        if (i < history.size())
        {
          state = history[i].second;
          since = finished[i];
        }
      }
      if (w.result) ++successful;
      if (!conc::kSched) continue;
      const auto elapsed = w.end - w.begin;
      if (w.result && !possible_at_end) c.Fail("waiting succeeded in the wrong state");
      if (!w.result && certain_at_end) c.Fail("waiting failed in the right state");
      if (!w.result && elapsed + 1 < static_cast<uint64_t>(w.timeout)) c.Fail(pbt::Str("waiting gave up after ", elapsed, " ms"));
      if (elapsed > w.timeout + slack) c.Fail(pbt::Str("waiting took ", elapsed, " ms"));
      if (first_certain != UINT64_MAX && first_certain + slack < w.begin + w.timeout && w.end > first_certain + slack)
        c.Fail(pbt::Str("waiting ended at ", w.end, " ms though the state was right at ", first_certain, " ms"));
    }
  if (turns.size() >= 2 && successful) c.NonTrivial();
  if (n_waits >= 3) c.Label("several waits");
}
CONC_FACET("C18", "waiting", Waiting, conc::Opts(12000, 500000, "at least two changes of the state and a successful wait", 12));
}  // namespace
