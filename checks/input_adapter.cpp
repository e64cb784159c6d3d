// C28: the input adapter hands requests to the user one by one and replies to those who asked.
#include "conc.h"
#include "oac.h"

#include <sup/oac-tree/async_input_adapter.h>

#include <algorithm>
#include <atomic>
#include <map>
#include <memory>
#include <mutex>
#include <set>

using namespace oac;

namespace
{
enum Op { kAsk, kWait, kPoll, kGet, kDrop, kSleep };
struct Step
{
  Op op;
  int slot;
  int ms;
};

// What happened to a request; times in ms, positions in the order of all events.
struct Request
{
  bool asked = false, handled = false, answered = false, dropped = false, told = false, got = false;
  int delay = 0;  // < 0: only an interrupt ends it
  uint64_t id = 0, handled_id = 0;
  uint64_t ask_begin = 0, ask_end = 0, handle = 0, answer = 0, drop_begin = 0, drop_end = 0, tell = 0;
  uint64_t ask_ms = 0, handle_ms = 0, answer_ms = 0, drop_ms = 0;
};

const int kForever = 1000000;
double Seconds(int ms)
{
  if (ms >= kForever) return conc::kHuge[ms - kForever];
  return conc::kSched ? ms / 1000.0 : ms / 1000.0 / 50;
}

struct World
{
  std::mutex mtx;
  uint64_t clock = 0;
  std::vector<Request> requests;
  std::set<uint64_t> told;   // interrupted ids
  std::vector<int> order;    // of handling
  int busy = 0;
  int unknown_tells = 0;
  uint64_t t0 = 0;
  uint64_t close_begin = UINT64_MAX, close_end = UINT64_MAX, close_ms = UINT64_MAX;

  uint64_t Ms() { return conc::NowMs() - t0; }
  // Marks an event.
  uint64_t At()
  {
    std::lock_guard<std::mutex> lk(mtx);
    return ++clock;
  }
  static UserInputRequest Make(int token) { return CreateUserValueRequest(AnyValue{sup::dto::int32{0}}, std::to_string(token)); }
  static UserInputReply Reply(int token) { return CreateUserValueReply(true, AnyValue{sup::dto::int32{token}}); }

  UserInputReply Handle(const UserInputRequest& r, uint64_t id)
  {
    const int token = std::stoi(r.m_meta_data.As<std::string>());
    int delay;
    {
      std::lock_guard<std::mutex> lk(mtx);
      auto& q = requests.at(token);
      if (q.handled) conc::Die(pbt::Str("request ", token, " is given to the user twice"));
      if (busy++) conc::Die("two requests are given to the user at the same time");
      if (!(r == Make(token))) conc::Die("the request is not the one that was asked");
      q.handled = true;
      q.handle = ++clock;
      q.handle_ms = Ms();
      q.handled_id = id;
      order.push_back(token);
      delay = q.delay;
    }
    bool interrupted = false;
    for (int t = 0; delay < 0 || t <= delay; t += 5)
    {
      {
        std::lock_guard<std::mutex> lk(mtx);
        if (told.count(id)) interrupted = true;
      }
      if (interrupted) break;
      if (delay < 0 || t + 5 <= delay) conc::SleepMs(5);
    }
    std::lock_guard<std::mutex> lk(mtx);
    auto& q = requests[token];
    --busy;
    q.answered = true;
    q.answer = ++clock;
    q.answer_ms = Ms();
    return interrupted ? CreateUserValueReply(false, AnyValue{}) : Reply(token);
  }
  void Interrupt(uint64_t id)
  {
    std::lock_guard<std::mutex> lk(mtx);
    told.insert(id);
    ++clock;
    bool found = false;
    for (auto& q : requests)
      if (q.id == id || (q.handled && q.handled_id == id))
      {
        if (q.told) conc::Die(pbt::Str("request with id ", id, " is interrupted twice"));
        q.told = true;
        q.tell = clock;
        found = true;
      }
    if (!found) ++unknown_tells;
  }
};

void Adapter(pbt::Case& c)
{
  auto& g = c.g;
  std::vector<std::vector<Step>> plans(1 + g.Draw(3));
  std::vector<int> delays;
  for (size_t k = 0; k < plans.size(); ++k)
  {
    for (size_t i = 0, n = 1 + g.Draw(9); i < n; ++i)
    {
      static const Op ops[] = {kAsk, kAsk, kWait, kWait, kPoll, kGet, kDrop, kSleep};
      const Op op = i == 0 ? kAsk : ops[g.Draw(8)];
      const int ms = op == kWait ? (g.Draw(4) == 3 ? 0 : g.Draw(4) == 3 ? 5000 : 7 + 10 * static_cast<int>(g.Draw(12))) : 10 * static_cast<int>(g.Draw(8));
      plans[k].push_back({op, static_cast<int>(g.Draw(2)), ms});
      if (op == kAsk) delays.push_back(g.Draw(6) == 5 ? -1 : 5 * static_cast<int>(g.Draw(12)));
    }
  }
  const bool close_early = g.Draw(3) == 2;
  int last_wait = 300;
  if (std::none_of(delays.begin(), delays.end(), [](int d) { return d < 0; }))
  {
    // Every request will be answered: one may wait for it as long as it takes.
    auto forever = [&] { return kForever + static_cast<int>(g.Draw(conc::kHuges)); };
    for (auto& p : plans)
      for (auto& s : p)
        if (s.op == kWait && g.Draw(6) == 5) s.ms = forever();
    if (g.Draw(3) == 2) last_wait = forever();
  }
  static const char* const names[] = {"ask", "wait", "poll", "get", "drop", "sleep"};
  for (auto& p : plans)
  {
    for (auto& s : p) PLOG(c) << names[s.op] << s.slot << "(" << s.ms << ") ";
    PLOG(c) << "\n";
  }
  for (auto d : delays) PLOG(c) << "delay " << d << " ";
  PLOG(c) << (close_early ? "requests are left when the adapter is destroyed\n" : "\n");

  World w;
  w.requests.resize(delays.size());
  for (size_t i = 0; i < delays.size(); ++i) w.requests[i].delay = delays[i];
  std::atomic<int> waits{0};
  const uint64_t slack = 4;
  conc::Run(c, [&] {
    w.t0 = conc::NowMs();
    auto adapter = std::make_unique<AsyncInputAdapter>([&w](const UserInputRequest& r, sup::dto::uint64 id) { return w.Handle(r, id); },
                                                       [&w](sup::dto::uint64 id) { w.Interrupt(id); });
    std::vector<std::thread> threads;
    int first = 0;
    for (auto& plan : plans)
    {
      int token = first;
      for (auto& s : plan) first += s.op == kAsk;
      threads.emplace_back([&w, &plan, &waits, &adapter, token, slack, close_early, last_wait]() mutable {
        struct Slot
        {
          std::unique_ptr<IUserInputFuture> f;
          int token = -1;
        } slots[2];
        auto drop = [&](Slot& s) {
          if (!s.f) return;
          auto& q = w.requests[s.token];
          const bool valid = s.f->IsValid();
          {
            std::lock_guard<std::mutex> lk(w.mtx);
            q.drop_begin = ++w.clock;
            q.drop_ms = w.Ms();
          }
          s.f.reset();
          std::lock_guard<std::mutex> lk(w.mtx);
          q.drop_end = ++w.clock;
          q.dropped = valid;
        };
        auto look = [&](Slot& s, bool ready, uint64_t begin_ms, int timeout, const char* what) {
          const auto now = w.Ms();
          std::lock_guard<std::mutex> lk(w.mtx);
          auto& q = w.requests[s.token];
          if (q.got)
          {
            if (ready) conc::Die(pbt::Str(what, ": ready after the reply was taken"));
            if (conc::kSched && now > begin_ms + slack) conc::Die("waiting for a reply that was taken");
            return;
          }
          if (ready && !q.answered) conc::Die(pbt::Str(what, ": request ", s.token, " is ready before the user answered"));
          if (!conc::kSched) return;
          if (!ready && q.answered && q.answer_ms + slack < now) conc::Die(pbt::Str(what, ": request ", s.token, " is not ready at ", now, " ms though answered at ", q.answer_ms));
          if (!ready && now + slack < begin_ms + timeout) conc::Die(pbt::Str("waiting for request ", s.token, " gave up after ", now - begin_ms, " of ", timeout, " ms"));
          if (ready && now > std::max(begin_ms, q.answer_ms) + slack) conc::Die(pbt::Str("waiting for request ", s.token, " ended at ", now, " ms though answered at ", q.answer_ms));
          if (now > begin_ms + timeout + slack) conc::Die(pbt::Str("waiting for request ", s.token, " took ", now - begin_ms, " of ", timeout, " ms"));
        };
        for (auto& s : plan)
        {
          auto& slot = slots[s.slot];
          switch (s.op)
          {
          case kSleep: conc::SleepMs(s.ms); break;
          case kDrop: drop(slot); break;
          case kAsk:
          {
            drop(slot);
            auto& q = w.requests[token];
            {
              std::lock_guard<std::mutex> lk(w.mtx);
              q.asked = true;
              q.ask_begin = ++w.clock;
            }
            auto f = adapter->AddUserInputRequest(World::Make(token));
            if (!f || !f->IsValid() || f->GetId() == 0) conc::Die("the future of a request is not valid");
            {
              std::lock_guard<std::mutex> lk(w.mtx);
              q.ask_end = ++w.clock;
              q.ask_ms = w.Ms();
              q.id = f->GetId();
              if (q.handled && q.handled_id != q.id) conc::Die("the user got another id than the one who asked");
            }
            slot.f = std::move(f);
            slot.token = token++;
            break;
          }
          case kWait:
            if (slot.f)
            {
              const auto b = w.Ms();
              const bool r = slot.f->WaitFor(Seconds(s.ms));
              look(slot, r, b, s.ms, "wait");
              ++waits;
            }
            break;
          case kPoll:
            if (slot.f)
            {
              const auto b = w.Ms();
              look(slot, slot.f->IsReady(), b, 0, "poll");
            }
            break;
          case kGet:
            if (slot.f)
            {
              bool got;
              UserInputReply r;
              const bool sure = slot.f->IsReady();
              try
              {
                r = slot.f->GetValue();
                got = true;
              }
              catch (const InvalidOperationException&)
              {
                got = false;
              }
              std::lock_guard<std::mutex> lk(w.mtx);
              auto& q = w.requests[slot.token];
              if (got && q.got) conc::Die("the reply can be taken twice");
              if (got && !q.answered) conc::Die("a reply without an answer");
              if (!got && sure) conc::Die("a ready reply cannot be taken");
              if (got && r != (q.told ? CreateUserValueReply(false, AnyValue{}) : World::Reply(slot.token))) conc::Die(pbt::Str("request ", slot.token, " got another reply"));
              if (got) q.got = true;
              if (slot.f->IsValid() == q.got) conc::Die("a future is valid exactly until its reply is taken");
            }
            break;
          }
        }
        if (!close_early)
          for (auto& s : slots)
            if (s.f && s.f->IsValid() && w.requests[s.token].delay >= 0 && !w.requests[s.token].got)
            {
              // (a request that is never answered may be before it)
              const auto b = w.Ms();
              look(s, s.f->WaitFor(Seconds(last_wait)), b, last_wait, "last wait");
            }
        if (!close_early || plan.size() % 2)
          for (auto& s : slots) drop(s);
        else
          // The requests are not withdrawn: what remains of them may not be used any more.
          for (auto& s : slots)
            if (s.f) (void)s.f.release();
      });
    }
    for (auto& t : threads) t.join();
    {
      std::lock_guard<std::mutex> lk(w.mtx);
      w.close_begin = ++w.clock;
      w.close_ms = w.Ms();
    }
    adapter.reset();
    {
      std::lock_guard<std::mutex> lk(w.mtx);
      w.close_end = ++w.clock;
      if (w.busy) conc::Die("the user is still asked after the end of the adapter");
    }
    conc::SleepMs(20);
  });

  auto& rs = w.requests;
  std::set<uint64_t> ids;
  int handled = 0, told = 0;
  for (size_t i = 0; i < rs.size(); ++i)
  {
    auto& q = rs[i];
    if (!q.asked) continue;
    PLOG(c) << "request " << i << " id " << q.id << " asked " << q.ask_ms << (q.handled ? pbt::Str(" handled ", q.handle_ms, " to ", q.answer_ms) : std::string()) << (q.told ? " interrupted" : "")
            << (q.dropped ? pbt::Str(" withdrawn ", q.drop_ms) : std::string()) << "\n";
    PCHECK(c, ids.insert(q.id).second, "two requests have the id ", q.id);
    handled += q.handled;
    told += q.told;
    if (q.handled)
    {
      PCHECK(c, q.handled_id == q.id, "the id given to the user");
      // (it may just have been taken from the queue, but then the user is told)
      PCHECK(c, !q.dropped || q.handle < q.drop_end || (q.told && q.tell < q.drop_end), "request ", i, " is given to the user after it was withdrawn");
      PCHECK(c, q.handle < w.close_end || q.told, "request ", i, " is given to the user after the end of the adapter");
    }
    // Whoever is asked when the request is withdrawn, or the adapter ends, is told so.
    const bool open_at_drop = q.dropped && q.handled && q.handle < q.drop_begin && q.answer > q.drop_end;
    PCHECK(c, !open_at_drop || (q.told && q.tell < q.drop_end), "the user is not told that request ", i, " was withdrawn");
    PCHECK(c, !q.told || q.handled || q.dropped || q.tell > w.close_begin, "request ", i, " is interrupted for no reason");
    PCHECK(c, !q.told || (q.dropped && q.tell > q.drop_begin) || q.tell > w.close_begin, "request ", i, " is interrupted though nobody withdrew it");
    for (size_t k = 0; k < rs.size(); ++k)
      if (rs[k].asked && rs[k].handled && q.handled && q.ask_end < rs[k].ask_begin)
        PCHECK(c, q.handle < rs[k].handle, "request ", k, " overtakes request ", i);
  }
  PCHECK(c, w.unknown_tells == 0, "an unknown request is interrupted");
  if (conc::kSched)
  {
    // The user is asked as soon as he is free.
    uint64_t free = 0;
    for (int token : w.order)
    {
      auto& q = rs[token];
      PCHECK(c, q.handle_ms <= std::max(free, q.ask_ms) + slack, "request ", token, " waits until ", q.handle_ms, " ms though asked at ", q.ask_ms, " and the user is free from ", free);
      free = q.answer_ms;
    }
    for (size_t i = 0; i < rs.size(); ++i)
    {
      auto& q = rs[i];
      if (!q.asked || q.handled) continue;
      const auto end = std::min<uint64_t>(q.dropped ? q.drop_ms : UINT64_MAX, w.close_ms);
      PCHECK(c, std::max(free, q.ask_ms) + slack >= end, "request ", i, " is never given to the user");
    }
  }
  if (handled > 1 && plans.size() > 1 && waits > 0) c.NonTrivial();
  if (told) c.Label("interrupted");
  if (handled > 2) c.Label("several");
}
CONC_FACET("C28", "adapter", Adapter, conc::Opts(80000, 3000000, "several requests of several threads handled, and waited for", 15));
}  // namespace
