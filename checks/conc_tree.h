// A procedure with asynchronous instructions whose leaves and notifications are monitored.  The
// book-keeping uses relaxed atomics only, so that it does not order the accesses of the code under
// test.
#ifndef VERIF_CONC_TREE_H_
#define VERIF_CONC_TREE_H_

#include "conc.h"
#include "tree.h"

#include <sup/oac-tree/runner.h>

#include <atomic>

namespace ctree
{
using namespace tree;

struct Slot
{
  const Instruction* instr = nullptr;
  int parent = -1;
  std::string type;
  std::atomic<int> last{0};     // last reported status
  std::atomic<int> inside{0};   // executions in progress (leaves)
  std::atomic<int> notifying{0};
  std::atomic<int> pos{0}, inits{0}, execs{0};
  std::atomic<int> script{-1};
};

constexpr std::memory_order kRelaxed = std::memory_order_relaxed;

class Monitor : public ProbeHub
{
public:
  Monitor(pbt::Case& c, const Spec& s) : s(s)
  {
    (void)c;
    ui.on_status = [this](const Instruction* i) { OnStatus(i); };
    ui.on_put = [](const AnyValue&, const std::string&) { return true; };
    ui.on_request = [this](const UserInputRequest& r) -> std::unique_ptr<IUserInputFuture> {
      int n = requests.fetch_add(1, kRelaxed);
      auto& rep = this->s.replies[n % this->s.replies.size()];
      if (rep.null) return std::make_unique<UnsupportedInputFuture>();
      auto f = std::make_unique<FnFuture>();
      auto at = conc::NowMs() + rep.delay * 40;
      f->ready = [at]() { return conc::NowMs() >= at; };
      auto type = r.m_request_type;
      auto input = r.m_input_type;
      f->value = [rep, type, input]() {
        if (type == InputRequestType::kUserChoice) return CreateUserChoiceReply(rep.result, rep.choice);
        return CreateUserValueReply(rep.result, AnyValue(input));
      };
      live.fetch_add(1, kRelaxed);
      f->dropped = [this] { live.fetch_sub(1, kRelaxed); };
      return f;
    };
  }

  void Load(const Instruction* root)
  {
    std::function<int(const Instruction*)> count = [&](const Instruction* i) {
      int n = 1;
      for (auto* k : i->ChildInstructions()) n += count(k);
      return n;
    };
    slots = std::vector<Slot>(count(root));
    int next = 0;
    std::function<void(const Instruction*, int)> add = [&](const Instruction* i, int parent) {
      int id = next++;
      slots[id].instr = i;
      slots[id].parent = parent;
      slots[id].type = i->GetType();
      ids[i] = id;
      for (auto* k : i->ChildInstructions()) add(k, id);
    };
    add(root, -1);
  }

  std::string Name(int id) { return "#" + std::to_string(id) + "(" + slots[id].type + ")"; }

  // The notification protocol.
  void OnStatus(const Instruction* i)
  {
    auto it = ids.find(i);
    if (it == ids.end()) conc::Die("status of an unknown instruction was reported");
    auto& sl = slots[it->second];
    if (sl.notifying.fetch_add(1, kRelaxed) != 0) conc::Die("two threads report the status of " + Name(it->second));
    auto st = i->GetStatus();
    auto before = static_cast<ES>(sl.last.exchange(static_cast<int>(st), kRelaxed));
    conc::Note(Name(it->second) + " " + St(st));
    bool ok = false;
    switch (before)
    {
    case ES::NOT_STARTED: ok = st == ES::NOT_FINISHED || st == ES::FAILURE; break;
    case ES::NOT_FINISHED: ok = st != ES::NOT_FINISHED; break;
    case ES::RUNNING: ok = st != ES::RUNNING; break;
    default: ok = st == ES::NOT_STARTED;
    }
    if (!ok) conc::Die("reported status of " + Name(it->second) + " goes from " + St(before) + " to " + St(st));
    if (before == ES::NOT_STARTED && sl.parent >= 0)
    {
      auto& p = slots[sl.parent];
      auto ps = static_cast<ES>(p.last.load(kRelaxed));
      if (p.type != "ParallelSequence" && p.type != "Async" && ps != ES::NOT_FINISHED && ps != ES::RUNNING)
        conc::Die(Name(it->second) + " started while its parent " + Name(sl.parent) + " is " + St(ps));
    }
    notifications.fetch_add(1, kRelaxed);
    conc::Yield();
    sl.notifying.fetch_sub(1, kRelaxed);
  }

  bool Init(VProbe& p, UserInterface&, Workspace&) override
  {
    auto& sl = slots[ids.at(&p)];
    auto n = sl.inits.fetch_add(1, kRelaxed);
    return n >= 64 || !((s.scripts[p.Pid()].init_fail >> n) & 1);
  }

  ES Exec(VProbe& p, UserInterface&, Workspace& w) override
  {
    int id = ids.at(&p);
    auto& sl = slots[id];
    auto& steps = s.scripts[p.Pid()].steps;
    auto& st = steps[sl.pos.fetch_add(1, kRelaxed) % steps.size()];
    auto last = static_cast<ES>(sl.last.load(kRelaxed));
    if (last != ES::NOT_FINISHED && last != ES::RUNNING) conc::Die(Name(id) + " is executed while reported as " + St(last));
    if (sl.inside.fetch_add(1, kRelaxed) != 0) conc::Die(Name(id) + " is executed by two threads at once");
    if (closed.load(kRelaxed)) conc::Die(Name(id) + " is executed although its procedure was stopped before");
    int now = active.fetch_add(1, kRelaxed) + 1;
    int seen = max_active.load(kRelaxed);
    while (seen < now && !max_active.compare_exchange_weak(seen, now, kRelaxed)) {}
    sl.execs.fetch_add(1, kRelaxed);
    conc::Note(Name(id) + " begins");
    ES res = st.status;
    if (st.work > 0) conc::SleepMs(st.work);
    else if (st.work < 0)
    {
      int n = 0;
      while (!p.IsHaltRequested() && (endless || n < 20))
      {
        conc::SleepMs(10);
        ++n;
      }
      res = ES::FAILURE;
    }
    if (st.var >= 0) (void)w.SetValue(s.vars[st.var].name, MakeValue(s.vars[st.var], st.val));
    {
      AnyValue v;
      // (not reset by any instruction)
      if (w.HasVariable("ca") && !w.GetValue("ca", v)) conc::Die("the variables are gone while " + Name(id) + " is executed");
    }
    conc::Note(Name(id) + " ends");
    active.fetch_sub(1, kRelaxed);
    sl.inside.fetch_sub(1, kRelaxed);
    return res;
  }

  void CheckReported(const std::string& when)
  {
    for (auto& sl : slots)
      if (static_cast<int>(sl.instr->GetStatus()) != sl.last.load(kRelaxed))
        conc::Die(when + ": status of " + Name(ids.at(sl.instr)) + " is " + St(sl.instr->GetStatus()) + " but last reported was "
                  + St(static_cast<ES>(sl.last.load(kRelaxed))));
  }

  const Spec& s;
  HookUI ui;
  std::vector<Slot> slots;
  std::map<const Instruction*, int> ids;
  std::atomic<int> requests{0}, live{0}, active{0}, max_active{0}, notifications{0};
  std::atomic<bool> closed{false};
  bool endless = true;
};
}  // namespace ctree
#endif
