// C33: repeated use neither uses up memory nor threads nor file descriptors.
#include "scratch.h"
#include "tree.h"

#include <sup/oac-tree/async_input_adapter.h>
#include <sup/oac-tree/job_states.h>
#include <sup/oac-tree/local_job.h>
#include <sup/oac-tree/runner.h>

#include <sup/oac-tree/i_job_info_io.h>

#include <atomic>
#include <chrono>
#include <condition_variable>
#include <dirent.h>
#include <malloc.h>
#include <new>
#include <thread>

// Every allocation of C++ objects is counted.
namespace
{
std::atomic<long> g_count{0}, g_bytes{0};

void* Get(std::size_t n, std::size_t align)
{
  void* p = align ? aligned_alloc(align, (n + align - 1) / align * align) : malloc(n ? n : 1);
  if (!p) throw std::bad_alloc();
  g_count.fetch_add(1, std::memory_order_relaxed);
  g_bytes.fetch_add(static_cast<long>(malloc_usable_size(p)), std::memory_order_relaxed);
  return p;
}
void Put(void* p) noexcept
{
  if (!p) return;
  g_count.fetch_sub(1, std::memory_order_relaxed);
  g_bytes.fetch_sub(static_cast<long>(malloc_usable_size(p)), std::memory_order_relaxed);
  free(p);
}
}  // namespace

void* operator new(std::size_t n) { return Get(n, 0); }
void* operator new[](std::size_t n) { return Get(n, 0); }
void* operator new(std::size_t n, std::align_val_t a) { return Get(n, static_cast<std::size_t>(a)); }
void* operator new[](std::size_t n, std::align_val_t a) { return Get(n, static_cast<std::size_t>(a)); }
void operator delete(void* p) noexcept { Put(p); }
void operator delete[](void* p) noexcept { Put(p); }
void operator delete(void* p, std::size_t) noexcept { Put(p); }
void operator delete[](void* p, std::size_t) noexcept { Put(p); }
void operator delete(void* p, std::align_val_t) noexcept { Put(p); }
void operator delete[](void* p, std::align_val_t) noexcept { Put(p); }
void operator delete(void* p, std::size_t, std::align_val_t) noexcept { Put(p); }
void operator delete[](void* p, std::size_t, std::align_val_t) noexcept { Put(p); }

using namespace tree;

namespace
{
struct Use
{
  long objects = 0, bytes = 0;
  int threads = 0, files = 0;
};

int Entries(const char* dir)
{
  int n = 0;
  DIR* d = opendir(dir);
  if (!d) return 0;
  while (readdir(d)) ++n;
  closedir(d);
  return n;
}

Use Now()
{
  Use u;
  u.threads = Entries("/proc/self/task");
  u.files = Entries("/proc/self/fd");
  u.objects = g_count.load();
  u.bytes = g_bytes.load();
  return u;
}

// Repeats `cycle`, which must leave everything as it was.  What differs from one repetition to the next (a thread that is
// still on its way out, the value a variable got last) must not hide or look like growth: the least use during some last
// repetitions is compared to the greatest use during some first ones.
void Repeatedly(pbt::Case& c, const std::string& what, const std::function<void()>& cycle, int some = 5, int n = 20)
{
  auto join = [](Use& u, const Use& v, bool most) {
    auto pick = [most](auto a, auto b) { return most ? std::max(a, b) : std::min(a, b); };
    u.objects = pick(u.objects, v.objects);
    u.bytes = pick(u.bytes, v.bytes);
    u.threads = pick(u.threads, v.threads);
    u.files = pick(u.files, v.files);
  };
  auto block = [&](bool most) {
    Use u;
    for (int i = 0; i < some; ++i)
    {
      cycle();
      if (i == 0) u = Now();
      else join(u, Now(), most);
    }
    return u;
  };
  int most_objects = 0, most_bytes = 0;
  Use before, after;
  auto good = [&] {
    return after.objects - before.objects <= most_objects && after.bytes - before.bytes <= most_bytes && after.threads <= before.threads + 3
      && after.files <= before.files + 3;
  };
  cycle();
  // Storage that is kept may still grow now and then, so that only growth seen each time counts; each time takes longer than
  // all before, so that a container that grows by doubling grows too.
  for (int attempt = 0; attempt < 4; ++attempt, n *= 3)
  {
    most_objects = n * 3 / 4;
    most_bytes = n * 8 - 1;
    before = block(true);
    for (int i = 0; i < n; ++i) cycle();
    after = block(false);
    for (int i = 1; i < 10 && !good(); ++i)
    {
      std::this_thread::sleep_for(std::chrono::milliseconds(i));
      join(after, block(false), false);
    }
    if (good()) return;
    if (attempt == 3) break;
  }
  PCHECK(c, after.objects - before.objects <= most_objects, what, ": ", after.objects - before.objects, " objects more after ", n, " repetitions");
  PCHECK(c, after.bytes - before.bytes <= most_bytes, what, ": ", after.bytes - before.bytes, " bytes more after ", n, " repetitions");
  PCHECK(c, after.threads <= before.threads + 3, what, ": ", after.threads - before.threads, " threads more after ", n, " repetitions");
  PCHECK(c, after.files <= before.files + 3, what, ": ", after.files - before.files, " open files more after ", n, " repetitions");
}

// Leaves that follow their script, from the start after each reset, and a user that answers at once.
struct Quiet : ProbeHub
{
  const Spec& s;
  HookUI ui;
  std::vector<std::atomic<int>> pos;
  std::atomic<int> executed{0}, requests{0};

  explicit Quiet(const Spec& spec) : s(spec), pos(spec.scripts.size() + 1)
  {
    ui.on_request = [this](const UserInputRequest& r) -> std::unique_ptr<IUserInputFuture> {
      int n = requests++;
      auto& rep = s.replies[n % s.replies.size()];
      if (rep.null) return std::make_unique<UnsupportedInputFuture>();
      auto f = std::make_unique<FnFuture>();
      int polls = rep.delay;
      f->ready = [polls]() mutable { return polls-- <= 0; };
      auto type = r.m_request_type;
      auto input = r.m_input_type;
      f->value = [rep, type, input]() {
        if (type == InputRequestType::kUserChoice) return CreateUserChoiceReply(rep.result, rep.choice);
        return CreateUserValueReply(rep.result, AnyValue(input));
      };
      return f;
    };
    ui.on_put = [](const AnyValue&, const std::string&) { return true; };
  }
  ES Exec(VProbe& p, UserInterface&, Workspace& ws) override
  {
    ++executed;
    auto& script = s.scripts[p.Pid()];
    auto& step = script.steps[pos[p.Pid()]++ % script.steps.size()];
    if (step.var >= 0) ws.SetValue(s.vars[step.var].name, MakeValue(s.vars[step.var], step.val));
    return step.status;
  }
  bool Init(VProbe& p, UserInterface&, Workspace&) override { return (s.scripts[p.Pid()].init_fail & 1) == 0; }
  void ResetDone(VProbe& p, UserInterface&) override { pos[p.Pid()] = 0; }
};

GenOpts Everything(pbt::Case& c)
{
  GenOpts o;
  o.any_leaves = true;
  o.parallel = c.g.Coin();
  return o;
}

// One procedure, executed and reset again and again.
void Cycles(pbt::Case& c)
{
  auto o = Everything(c);
  Maker maker(c, o);
  Spec spec = maker.Make();
  auto xml = SpecXml(spec);
  c.Identity(xml);
  PLOG(c) << xml;
  const int ticks = 1 + static_cast<int>(c.g.Draw(20));
  const bool halt = c.g.Coin(), listen = c.g.Coin(), breaks = c.g.Coin(1, 4);
  Quiet quiet(spec);
  HubScope hub(&quiet);
  auto proc = ParseProcedureString(xml);
  Runner runner(quiet.ui);
  runner.SetProcedure(proc.get());
  auto& ws = proc->GetWorkspace();
  const int depth = static_cast<int>(c.g.Draw(5));
  const bool again = c.g.Coin(1, 3);
  int listener = 0;
  int heard = 0;
  Repeatedly(c, "executing and resetting a procedure", [&] {
    quiet.requests = 0;
    const Instruction* here = nullptr;
    if (listen)
    {
      auto guard = ws.GetCallbackGuard(&listener);
      ws.RegisterGenericCallback([&heard](const std::string&, const AnyValue&, bool) { ++heard; }, &listener);
      runner.ExecuteSingle();
    }
    if (breaks)
    {
      here = proc->RootInstruction();
      for (int i = 0; i < depth && here->ChildrenCount(); ++i) here = here->ChildInstructions()[0];
      runner.SetBreakpoint(here);
    }
    for (int i = 0; i < ticks && !runner.IsFinished(); ++i) runner.ExecuteSingle();
    if (breaks)
      runner.RemoveBreakpoint(here);
    if (halt) runner.Halt();
    proc->Reset(quiet.ui);
    if (again) runner.SetProcedure(proc.get());
  });
  if (o.parallel) c.Label("with threads");
  if (quiet.requests) c.Label("with user input");
  if (quiet.executed > 30) c.NonTrivial();
}

// One execution with ever more ticks.
void Ticks(pbt::Case& c)
{
  auto o = Everything(c);
  Maker maker(c, o);
  Spec spec = maker.Make();
  // an endless loop around the tree
  D loop, force;
  force.k = kForce;
  force.kids.push_back(spec.root);
  loop.k = kRepeat;
  loop.var = "-1";
  loop.kids.push_back(force);
  spec.root = loop;
  auto xml = SpecXml(spec);
  c.Identity(xml);
  PLOG(c) << xml;
  Quiet quiet(spec);
  HubScope hub(&quiet);
  auto proc = ParseProcedureString(xml);
  Runner runner(quiet.ui);
  runner.SetProcedure(proc.get());
  // The state after some ticks depends on how far the current round is, so that only a clear trend counts.
  const int per = 60;
  std::vector<long> objects;
  auto some = [&] {
    for (int i = 0; i < per && !runner.IsFinished(); ++i) runner.ExecuteSingle();
  };
  some();
  long most_before = 0, least_after = 0;
  for (int i = 0; i < 12; ++i)
  {
    some();
    most_before = i == 0 ? g_count.load() : std::max(most_before, g_count.load());
  }
  for (int i = 0; i < 60; ++i) some();
  for (int i = 0; i < 12; ++i)
  {
    some();
    least_after = i == 0 ? g_count.load() : std::min(least_after, g_count.load());
  }
  const bool running = !runner.IsFinished();
  const int executed = quiet.executed;
  runner.Halt();
  PCHECK(c, least_after - most_before < 60, "at least ", least_after - most_before, " objects more after ", 72 * per, " more ticks");
  if (running && executed > 500) c.NonTrivial();
}

// Documents read, used and thrown away, also bad ones.
void Documents(pbt::Case& c)
{
  auto o = Everything(c);
  Maker maker(c, o);
  Spec spec = maker.Make();
  auto xml = SpecXml(spec);
  const int broken = static_cast<int>(c.g.Draw(4));
  if (broken == 1) xml = xml.substr(0, c.g.Draw(xml.size()));
  if (broken == 2)
    for (uint64_t i = 0, n = 1 + c.g.Draw(3); i < n; ++i)
      xml[c.g.Draw(xml.size())] = c.g.Pick(std::vector<char>{'<', '>', '"', 'x', '/', ' ', '{'});
  c.Identity(xml);
  PLOG(c) << xml;
  const int ticks = static_cast<int>(c.g.Draw(8));
  const bool halt = c.g.Coin();
  Quiet quiet(spec);
  HubScope hub(&quiet);
  int used = 0, refused = 0;
  std::string text;
  Repeatedly(c, "reading and using a document", [&] {
    quiet.requests = 0;
    for (auto& p : quiet.pos) p = 0;
    try
    {
      auto proc = ParseProcedureString(xml);
      Runner runner(quiet.ui);
      runner.SetProcedure(proc.get());
      for (int i = 0; i < ticks && !runner.IsFinished(); ++i) runner.ExecuteSingle();
      if (halt) runner.Halt();
      ++used;
    }
    catch (const std::exception& e)
    {
      ++refused;
    }
  }, 3, 10);
  if (refused) c.Label("refused");
  if (used) c.Label("used");
  if (refused || ticks > 1) c.NonTrivial();
}

// Requests to the user: answered, dropped unread, cancelled while queued or while the user is asked.
void Requests(pbt::Case& c)
{
  struct R
  {
    int fate;
    int size;
  };
  std::vector<R> plan;
  while (plan.size() < 8 && (plan.empty() || c.g.More(4))) plan.push_back({static_cast<int>(c.g.Draw(4)), static_cast<int>(c.g.Draw(200))});
  for (auto& r : plan) PLOG(c) << "request, " << (r.fate == 0 ? "fetched" : r.fate == 1 ? "answer dropped" : r.fate == 2 ? "cancelled at once" : "fetched twice") << "\n";
  const int waiting = static_cast<int>(c.g.Draw(3));
  std::mutex mtx;
  std::condition_variable cv;
  std::set<sup::dto::uint64> told;
  int handled = 0;
  std::set<sup::dto::uint64> ids;
  bool same = false;
  AsyncInputAdapter adapter{
    [&](const UserInputRequest& r, sup::dto::uint64 id) {
      std::unique_lock<std::mutex> lk(mtx);
      ++handled;
      AnyValue asked;
      std::string text;
      (void)ParseUserValueRequest(r, asked, text);
      if (text == "block") cv.wait_for(lk, std::chrono::seconds(20), [&] { return told.erase(id) > 0; });
      return CreateUserValueReply(true, AnyValue(text));
    },
    [&](sup::dto::uint64 id) {
      std::lock_guard<std::mutex> lk(mtx);
      told.insert(id);
      cv.notify_all();
    }};
  bool wrong = false;
  Repeatedly(c, "asking the user", [&] {
    std::vector<std::unique_ptr<IUserInputFuture>> blocked;
    for (auto& r : plan)
    {
      const std::string text(static_cast<size_t>(r.size), 'q');
      auto f = adapter.AddUserInputRequest(CreateUserValueRequest(AnyValue(sup::dto::int32{0}), text));
      if (r.fate == 2) continue;
      if (!f->WaitFor(20.0)) wrong = true;
      if (r.fate == 1) continue;
      const auto reply = ParseUserValueReply(f->GetValue());
      if (!reply.first || reply.second != AnyValue(text)) wrong = true;
      if (r.fate == 3)
      {
        try
        {
          (void)f->GetValue();
          wrong = true;
        }
        catch (const InvalidOperationException&)
        {
        }
      }
    }
    for (int i = 0; i < waiting; ++i) blocked.push_back(adapter.AddUserInputRequest(CreateUserValueRequest(AnyValue(sup::dto::int32{0}), "block")));
    blocked.clear();
    // all is over when another request got through
    auto last = adapter.AddUserInputRequest(CreateUserValueRequest(AnyValue(sup::dto::int32{0}), "last"));
    if (!last->WaitFor(20.0)) wrong = true;
    (void)last->GetValue();
    last.reset();
    std::lock_guard<std::mutex> lk(mtx);
    told.clear();
  });
  PCHECK(c, !wrong, "a request was not answered as it should");
  if (plan.size() > 2) c.NonTrivial();
}

// Many requests on one adapter: identifiers are never zero and never the same.
void ManyRequests(pbt::Case& c)
{
  const int n = c.g.Draw(4) == 3 ? static_cast<int>(c.g.Draw(70000)) : static_cast<int>(200 + c.g.Draw(2000));
  AsyncInputAdapter adapter{[&](const UserInputRequest&, sup::dto::uint64) { return CreateUserValueReply(false, AnyValue{}); },
                            [&](sup::dto::uint64) {}};
  std::set<sup::dto::uint64> ids;
  for (int i = 0; i < n; ++i)
  {
    auto f = adapter.AddUserInputRequest(CreateUserValueRequest(AnyValue(sup::dto::int32{0}), ""));
    PCHECK(c, f->IsValid(), "request ", i, " is not valid");
    PCHECK(c, ids.insert(f->GetId()).second, "request ", i, " has the number ", f->GetId(), " like an earlier one");
  }
  c.Identity(std::to_string(n));
  c.NonTrivial();
}

// Workspaces: listeners, waits, setups and writes.
void Workspaces(pbt::Case& c)
{
  Scratch scratch;
  std::vector<int> plan;
  while (plan.size() < 20 && (plan.empty() || c.g.More(8))) plan.push_back(static_cast<int>(c.g.Draw(9)));
  std::string names;
  for (int p : plan) names += static_cast<char>('0' + p);
  PLOG(c) << "plan " << names << "\n";
  const bool file = c.g.Coin();
  Workspace ws;
  auto add = [&](const char* name, const char* type, std::vector<std::pair<std::string, std::string>> attrs) {
    auto v = GlobalVariableRegistry().Create(type);
    v->SetName(name);
    v->AddAttributes(attrs);
    ws.AddVariable(name, std::move(v));
  };
  add("n", "Local", {{"type", "{\"type\":\"int32\"}"}, {"value", "3"}});
  add("s", "Local", {{"type", R"({"type":"st","attributes":[{"a":{"type":"uint8"}},{"b":{"type":"string"}}]})"}});
  add("d", "Local", {{"dynamicType", "true"}});
  if (file) add("f", "File", {{"file", scratch.File("v.json")}});
  ws.Setup();
  int a = 0, b = 0, heard = 0;
  Repeatedly(c, "using a workspace", [&] {
    AnyValue v;
    for (int p : plan) switch (p)
    {
    case 0: ws.SetValue("n", AnyValue{sup::dto::int32{7}}); break;
    case 1: ws.SetValue("s.b", AnyValue{std::string(40, 'x')}); break;
    case 2: ws.SetValue("d", AnyValue{std::string(50, 'y')}); break;
    case 3:
    {
      auto guard = ws.GetCallbackGuard(&a);
      ws.RegisterGenericCallback([&heard](const std::string&, const AnyValue&, bool) { ++heard; }, &a);
      ws.RegisterCallback("n", [&heard](const AnyValue&, bool) { ++heard; }, &a);
      ws.RegisterCallback("s", [&heard](const AnyValue&, bool) { ++heard; }, &b);
      auto other = ws.GetCallbackGuard(&b);
      ws.SetValue("n", AnyValue{sup::dto::int32{8}});
      break;
    }
    case 4: (void)ws.WaitForVariable("n", 0.0); (void)ws.WaitForVariable("n", 0.001, false); (void)ws.WaitForVariable("zz", 0.0); break;
    case 5: (void)ws.GetValue("s.a", v); (void)ws.GetValue("s.zz", v); (void)ws.GetValue("zz", v); break;
    case 6: ws.Teardown(); ws.Setup(); break;
    case 7:
      if (file) ws.SetValue("f", AnyValue{std::string(60, 'z')});
      (void)ws.GetValue("f", v);
      break;
    default: (void)ws.ResetVariable("s"); (void)ws.ResetVariable("zz"); ws.SetValue("n", AnyValue{std::string("no number")});
    }
    // what is stored at the end of a round is always the same
    ws.Teardown();
    ws.Setup();
  });
  c.Identity(names);
  if (plan.size() > 4) c.NonTrivial();
}

// Jobs: created and destroyed, and started, halted and reset.
class NoIO : public IJobInfoIO
{
public:
  std::mutex mtx;
  std::condition_variable cv;
  JobState state = JobState::kInitial;

  bool Until(const std::function<bool(JobState)>& good)
  {
    std::unique_lock<std::mutex> lk(mtx);
    return cv.wait_for(lk, std::chrono::seconds(30), [&] { return good(state); });
  }
  void InitNumberOfInstructions(sup::dto::uint32) override {}
  void InstructionStateUpdated(sup::dto::uint32, InstructionState) override {}
  void VariableUpdated(sup::dto::uint32, const AnyValue&, bool) override {}
  void JobStateUpdated(JobState s) override
  {
    std::lock_guard<std::mutex> lk(mtx);
    state = s;
    cv.notify_all();
  }
  void PutValue(const AnyValue&, const std::string&) override {}
  bool GetUserValue(sup::dto::uint64, AnyValue&, const std::string&) override { return true; }
  int GetUserChoice(sup::dto::uint64, const std::vector<std::string>&, const AnyValue&) override { return 0; }
  void Interrupt(sup::dto::uint64) override {}
  void Message(const std::string&) override {}
  void Log(int, const std::string&) override {}
  void NextInstructionsUpdated(const std::vector<sup::dto::uint32>&) override {}
};

std::string WithTimeout(std::string xml)
{
  auto pos = xml.find("<Procedure");
  return xml.insert(pos + 10, " tickTimeout=\"0.0002\" timingAccuracy=\"0.0002\"");
}

void Jobs(pbt::Case& c)
{
  auto o = Everything(c);
  o.max_nodes = 8;
  Maker maker(c, o);
  Spec spec = maker.Make();
  auto xml = WithTimeout(SpecXml(spec));
  c.Identity(xml);
  PLOG(c) << xml;
  const int kind = static_cast<int>(c.g.Draw(3));
  Quiet quiet(spec);
  HubScope hub(&quiet);
  NoIO io;
  bool stuck = false;
  auto round = [&](LocalJob& job) {
    job.SetBreakpoint(0);
    job.RemoveBreakpoint(0);
    job.Step();
    job.Start();
    std::this_thread::sleep_for(std::chrono::microseconds(300));
    job.Halt();
    if (!io.Until([](JobState s) { return IsFinishedJobState(s); })) stuck = true;
    job.Reset();
    if (!io.Until([](JobState s) { return s == JobState::kInitial; })) stuck = true;
  };
  if (kind == 0)
  {
    PLOG(c) << "new jobs\n";
    Repeatedly(c, "creating and destroying a job", [&] { LocalJob job(ParseProcedureString(xml), io); }, 3, 12);
  }
  else if (kind == 1)
  {
    PLOG(c) << "new jobs, each used\n";
    Repeatedly(c, "creating, using and destroying a job", [&] {
      LocalJob job(ParseProcedureString(xml), io);
      round(job);
    }, 3, 10);
  }
  else
  {
    PLOG(c) << "one job\n";
    LocalJob job(ParseProcedureString(xml), io);
    Repeatedly(c, "starting, halting and resetting a job", [&] { round(job); }, 4, 16);
  }
  PCHECK(c, !stuck, "the job did not get to the expected state");
  if (kind) c.NonTrivial();
}

OAC_FACET("C33", "cycles", Cycles, oac::Opts(6000, 150000, "more than 50 leaves were executed", 25));
OAC_FACET("C33", "ticks", Ticks, oac::Opts(600, 15000, "the endless loop went on and executed more than 500 leaves", 25));
OAC_FACET("C33", "documents", Documents, oac::Opts(6000, 150000, "refused, or executed for at least two ticks", 25));
OAC_FACET("C33", "requests", Requests, oac::Opts(600, 15000, "at least three requests in a round", 20));
OAC_FACET("C33", "many-requests", ManyRequests, oac::Opts(60, 1000, "all", 10));
OAC_FACET("C33", "workspaces", Workspaces, oac::Opts(1500, 40000, "at least five operations in a round", 20));
OAC_FACET("C33", "jobs", Jobs, oac::Opts(600, 15000, "jobs were started, halted and reset", 25));

struct InitWorker
{
  InitWorker() { pbt::SetWorkerInit([] { RegisterProbe(); }); }
} init_worker;
}  // namespace
