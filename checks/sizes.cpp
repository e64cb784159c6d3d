// Guarantees do not end at some number of things or length of texts: simple situations of any size,
// whose outcome is known directly.
#include "oac.h"
#include "scratch.h"

#include <sup/oac-tree/application_utils.h>
#include <sup/oac-tree/async_input_adapter.h>
#include <sup/oac-tree/attribute_handler.h>
#include <sup/oac-tree/constants.h>
#include <sup/oac-tree/i_job_info_io.h>
#include <sup/oac-tree/instruction_info.h>
#include <sup/oac-tree/job_info.h>
#include <sup/oac-tree/local_job.h>
#include <sup/oac-tree/log_severity.h>
#include <sup/oac-tree/runner.h>

#include <sup/dto/anytype_helper.h>

#include <algorithm>
#include <atomic>
#include <condition_variable>
#include <set>
#include <thread>

using namespace oac;
namespace dto = sup::dto;

namespace
{
// A number up to 'max', often next to a power of two.
size_t Size(pbt::Gen& g, size_t max, size_t min = 1)
{
  size_t bits = 0;
  while ((size_t{2} << bits) <= max) ++bits;
  const size_t p = size_t{1} << g.Draw(bits + 1);
  size_t n = p;
  switch (g.Draw(4))
  {
  case 0: n = p; break;
  case 1: n = p - 1; break;
  case 2: n = p + 1; break;
  default: n = p + g.Draw(p);
  }
  return std::max(min, std::min(n, max));
}

// A text of that length without long repetitions.
std::string Long(pbt::Gen& g, size_t n)
{
  static const char chars[] = "abcdefghijklmnopqrstuvwxyz0123456789 _-<&\"";
  uint32_t x = static_cast<uint32_t>(g.Draw(1000)) + 1;
  std::string r;
  for (size_t i = 0; i < n; ++i)
  {
    x = x * 1664525u + 1013904223u;
    r += i == 0 ? static_cast<char>('a' + (x >> 16) % 26) : chars[(x >> 16) % (sizeof chars - 1)];
  }
  if (!r.empty() && r.back() == ' ') r.back() = '_';
  return r;
}
std::string Brief(const std::string& s)
{
  return s.size() <= 40 ? s : s.substr(0, 30) + "... (" + std::to_string(s.size()) + " bytes)";
}

struct Hub : ProbeHub
{
  std::vector<int> order;
  std::function<ES(VProbe&, Workspace&)> exec;
  std::mutex mtx;
  ES Exec(VProbe& p, UserInterface&, Workspace& ws) override
  {
    std::lock_guard<std::mutex> lk(mtx);
    order.push_back(p.Pid());
    return exec ? exec(p, ws) : ES::SUCCESS;
  }
};

std::vector<int> UpTo(size_t n)
{
  std::vector<int> r(n);
  for (size_t i = 0; i < n; ++i) r[i] = static_cast<int>(i);
  return r;
}

const size_t kSmall = 40;  // what is larger counts as large

// -------------------------------------------------------------------------------------- C08
void Trees(pbt::Case& c)
{
  auto& g = c.g;
  Hub hub;
  HubScope scope(&hub);
  HookUI ui;
  const auto kind = g.Draw(7);
  std::vector<Node> top, vars;
  std::vector<int> want;
  ES end = ES::SUCCESS;
  size_t n = 0;
  std::vector<int> seen;
  switch (kind)
  {
  case 0:
    n = Size(g, 70000);
    top.push_back(Node("Repeat", {{"maxCount", std::to_string(n)}}).K(Probe(0)));
    want.assign(n, 0);
    break;
  case 1:
  {
    n = Size(g, 3000);
    std::string json = "[";
    for (size_t i = 0; i < n; ++i) json += (i ? "," : "") + std::to_string(i * 3);
    vars.push_back(LocalVar("a", "{\"type\":\"\",\"multiplicity\":" + std::to_string(n) + ",\"element\":{\"type\":\"int32\"}}", json + "]"));
    vars.push_back(LocalVar("e", "{\"type\":\"int32\"}", "0"));
    top.push_back(Node("For", {{"arrayVar", "a"}, {"elementVar", "e"}}).K(Probe(0)));
    hub.exec = [&](VProbe&, Workspace& ws) {
      AnyValue v;
      PCHECK(c, ws.GetValue("e", v) && v == AnyValue{static_cast<dto::int32>(seen.size() * 3)}, "iteration ", seen.size(), " of ", n, " sees element ", Json(v));
      seen.push_back(0);
      return ES::SUCCESS;
    };
    want.assign(n, 0);
    break;
  }
  case 2:
  case 3:
  {
    n = Size(g, 1500);
    Node x(kind == 2 ? "Sequence" : "Fallback");
    for (size_t i = 0; i < n; ++i) x.K(Probe(static_cast<int>(i)));
    const bool stops = g.Coin();
    const size_t at = stops ? n - 1 - std::min<size_t>(n - 1, g.Draw(3)) : n;
    const ES go = kind == 2 ? ES::SUCCESS : ES::FAILURE, stop = kind == 2 ? ES::FAILURE : ES::SUCCESS;
    hub.exec = [=](VProbe& p, Workspace&) { return p.Pid() == static_cast<int>(at) ? stop : go; };
    want = UpTo(std::min(n, at + 1));
    end = stops ? stop : go;
    top.push_back(x);
    break;
  }
  case 4:
  {
    n = Size(g, 300);
    const size_t m = Size(g, 1000);
    Node x("Choice", {{"varName", "s"}});
    for (size_t i = 0; i < n; ++i) x.K(Probe(static_cast<int>(i)));
    std::string json = "[";
    const size_t step = 1 + g.Draw(n);
    for (size_t i = 0; i < m; ++i)
    {
      // each child at most once, since a finished one is not executed again
      if (i >= n) break;
      want.push_back(static_cast<int>(step > n / 2 ? n - 1 - i : i));
      json += (i ? "," : "") + std::to_string(want.back());
    }
    vars.push_back(LocalVar("s", "{\"type\":\"\",\"multiplicity\":" + std::to_string(want.size()) + ",\"element\":{\"type\":\"uint32\"}}", json + "]"));
    top.push_back(x);
    n = std::max(n, want.size());
    break;
  }
  case 5:
  {
    n = Size(g, 200);
    static const char* const types[] = {"Inverter", "ForceSuccess", "Sequence", "Fallback", "ReactiveSequence", "ReactiveFallback", "Repeat", "Async"};
    Node x = Probe(0);
    const bool fails = g.Coin();
    if (fails) hub.exec = [](VProbe&, Workspace&) { return ES::FAILURE; };
    end = fails ? ES::FAILURE : ES::SUCCESS;
    for (size_t i = 0; i < n; ++i)
    {
      const std::string t = types[g.Draw(7)];
      Node y(t);
      if (t == "Repeat") y.A("maxCount", "1");
      y.K(std::move(x));
      x = std::move(y);
      if (t == "Inverter") end = end == ES::SUCCESS ? ES::FAILURE : ES::SUCCESS;
      if (t == "ForceSuccess") end = ES::SUCCESS;
    }
    top.push_back(x);
    want = {0};
    break;
  }
  default:
  {
    // a tree that is wide at several levels
    n = Size(g, 4000);
    size_t made = 0;
    const size_t width = 2 + g.Draw(20);
    std::function<Node(size_t)> build = [&](size_t k) {
      if (k <= 1) return Probe(static_cast<int>(made++));
      Node x("Sequence");
      const size_t parts = std::min(width, k);
      for (size_t i = 0; i < parts; ++i) x.K(build(k / parts + (i < k % parts)));
      return x;
    };
    top.push_back(build(n));
    want = UpTo(n);
  }
  }
  PLOG(c) << "kind " << kind << ", size " << n << "\n";
  auto p = ParseProcedureString(ProcXml(top, vars));
  p->Setup();
  const auto* root = p->RootInstruction();
  for (int round = 0; round < 2; ++round)
  {
    hub.order.clear();
    seen.clear();
    const size_t limit = 2 * want.size() + n + 10;
    size_t ticks = 0;
    while (!IsFinishedStatus(root->GetStatus()) && ticks++ < limit) p->ExecuteSingle(ui);
    PCHECK(c, root->GetStatus() == end, "after ", ticks, " executions the root is ", St(root->GetStatus()), " instead of ", St(end));
    PCHECK(c, hub.order.size() == want.size(), hub.order.size(), " leaves were executed instead of ", want.size());
    for (size_t i = 0; i < want.size(); ++i) PCHECK(c, hub.order[i] == want[i], "leaf ", hub.order[i], " was executed as number ", i, " instead of ", want[i]);
    if (n > 5000) break;
    p->Reset(ui);
  }
  c.Label(pbt::Str("kind ", kind));
  if (n > kSmall) c.NonTrivial();
}

// -------------------------------------------------------------------------------------- C12
void Parallel(pbt::Case& c)
{
  auto& g = c.g;
  Hub hub;
  HubScope scope(&hub);
  HookUI ui;
  const size_t n = g.Coin(1, 25) ? Size(g, 600) : Size(g, 80);  // each has a thread
  const int mode = static_cast<int>(g.Draw(3));  // no, success or failure threshold
  const size_t th = 1 + g.Draw(n);
  // With s successes and n - s failures: decided whatever the order (one failure suffices without a failure threshold).
  const size_t s = mode == 0 ? (g.Coin() ? n : n - 1 - g.Draw(n)) : mode == 1 ? (g.Coin() ? n : th - 1) : (g.Coin() ? n - th : n - th + 1);
  const bool good = mode == 0 ? s == n : mode == 1 ? s >= th : n - s < th;
  const size_t shift = g.Draw(n);
  hub.exec = [=](VProbe& p, Workspace&) { return (static_cast<size_t>(p.Pid()) + shift) % n < s ? ES::SUCCESS : ES::FAILURE; };
  Node x("ParallelSequence");
  if (mode == 1) x.A("successThreshold", std::to_string(th));
  if (mode == 2) x.A("failureThreshold", std::to_string(th));
  for (size_t i = 0; i < n; ++i) x.K(Probe(static_cast<int>(i)));
  PLOG(c) << n << " children, " << s << " successful, mode " << mode << ", threshold " << th << "\n";
  auto p = ParseProcedureString(ProcXml({x}));
  p->Setup();
  const auto* root = p->RootInstruction();
  for (int i = 0; i < 20000 && !IsFinishedStatus(root->GetStatus()); ++i)
  {
    p->ExecuteSingle(ui);
    if (i > 5) std::this_thread::sleep_for(std::chrono::microseconds(200));
  }
  PCHECK(c, root->GetStatus() == (good ? ES::SUCCESS : ES::FAILURE), "the end is ", St(root->GetStatus()), " with ", s, " of ", n, " successful");
  p->Reset(ui);
  auto order = hub.order;
  std::sort(order.begin(), order.end());
  PCHECK(c, std::adjacent_find(order.begin(), order.end()) == order.end(), "a child was executed twice");
  // All children are started by the first execution; those not yet running may be halted at the end.
  if (mode == 0 && s == n) PCHECK(c, order == UpTo(n), order.size(), " of ", n, " children were executed");
  if (n > 12) c.NonTrivial();
}

// -------------------------------------------------------------------------------------- C15
class CountIO : public IJobInfoIO
{
public:
  std::mutex mtx;
  std::condition_variable cv;
  uint32_t count = 0;
  std::map<uint32_t, std::vector<ES>> instr;
  std::map<uint32_t, AnyValue> vars;
  std::vector<uint32_t> next;
  std::set<uint32_t> stops;
  std::vector<std::string> messages;
  JobState state = JobState::kInitial;
  void InitNumberOfInstructions(dto::uint32 n) override { count = n; }
  void InstructionStateUpdated(dto::uint32 i, InstructionState s) override
  {
    std::lock_guard<std::mutex> lk(mtx);
    instr[i].push_back(s.m_execution_status);
    if (s.m_breakpoint_set) stops.insert(i);
  }
  void VariableUpdated(dto::uint32 i, const AnyValue& v, bool) override
  {
    std::lock_guard<std::mutex> lk(mtx);
    vars[i] = v;
  }
  void JobStateUpdated(JobState s) override
  {
    std::lock_guard<std::mutex> lk(mtx);
    state = s;
    cv.notify_all();
  }
  void PutValue(const AnyValue&, const std::string&) override {}
  bool GetUserValue(dto::uint64, AnyValue&, const std::string&) override { return false; }
  int GetUserChoice(dto::uint64, const std::vector<std::string>&, const AnyValue&) override { return -1; }
  void Interrupt(dto::uint64) override {}
  void Message(const std::string& m) override
  {
    std::lock_guard<std::mutex> lk(mtx);
    messages.push_back(m);
  }
  void Log(int, const std::string&) override {}
  void NextInstructionsUpdated(const std::vector<dto::uint32>& v) override
  {
    std::lock_guard<std::mutex> lk(mtx);
    next = v;
    cv.notify_all();
  }
};

void Jobs(pbt::Case& c)
{
  auto& g = c.g;
  const size_t n = Size(g, 1200), m = Size(g, 600);
  const size_t length = Size(g, 5000);
  const auto text = Long(g, length);
  Node root("Sequence");
  std::vector<Node> vars;
  const size_t stop = g.Draw(n);
  for (size_t i = 0; i < m; ++i) vars.push_back(LocalVar("v" + std::to_string(i), "{\"type\":\"uint32\"}", std::to_string(i)));
  for (size_t i = 0; i < n; ++i)
  {
    if (i == n / 2) root.K(Node("Message", {{"text", text}}));
    else if (i % 2) root.K(Node("Copy", {{"inputVar", "v" + std::to_string(i % m)}, {"outputVar", "v" + std::to_string((i * 7 + 1) % m)}}));
    else root.K(Node("Succeed"));
  }
  PLOG(c) << n << " instructions, " << m << " variables, message of " << length << " bytes, breakpoint at " << stop << "\n";
  std::vector<uint32_t> value(m);
  for (size_t i = 0; i < m; ++i) value[i] = static_cast<uint32_t>(i);
  for (size_t i = 0; i < n; ++i)
    if (i != n / 2 && i % 2) value[(i * 7 + 1) % m] = value[i % m];
  const bool with_stop = g.Coin();
  CountIO io;
  {
    auto p = ParseProcedureString(ProcXml({root}, vars, {{"tickTimeout", "0"}}));
    LocalJob job(std::move(p), io);
    auto& info = job.GetInfo();
    PCHECK(c, io.count == n + 1 && info.GetNumberOfInstructions() == n + 1 && info.GetNumberOfVariables() == m, io.count, " instructions are reported");
    const auto kids = info.GetRootInstructionInfo()->Children();
    PCHECK(c, kids.size() == n, kids.size(), " children are described");
    if (with_stop) job.SetBreakpoint(kids[stop]->GetIndex());
    auto wait = [&](JobState s) {
      std::unique_lock<std::mutex> lk(io.mtx);
      return io.cv.wait_for(lk, std::chrono::seconds(20), [&] { return io.state == s; });
    };
    job.Start();
    if (with_stop)
    {
      PCHECK(c, wait(JobState::kPaused), "the job does not stop at instruction ", stop);
      std::unique_lock<std::mutex> lk(io.mtx);
      const bool at_stop = stop == 0 || io.cv.wait_for(lk, std::chrono::seconds(20), [&] { return io.next == std::vector<uint32_t>{kids[stop]->GetIndex()}; });
      for (size_t i = 0; i < n; ++i)
      {
        const auto& l = io.instr[kids[i]->GetIndex()];
        const bool done = !l.empty() && l.back() == ES::SUCCESS;
        PCHECK(c, done == (i < stop), "at the breakpoint of instruction ", stop, ", instruction ", i, done ? " is done" : " is not done");
      }
      PCHECK(c, at_stop, "the next instruction is not the one with the breakpoint");
      PCHECK(c, io.stops == std::set<uint32_t>{kids[stop]->GetIndex()}, "the breakpoint is reported for other instructions");
    }
    if (with_stop) job.Start();
    PCHECK(c, wait(JobState::kSucceeded), "the job does not succeed");
    std::lock_guard<std::mutex> lk(io.mtx);
    for (auto* k : kids)
    {
      const auto& l = io.instr[k->GetIndex()];
      PCHECK(c, !l.empty() && l.back() == ES::SUCCESS, "instruction with index ", k->GetIndex(), " is not reported as successful");
    }
    PCHECK(c, io.messages == std::vector<std::string>{text}, "the message is not delivered as it is");
    for (auto& [name, v] : info.GetWorkspaceInfo().GetVariableInfos())
    {
      const auto i = std::stoul(name.substr(1));
      PCHECK(c, io.vars.count(v.GetIndex()) && io.vars[v.GetIndex()] == AnyValue{value[i]}, "variable ", name, " is reported as ", Json(io.vars[v.GetIndex()]), " instead of ", value[i]);
    }
  }
  if (n > kSmall && m > kSmall) c.NonTrivial();
}

// -------------------------------------------------------------------------------- C16, C17
class VCount : public Variable
{
public:
  VCount() : Variable("VCount") {}
  int* ups = nullptr;
  int* downs = nullptr;
  int* common = nullptr;

private:
  bool GetValueImpl(AnyValue&) const override { return false; }
  bool SetValueImpl(const AnyValue&) override { return false; }
  SetupTeardownActions SetupImpl(const Workspace&) override
  {
    ++*ups;
    return {"once", [this] { ++*common; }, [d = downs] { d[1] += 1; }};
  }
  void TeardownImpl() override { ++*downs; }
};

void Variables(pbt::Case& c)
{
  auto& g = c.g;
  const size_t n = Size(g, 1100);
  const size_t length = Size(g, 300);
  const auto base = Long(g, length);
  auto name = [&](size_t i) { return base + std::to_string(i); };
  PLOG(c) << n << " variables with names of " << length << " bytes\n";
  Workspace ws;
  for (size_t i = 0; i < n; ++i)
  {
    auto v = GlobalVariableRegistry().Create("Local");
    v->AddAttribute("type", "{\"type\":\"uint32\"}");
    v->AddAttribute("value", std::to_string(i));
    PCHECK(c, ws.AddVariable(name(i), std::move(v)), "variable ", i, " is refused");
  }
  std::map<std::string, int> heard;
  int listener = 0;
  ws.RegisterGenericCallback([&](const std::string& s, const AnyValue&, bool) { ++heard[s]; }, &listener);
  const size_t own = g.Draw(n);
  int own_heard = 0;
  ws.RegisterCallback(name(own), [&](const AnyValue&, bool) { ++own_heard; }, &listener);
  ws.Setup();
  heard.clear();
  own_heard = 0;
  const auto names = ws.VariableNames();
  PCHECK(c, names.size() == n && ws.GetVariables().size() == n, names.size(), " variables instead of ", n);
  for (size_t i = 0; i < n; ++i) PCHECK(c, names[i] == name(i) && ws.HasVariable(name(i)) && ws.GetVariables()[i] == ws.GetVariable(name(i)), "variable ", i, " is called ", Brief(names[i]));
  const size_t writes = Size(g, n);
  for (size_t k = 0; k < writes; ++k)
  {
    const auto i = n - 1 - k;
    PCHECK(c, ws.SetValue(name(i), AnyValue{static_cast<dto::uint32>(i + 7)}), "variable ", i, " cannot be written");
  }
  for (size_t i = 0; i < n; ++i)
  {
    AnyValue v;
    const auto want = AnyValue{static_cast<dto::uint32>(i + (i >= n - writes ? 7 : 0))};
    PCHECK(c, ws.GetValue(name(i), v) && v == want, "variable ", i, " is ", Json(v), " instead of ", Json(want));
    PCHECK(c, heard[name(i)] == (i >= n - writes), "variable ", i, " was heard of ", heard[name(i)], " times");
  }
  PCHECK(c, own_heard == (own >= n - writes), "its own listener heard of variable ", own, " ", own_heard, " times");
  const size_t r = g.Draw(n);
  PCHECK(c, ws.ResetVariable(name(r)), "no reset of variable ", r);
  for (size_t i = 0; i < n; ++i)
  {
    AnyValue v;
    PCHECK(c, ws.GetValue(name(i), v) && v == AnyValue{static_cast<dto::uint32>(i + (i >= n - writes && i != r ? 7 : 0))}, "after a reset of ", r, " variable ", i, " is ", Json(v));
  }
  if (n > kSmall && writes > kSmall) c.NonTrivial();
}

void Values(pbt::Case& c)
{
  auto& g = c.g;
  const size_t members = Size(g, 400), elements = Size(g, 3000), length = Size(g, 50000);
  auto s = dto::EmptyStruct();
  for (size_t i = 0; i < members; ++i) s.AddMember("m" + std::to_string(i), AnyValue{static_cast<dto::int64>(i)});
  AnyValue a(elements, dto::UnsignedInteger16Type);
  for (size_t i = 0; i < elements; ++i) a[i] = static_cast<dto::uint16>(i * 3);
  const auto text = Long(g, length);
  s.AddMember("array", a);
  s.AddMember("text", text);
  const bool file = g.Draw(3) == 0;
  PLOG(c) << members << " members, " << elements << " elements, text of " << length << " bytes" << (file ? ", in a file" : "") << "\n";
  Scratch dir;
  Workspace ws(dir.path + "/p.xml");
  auto v = GlobalVariableRegistry().Create(file ? "File" : "Local");
  if (file)
  {
    dir.File("f.json");
    v->AddAttribute("file", "f.json");
    if (g.Coin()) v->AddAttribute("pretty", "true");
  }
  else
  {
    v->AddAttribute("type", dto::AnyTypeToJSONString(s.GetType()));
    if (g.Coin()) v->AddAttribute("value", Json(s));
  }
  ws.AddVariable("v", std::move(v));
  AnyValue heard;
  int listener = 0;
  ws.RegisterCallback("v", [&](const AnyValue& x, bool) { heard = x; }, &listener);
  ws.Setup();
  PCHECK(c, ws.SetValue("v", s), "the value is refused");
  AnyValue back;
  PCHECK(c, heard == s && heard.GetType() == s.GetType(), "another value is announced");
  PCHECK(c, ws.GetValue("v", back) && back == s, "another value is read");
  const auto i = g.Draw(elements), k = g.Draw(members);
  AnyValue x;
  PCHECK(c, ws.GetValue("v.array[" + std::to_string(i) + "]", x) && x == AnyValue{static_cast<dto::uint16>(i * 3)}, "element ", i, " is ", Json(x));
  AnyValue y;
  PCHECK(c, ws.GetValue("v.m" + std::to_string(k), y) && y == AnyValue{static_cast<dto::int64>(k)}, "member ", k, " is ", Json(y));
  PCHECK(c, ws.SetValue("v.array[" + std::to_string(i) + "]", AnyValue{dto::uint16{9}}), "element ", i, " cannot be written");
  s["array"][i] = dto::uint16{9};
  AnyValue again;
  PCHECK(c, ws.GetValue("v", again) && again == s && heard == s, "after writing element ", i, " the value is another");
  ws.Teardown();
  if (members > kSmall || elements > kSmall || length > 500) c.NonTrivial();
}

void Cycles(pbt::Case& c)
{
  auto& g = c.g;
  const size_t n = Size(g, 2000), cycles = Size(g, 100);
  int ups = 0, common = 0;
  int downs[2] = {0, 0};
  PLOG(c) << n << " variables, " << cycles << " cycles\n";
  Workspace ws;
  for (size_t i = 0; i < n; ++i)
  {
    auto v = std::make_unique<VCount>();
    v->ups = &ups;
    v->downs = downs;
    v->common = &common;
    ws.AddVariable("v" + std::to_string(i), std::move(v));
  }
  for (size_t k = 1; k <= cycles; ++k)
  {
    ws.Setup();
    PCHECK(c, ups == static_cast<int>(n * k), ups, " variables were set up in ", k, " cycles instead of ", n * k);
    PCHECK(c, common == static_cast<int>(k) && downs[1] == static_cast<int>(k - 1), "the common setup was done ", common, " times, the common teardown ", downs[1], " times in cycle ", k);
    ws.Teardown();
    PCHECK(c, downs[0] == static_cast<int>(n * k) && downs[1] == static_cast<int>(k), downs[0], " variables were torn down in ", k, " cycles instead of ", n * k);
  }
  if (n > kSmall && cycles > 3) c.NonTrivial();
}

// -------------------------------------------------------------------------------- C19, C20
bool Run(Procedure& p, UserInterface& ui, size_t limit, ES& end)
{
  const auto* root = p.RootInstruction();
  for (size_t i = 0; i < limit && !IsFinishedStatus(root->GetStatus()); ++i) p.ExecuteSingle(ui);
  end = root->GetStatus();
  return IsFinishedStatus(end);
}

void Growing(pbt::Case& c)
{
  auto& g = c.g;
  const auto kind = g.Draw(3);
  const size_t n = Size(g, kind == 2 ? 70000 : 500);
  HookUI ui;
  std::vector<Node> vars = {LocalVar("i", "{\"type\":\"uint32\"}", "0")};
  const auto inc = Node("Increment", {{"varName", "i"}});
  Node step = inc;
  switch (kind)
  {
  case 0:
    vars.push_back(LocalVar("a", "{\"type\":\"\",\"multiplicity\":0,\"element\":{\"type\":\"uint32\"}}", "[]").A("dynamicType", "true"));
    step = Node("Sequence").K(Node("AddElement", {{"inputVar", "i"}, {"outputVar", "a"}})).K(inc);
    break;
  case 1:
    vars.push_back(LocalVar("a", "", "").A("dynamicType", "true"));
    step = Node("Sequence");
    break;
  default: break;
  }
  std::vector<Node> top;
  if (kind == 1)
  {
    vars[1] = LocalVar("a", "{\"type\":\"\",\"attributes\":[{\"first\":{\"type\":\"uint32\"}}]}", "{\"first\":7}").A("dynamicType", "true");
    Node all("Sequence");
    for (size_t i = 0; i < n; ++i)
    {
      all.K(Node("AddMember", {{"inputVar", "i"}, {"outputVar", "a"}, {"varType", "x"}, {"memberName", "m" + std::to_string(i)}}));
      all.kids.back().attrs.erase(all.kids.back().attrs.begin() + 2);
      all.K(inc);
    }
    top.push_back(all);
  }
  else top.push_back(Node("Repeat", {{"maxCount", std::to_string(n)}}).K(step));
  PLOG(c) << "kind " << kind << ", " << n << " times\n";
  std::string errors;
  ui.on_log = [&](int, const std::string& m) { errors += Brief(m) + "; "; };
  auto p = ParseProcedureString(ProcXml(top, vars));
  p->Setup();
  ES end;
  PCHECK(c, Run(*p, ui, 3 * n + 10, end) && end == ES::SUCCESS, "the end is ", St(end), " ", errors);
  AnyValue v;
  auto& ws = p->GetWorkspace();
  PCHECK(c, ws.GetValue("i", v) && v == AnyValue{static_cast<dto::uint32>(n)}, "counted to ", Json(v), " instead of ", n);
  AnyValue a;
  if (kind == 0)
  {
    PCHECK(c, ws.GetValue("a", a) && a.NumberOfElements() == n, a.NumberOfElements(), " elements instead of ", n);
    for (size_t i = 0; i < n; ++i) PCHECK(c, a[i] == AnyValue{static_cast<dto::uint32>(i)}, "element ", i, " is ", Json(a[i]));
  }
  if (kind == 1)
  {
    PCHECK(c, ws.GetValue("a", a) && a.MemberNames().size() == n + 1, a.MemberNames().size(), " members instead of ", n + 1);
    for (size_t i = 0; i < n; ++i) PCHECK(c, a.MemberNames()[i + 1] == "m" + std::to_string(i) && a[a.MemberNames()[i + 1]] == AnyValue{static_cast<dto::uint32>(i)}, "member ", i);
  }
  if (n > kSmall) c.NonTrivial();
}

void Equality(pbt::Case& c)
{
  auto& g = c.g;
  const auto kind = g.Draw(3);
  const size_t n = Size(g, 3000);
  AnyValue a;
  switch (kind)
  {
  case 0:
    a = AnyValue(n, dto::SignedInteger32Type);
    for (size_t i = 0; i < n; ++i) a[i] = static_cast<dto::int32>(i % 5);
    break;
  case 1:
    a = dto::EmptyStruct();
    for (size_t i = 0; i < n / 4 + 1; ++i) a.AddMember("m" + std::to_string(i), AnyValue{static_cast<dto::int32>(i % 5)});
    break;
  default: a = AnyValue{Long(g, n)};
  }
  AnyValue b = a;
  const bool same = g.Coin();
  const size_t size = kind == 1 ? n / 4 + 1 : n;
  const size_t at = g.Coin() ? size - 1 : g.Draw(size);
  if (!same)
  {
    if (kind == 0) b[at] = dto::int32{77};
    else if (kind == 1) b["m" + std::to_string(at)] = dto::int32{77};
    else
    {
      auto t = a.As<std::string>();
      t[at] = '#';
      b = AnyValue{t};
    }
  }
  PLOG(c) << "kind " << kind << " size " << size << (same ? ", equal" : pbt::Str(", different at ", at)) << "\n";
  auto var = [](const char* name, const AnyValue& v) { return LocalVar(name, dto::AnyTypeToJSONString(v.GetType()), Json(v)); };
  HookUI ui;
  auto p = ParseProcedureString(ProcXml({Node("Equals", {{"leftVar", "a"}, {"rightVar", "b"}})}, {var("a", a), var("b", b)}));
  p->Setup();
  ES end;
  PCHECK(c, Run(*p, ui, 5, end) && end == (same ? ES::SUCCESS : ES::FAILURE), same ? "equal" : "different", " values of size ", size, " are compared as ", St(end));
  if (size > kSmall) c.NonTrivial();
}

// -------------------------------------------------------------------------------------- C21
class VMaybe : public Variable
{
public:
  static inline const std::string Type = "VMaybe";
  VMaybe() : Variable(Type) {}

private:
  bool GetValueImpl(AnyValue&) const override { return false; }
  bool SetValueImpl(const AnyValue&) override { return false; }
  bool IsAvailableImpl() const override { return HasAttribute("on"); }
};

void Availability(pbt::Case& c)
{
  auto& g = c.g;
  const size_t n = Size(g, 300);
  const int missing = static_cast<int>(g.Draw(4)) - 1;  // number of unavailable ones
  const bool others = g.Coin();
  std::set<size_t> out;
  for (int i = 0; i < missing; ++i) out.insert(g.Coin() ? n - 1 - i % n : g.Draw(n));
  std::vector<Node> vars;
  for (size_t i = 0; i < n; ++i)
  {
    const auto v = "v" + std::to_string(i);
    vars.push_back(Node("VMaybe", {{"name", v}}));
    if (!out.count(i)) vars.back().A("on", "1");
    if (others && i % 3 == 0) vars.push_back(LocalVar("x" + v, "{\"type\":\"int8\"}", "1"));
  }
  PLOG(c) << n << " variables";
  for (auto i : out) PLOG(c) << ", without " << i;
  PLOG(c) << "\n";
  std::string warning;
  HookUI ui;
  ui.on_log = [&](int, const std::string& m) { warning += m; };
  Node x("WaitForVariables", {{"timeout", "0"}});
  x.A("varType", "VMaybe");
  auto p = ParseProcedureString(ProcXml({x}, vars));
  p->Setup();
  ES end;
  PCHECK(c, Run(*p, ui, 3, end) && end == (out.empty() ? ES::SUCCESS : ES::FAILURE), "with ", out.size(), " of ", n, " variables unavailable, the end is ", St(end), " ", Brief(warning));
  if (n > kSmall && !out.empty()) c.NonTrivial();
}

// -------------------------------------------------------------------------------------- C22
void Texts(pbt::Case& c)
{
  auto& g = c.g;
  const auto kind = g.Draw(5);
  const size_t n = kind == 4 ? Size(g, 400) : Size(g, 70000);
  const auto text = Long(g, n);
  const bool from_var = g.Coin();
  const std::string attr = from_var ? "@t" : text;
  std::vector<Node> vars = {LocalVar("t", "{\"type\":\"string\"}", "\"\""), LocalVar("x", "{\"type\":\"int32\"}", "5")};
  std::vector<std::string> got;
  HookUI ui;
  ui.on_message = [&](const std::string& m) { got.push_back(m); };
  ui.on_log = [&](int, const std::string& m) { got.push_back(m); };
  ui.on_put = [&](const AnyValue&, const std::string& d) {
    got.push_back(d);
    return true;
  };
  const size_t choice = g.Draw(n);
  Hub hub;
  HubScope scope(&hub);
  ui.on_request = [&](const UserInputRequest& r) {
    auto f = std::make_unique<FnFuture>();
    f->ready = [] { return true; };
    AnyValue v;
    std::string d;
    std::vector<std::string> options;
    if (ParseUserValueRequest(r, v, d))
    {
      got.push_back(d);
      f->value = [] { return CreateUserValueReply(true, AnyValue{dto::int32{6}}); };
    }
    else
    {
      PCHECK(c, ParseUserChoiceRequest(r, options, v) && options.size() == n, options.size(), " options instead of ", n);
      for (size_t i = 0; i < n; ++i) PCHECK(c, options[i] == "n" + std::to_string(i) + " (type:VProbe)", "option ", i, " is ", options[i]);
      f->value = [choice] { return CreateUserChoiceReply(true, static_cast<int>(choice)); };
    }
    return std::unique_ptr<IUserInputFuture>(std::move(f));
  };
  Node x;
  switch (kind)
  {
  case 0: x = Node("Message", {{"text", attr}}); break;
  case 1: x = Node("Log", {{"message", attr}}); break;
  case 2: x = Node("Output", {{"fromVar", "x"}, {"description", attr}}); break;
  case 3: x = Node("Input", {{"outputVar", "x"}, {"description", attr}}); break;
  default:
    x = Node("UserChoice");
    for (size_t i = 0; i < n; ++i) x.K(Probe(static_cast<int>(i)).A("name", "n" + std::to_string(i)));
  }
  PLOG(c) << "kind " << kind << ", size " << n << (from_var ? ", from a variable" : "") << "\n";
  auto p = ParseProcedureString(ProcXml({x}, vars));
  p->Setup();
  p->GetWorkspace().SetValue("t", AnyValue{text});
  ES end;
  PCHECK(c, Run(*p, ui, 10, end) && end == ES::SUCCESS, "the end is ", St(end), got.empty() ? "" : " " + Brief(got[0]));
  if (kind == 4) PCHECK(c, hub.order == std::vector<int>{static_cast<int>(choice)}, "another instruction than the chosen one was executed");
  else if (kind == 1) PCHECK(c, got.size() == 1 && got[0].find(text) != std::string::npos, "another text was logged: ", got.empty() ? "none" : Brief(got[0]));
  else PCHECK(c, got == std::vector<std::string>{text}, "another text was delivered: ", got.empty() ? "none" : Brief(got[0]));
  if (n > kSmall) c.NonTrivial();
}

// -------------------------------------------------------------------------------------- C23
void Attributes(pbt::Case& c)
{
  auto& g = c.g;
  const size_t n = Size(g, 400), length = Size(g, 5000);
  const auto base = Long(g, 1 + g.Draw(40));
  auto name = [&](size_t i) { return base + std::to_string(i); };
  AttributeHandler h;
  for (size_t i = 0; i < n; ++i) h.AddAttributeDefinition(name(i), i % 2 ? dto::SignedInteger32Type : dto::StringType).SetMandatory();
  const int bad = static_cast<int>(g.Draw(4));  // 0, 3: nothing; 1: missing; 2: wrong
  size_t at = g.Coin() ? n - 1 : g.Draw(n);
  if (bad == 2 && at % 2 == 0) at = at + 1 < n ? at + 1 : at - (at > 0);
  const bool wrong = bad == 2 && at % 2, missing = bad == 1;
  const auto text = Long(g, length);
  for (size_t i = 0; i < n; ++i)
    if (!missing || i != at) h.AddStringAttribute(name(i), i % 2 ? (wrong && i == at ? "x" : std::to_string(i)) : text + std::to_string(i));
  PLOG(c) << n << " attributes of " << length << " bytes" << (wrong ? pbt::Str(", wrong at ", at) : missing ? pbt::Str(", without ", at) : "") << "\n";
  const bool good = h.ValidateAttributes();
  PCHECK(c, good == (!wrong && !missing), "the attributes are ", good ? "accepted" : "refused");
  const auto failed = h.GetFailedConstraints();
  PCHECK(c, failed.size() == (good ? 0u : 1u) && (good || failed[0].find(name(at)) != std::string::npos), failed.size(), " failed constraints");
  if (good)
    for (size_t i = 0; i < n; ++i)
    {
      AnyValue v;
      PCHECK(c, h.GetValue(name(i), v) && v == (i % 2 ? AnyValue{static_cast<dto::int32>(i)} : AnyValue{text + std::to_string(i)}), "attribute ", i, " is ", Brief(Json(v)));
    }
  PCHECK(c, h.GetStringAttributes().size() == n - missing && h.GetAttributeDefinitions().size() == n, "the lists of attributes are incomplete");
  if (n > kSmall || length > 500) c.NonTrivial();
}

// -------------------------------------------------------------------------------------- C25
void Includes(pbt::Case& c)
{
  auto& g = c.g;
  Scratch dir;
  const auto kind = g.Draw(4);
  std::vector<std::string> got, want;
  HookUI ui;
  ui.on_message = [&](const std::string& m) { got.push_back(m); };
  std::string xml;
  size_t n = 0;
  switch (kind)
  {
  case 0:
  {
    // a chain of included files, the last of which says something
    n = Size(g, 60);
    for (size_t i = 1; i <= n; ++i)
    {
      Node x = i == n ? Node("Message", {{"text", "$t"}}) : Node("Include", {{"file", "f" + std::to_string(i + 1) + ".xml"}, {"path", "r"}, {"t", "$t"}});
      x.A("name", "r");
      dir.Write("f" + std::to_string(i) + ".xml", ProcXml({x}));
    }
    const auto text = Long(g, Size(g, 3000));
    xml = ProcXml({Node("Include", {{"file", "f1.xml"}, {"path", "r"}, {"t", text}})});
    want = {text};
    break;
  }
  case 1:
  {
    // many files
    n = Size(g, 150);
    Node all("Sequence");
    for (size_t i = 0; i < n; ++i)
    {
      const auto m = "m" + std::to_string(i);
      dir.Write(m + ".xml", ProcXml({Node("Message", {{"name", "r"}, {"text", m}})}));
      all.K(Node("Include", {{"file", m + ".xml"}, {"path", "r"}}));
      want.push_back(m);
    }
    xml = ProcXml({all});
    break;
  }
  case 2:
  {
    // the same one many times, with other parameters
    n = Size(g, 600);
    Node all("Sequence");
    dir.Write("f.xml", ProcXml({Node("Message", {{"name", "r"}, {"text", "$t"}})}));
    for (size_t i = 0; i < n; ++i)
    {
      all.K(Node("Include", {{"file", "f.xml"}, {"path", "r"}, {"t", "p" + std::to_string(i)}}));
      want.push_back("p" + std::to_string(i));
    }
    xml = ProcXml({all});
    break;
  }
  default:
  {
    // one deep inside, with many parameters
    n = Size(g, 100);
    Node x("Sequence", {{"name", "n" + std::to_string(n)}});
    Node inc("Include", {{"file", "f.xml"}});
    std::string path;
    const size_t params = Size(g, 100);
    for (size_t i = 0; i < params; ++i)
    {
      x.K(Node("Message", {{"text", "$p" + std::to_string(i)}}));
      inc.A("p" + std::to_string(i), "value " + std::to_string(i));
      want.push_back("value " + std::to_string(i));
    }
    for (size_t i = n; i-- > 0;) x = Node("Sequence", {{"name", "n" + std::to_string(i)}}).K(std::move(x));
    for (size_t i = 0; i <= n; ++i) path += (i ? "." : "") + std::string("n") + std::to_string(i);
    inc.A("path", path);
    dir.Write("f.xml", ProcXml({x}));
    xml = ProcXml({inc});
    n = std::max(n, params);
  }
  }
  PLOG(c) << "kind " << kind << ", size " << n << "\n";
  auto p = ParseProcedureFile(dir.Write("main.xml", xml));
  p->Setup();
  for (int round = 0; round < 2; ++round)
  {
    got.clear();
    ES end;
    PCHECK(c, Run(*p, ui, 2 * want.size() + 10, end) && end == ES::SUCCESS, "the end is ", St(end));
    PCHECK(c, got.size() == want.size(), got.size(), " messages instead of ", want.size());
    for (size_t i = 0; i < want.size(); ++i) PCHECK(c, got[i] == want[i], "message ", i, " is ", Brief(got[i]), " instead of ", Brief(want[i]));
    p->Reset(ui);
  }
  if (n > 10) c.NonTrivial();
}

// -------------------------------------------------------------------------------------- C28
void Requests(pbt::Case& c)
{
  auto& g = c.g;
  const size_t n = Size(g, 600);
  const size_t dropped = g.Draw(3) == 0 ? g.Draw(n) : n;  // one that is withdrawn
  const bool forward = g.Coin();
  std::vector<std::string> asked;
  std::mutex mtx;
  std::condition_variable cv;
  bool go = false;
  auto answer = [](size_t i) { return AnyValue{static_cast<dto::uint32>(i * 3 + 1)}; };
  PLOG(c) << n << " requests" << (dropped < n ? pbt::Str(", without ", dropped) : "") << "\n";
  {
    AsyncInputAdapter adapter(
      [&](const UserInputRequest& r, dto::uint64) {
        std::unique_lock<std::mutex> lk(mtx);
        cv.wait(lk, [&] { return go; });
        AnyValue v;
        std::string d;
        ParseUserValueRequest(r, v, d);
        asked.push_back(d);
        return CreateUserValueReply(true, answer(std::stoul(d)));
      },
      [](dto::uint64) {});
    std::vector<std::unique_ptr<IUserInputFuture>> futures;
    std::set<uint64_t> ids;
    for (size_t i = 0; i < n; ++i)
    {
      futures.push_back(adapter.AddUserInputRequest(CreateUserValueRequest(AnyValue{dto::uint32{0}}, std::to_string(i))));
      ids.insert(futures.back()->GetId());
    }
    PCHECK(c, ids.size() == n, "two of ", n, " requests have the same id");
    if (dropped > 0 && dropped < n) futures[dropped].reset();
    {
      std::lock_guard<std::mutex> lk(mtx);
      go = true;
    }
    cv.notify_all();
    for (size_t k = 0; k < n; ++k)
    {
      const size_t i = forward ? k : n - 1 - k;
      if (!futures[i]) continue;
      PCHECK(c, futures[i]->WaitFor(20), "request ", i, " of ", n, " is not answered");
      const auto r = futures[i]->GetValue();
      const auto [ok, v] = ParseUserValueReply(r);
      PCHECK(c, ok && v == answer(i), "request ", i, " got the answer ", Json(v));
    }
  }
  std::vector<std::string> want;
  for (size_t i = 0; i < n; ++i)
    if (dropped == 0 || i != dropped) want.push_back(std::to_string(i));
  PCHECK(c, asked == want, asked.size(), " requests reached the user instead of ", want.size(), ", or in another order");
  if (n > kSmall) c.NonTrivial();
}

// -------------------------------------------------------------------------------------- C31
void Editing(pbt::Case& c)
{
  auto& g = c.g;
  const size_t n = Size(g, 1000), m = Size(g, 300);
  Procedure p;
  std::vector<Instruction*> top;
  PLOG(c) << n << " instructions at the top, " << m << " children\n";
  const auto where = g.Draw(3);
  for (size_t i = 0; i < n; ++i)
  {
    auto x = GlobalInstructionRegistry().Create("Sequence");
    auto* raw = x.get();
    const size_t at = where == 0 ? top.size() : where == 1 ? 0 : top.size() / 2;
    PCHECK(c, p.InsertInstruction(std::move(x), static_cast<int>(at)), "instruction ", i, " cannot be added");
    top.insert(top.begin() + at, raw);
  }
  auto* parent = top[g.Draw(n)];
  std::vector<const Instruction*> kids;
  for (size_t i = 0; i < m; ++i)
  {
    auto x = GlobalInstructionRegistry().Create("Succeed");
    auto* raw = x.get();
    const size_t at = where == 0 ? kids.size() : where == 1 ? 0 : kids.size() / 2;
    PCHECK(c, parent->InsertInstruction(std::move(x), static_cast<int>(at)), "child ", i, " cannot be added");
    kids.insert(kids.begin() + at, raw);
  }
  auto same = [&] {
    const auto t = const_cast<const Procedure&>(p).GetTopInstructions();
    PCHECK(c, t.size() == top.size() && p.GetInstructionCount() == static_cast<int>(top.size()), t.size(), " instructions instead of ", top.size());
    for (size_t i = 0; i < t.size(); ++i) PCHECK(c, t[i] == top[i], "instruction ", i, " is another one");
    const auto k = const_cast<const Instruction*>(parent)->ChildInstructions();
    PCHECK(c, std::vector<const Instruction*>(k.begin(), k.end()) == kids && parent->ChildrenCount() == static_cast<int>(kids.size()), "the children are others");
  };
  same();
  for (int k = 0; k < 3; ++k)
  {
    if (top.size() > 1)
    {
      const auto i = g.Draw(top.size());
      if (top[i] != parent)
      {
        auto x = p.TakeInstruction(static_cast<int>(i));
        PCHECK(c, x.get() == top[i], "another instruction than number ", i, " was taken");
        top.erase(top.begin() + i);
      }
    }
    if (!kids.empty())
    {
      const auto i = g.Draw(kids.size());
      auto x = parent->TakeInstruction(static_cast<int>(i));
      PCHECK(c, x.get() == kids[i], "another child than number ", i, " was taken");
      kids.erase(kids.begin() + i);
    }
  }
  same();
  if (n > kSmall && m > kSmall) c.NonTrivial();
}

// -------------------------------------------------------------------------------------- C30
void Waiters(pbt::Case& c)
{
  auto& g = c.g;
  const size_t n = Size(g, 100), changes = Size(g, 1000);
  const size_t by_state = g.Draw(n + 1);
  PLOG(c) << n << " waiting threads, " << by_state << " for a certain state, " << changes << " changes\n";
  utils::SimpleJobStateMonitor monitor;
  std::atomic<size_t> ready{0}, right{0};
  std::vector<std::thread> threads;
  for (size_t i = 0; i < n; ++i)
    threads.emplace_back([&, i] {
      ++ready;
      if (i < by_state) right += monitor.WaitForState(JobState::kSucceeded, 20);
      else right += monitor.WaitForFinished() == JobState::kSucceeded;
    });
  while (ready < n) std::this_thread::yield();
  if (g.Coin()) std::this_thread::sleep_for(std::chrono::milliseconds(1));
  for (size_t i = 0; i < changes; ++i) monitor.OnStateChange(i % 3 == 0 ? JobState::kRunning : i % 3 == 1 ? JobState::kStepping : JobState::kPaused);
  monitor.OnStateChange(JobState::kSucceeded);
  for (auto& t : threads) t.join();
  PCHECK(c, right == n, right, " of ", n, " waiting threads saw the end");
  if (n > 8) c.NonTrivial();
}

OAC_FACET("C08", "large-trees", Trees, Opts(4000, 60000, "more than 40 children, levels or iterations", 10));
OAC_FACET("C12", "many-children", Parallel, Opts(4000, 60000, "more than twelve children", 10));
OAC_FACET("C15", "large-jobs", Jobs, Opts(1000, 20000, "more than 40 instructions and variables", 10));
OAC_FACET("C16", "many-variables", Variables, Opts(300, 30000, "more than 40 variables, and values written", 8));
OAC_FACET("C16", "large-values", Values, Opts(1500, 60000, "more than 40 members or elements, or a text longer than 500 bytes", 8));
OAC_FACET("C17", "many-cycles", Cycles, Opts(2000, 30000, "more than 40 variables and three cycles", 8));
OAC_FACET("C19", "growing", Growing, Opts(600, 30000, "more than 40 changes", 8));
OAC_FACET("C20", "large-values", Equality, Opts(8000, 100000, "more than 40 elements, members or characters", 8));
OAC_FACET("C21", "many-variables", Availability, Opts(6000, 100000, "more than 40 variables, of which some are not available", 8));
OAC_FACET("C22", "long-texts", Texts, Opts(10000, 100000, "a text longer than 40 bytes, or more than 40 options", 8));
OAC_FACET("C23", "many-attributes", Attributes, Opts(5000, 100000, "more than 40 attributes, or texts longer than 500 bytes", 8));
OAC_FACET("C25", "many-includes", Includes, Opts(800, 40000, "more than ten levels, files, includes or parameters", 10));
OAC_FACET("C28", "many-requests", Requests, Opts(4000, 60000, "more than 40 requests", 8));
OAC_FACET("C30", "many-waiters", Waiters, Opts(1500, 60000, "more than eight waiting threads", 8));
OAC_FACET("C31", "large-edits", Editing, Opts(3000, 40000, "more than 40 instructions and children", 8));

struct Init
{
  Init() { pbt::SetWorkerInit([] { RegisterProbe(); if (!GlobalVariableRegistry().IsRegisteredVariableName("VMaybe")) RegisterGlobalVariable<VMaybe>(); }); }
} g_init;
}  // namespace
