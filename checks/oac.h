// Shared helpers of the checks that drive the whole library: an XML builder, a recording user
// interface and an instruction ("VProbe") whose behaviour is scripted by the check.
#ifndef VERIF_OAC_H_
#define VERIF_OAC_H_

#include "pbt.h"

#include <sup/oac-tree/exceptions.h>
#include <sup/oac-tree/execution_status.h>
#include <sup/oac-tree/i_user_input_future.h>
#include <sup/oac-tree/instruction.h>
#include <sup/oac-tree/instruction_registry.h>
#include <sup/oac-tree/instruction_tree.h>
#include <sup/oac-tree/procedure.h>
#include <sup/oac-tree/sequence_parser.h>
#include <sup/oac-tree/user_interface.h>
#include <sup/oac-tree/variable.h>
#include <sup/oac-tree/variable_registry.h>
#include <sup/oac-tree/workspace.h>

#include <sup/dto/anyvalue.h>
#include <sup/dto/anyvalue_helper.h>

#include <functional>
#include <memory>
#include <mutex>
#include <string>
#include <utility>
#include <vector>

// Facets of checks built in several variants: the sanitized one explores fewer cases.
#ifdef VERIF_ASAN
#define OAC_FACET(prop, name, fn, opts) static pbt::Facet facet_##fn(prop, name "-asan", fn, oac::Fewer(opts))
#else
#define OAC_FACET(prop, name, fn, opts) static pbt::Facet facet_##fn(prop, name, fn, opts)
#endif

namespace oac
{
inline pbt::FacetOpts Fewer(pbt::FacetOpts o)
{
  o.quick = o.quick / 10 + 1;
  o.thorough = o.thorough / 10 + 1;
  return o;
}

inline pbt::FacetOpts Opts(uint64_t quick, uint64_t thorough, const char* rule, double quick_cap = 15, double thorough_cap = 240)
{
  pbt::FacetOpts o;
  o.quick = quick;
  o.thorough = thorough;
  o.rule = rule;
  o.quick_cap_s = quick_cap;
  o.thorough_cap_s = thorough_cap;
  return o;
}

using namespace sup::oac_tree;
using sup::dto::AnyValue;
using sup::dto::AnyType;
using ES = ExecutionStatus;

inline std::string Escape(const std::string& s)
{
  std::string r;
  for (unsigned char ch : s)
  {
    switch (ch)
    {
    case '&': r += "&amp;"; break;
    case '<': r += "&lt;"; break;
    case '>': r += "&gt;"; break;
    case '"': r += "&quot;"; break;
    case '\n': r += "&#10;"; break;
    case '\r': r += "&#13;"; break;
    case '\t': r += "&#9;"; break;
    default: r += static_cast<char>(ch);
    }
  }
  return r;
}

struct Node
{
  std::string type;
  std::vector<std::pair<std::string, std::string>> attrs;
  std::vector<Node> kids;
  std::string content;

  Node(std::string t = "") : type(std::move(t)) {}
  Node(std::string t, std::vector<std::pair<std::string, std::string>> a) : type(std::move(t)), attrs(std::move(a)) {}
  Node& A(const std::string& k, const std::string& v)
  {
    attrs.emplace_back(k, v);
    return *this;
  }
  Node& K(Node k)
  {
    kids.push_back(std::move(k));
    return *this;
  }
};

inline void AppendXml(const Node& n, std::string& out, int indent)
{
  out += std::string(indent, ' ') + "<" + n.type;
  for (auto& [k, v] : n.attrs) out += " " + k + "=\"" + Escape(v) + "\"";
  if (n.kids.empty() && n.content.empty())
  {
    out += "/>\n";
    return;
  }
  out += ">";
  out += n.content.empty() ? "" : Escape(n.content);
  if (!n.kids.empty())
  {
    out += "\n";
    for (auto& k : n.kids) AppendXml(k, out, indent + 2);
    out += std::string(indent, ' ');
  }
  out += "</" + n.type + ">\n";
}

inline std::string ToXml(const Node& n)
{
  std::string out;
  AppendXml(n, out, 0);
  return out;
}

inline std::string ProcXml(const std::vector<Node>& instructions, const std::vector<Node>& vars = {},
                           const std::vector<std::pair<std::string, std::string>>& attrs = {},
                           const std::vector<Node>& preamble = {})
{
  Node p("Procedure", attrs);
  for (auto& n : preamble) p.K(n);
  for (auto& n : instructions) p.K(n);
  if (!vars.empty())
  {
    Node ws("Workspace");
    ws.kids = vars;
    p.K(ws);
  }
  return "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n" + ToXml(p);
}

inline Node LocalVar(const std::string& name, const std::string& type, const std::string& value)
{
  Node n("Local", {{"name", name}});
  if (!type.empty()) n.A("type", type);
  if (!value.empty()) n.A("value", value);
  return n;
}

inline std::string St(ES s)
{
  switch (s)
  {
  case ES::NOT_STARTED: return "not-started";
  case ES::NOT_FINISHED: return "not-finished";
  case ES::RUNNING: return "running";
  case ES::SUCCESS: return "success";
  case ES::FAILURE: return "failure";
  }
  return "status?" + std::to_string(static_cast<int>(s));
}

// ------------------------------------------------------------------------------------- futures
class FnFuture : public IUserInputFuture
{
public:
  std::function<bool()> ready;
  std::function<UserInputReply()> value;
  std::function<void()> dropped;
  sup::dto::uint64 id = 0;
  ~FnFuture() override
  {
    if (dropped) dropped();
  }
  sup::dto::uint64 GetId() const override { return id; }
  bool IsValid() const override { return true; }
  bool IsReady() const override { return ready(); }
  bool WaitFor(double) const override { return ready(); }
  UserInputReply GetValue() override { return value(); }
};

// A user interface that hands every call to optional callbacks.
class HookUI : public UserInterface
{
public:
  std::function<void(const Instruction*)> on_status;
  std::function<void(const std::string&, const AnyValue&, bool)> on_variable;
  std::function<bool(const AnyValue&, const std::string&)> on_put;
  std::function<std::unique_ptr<IUserInputFuture>(const UserInputRequest&)> on_request;
  std::function<void(const std::string&)> on_message;
  std::function<void(int, const std::string&)> on_log;

  void UpdateInstructionStatus(const Instruction* i) override
  {
    if (on_status) on_status(i);
  }
  void VariableUpdated(const std::string& n, const AnyValue& v, bool c) override
  {
    if (on_variable) on_variable(n, v, c);
  }
  bool PutValue(const AnyValue& v, const std::string& d) override { return on_put ? on_put(v, d) : false; }
  std::unique_ptr<IUserInputFuture> RequestUserInput(const UserInputRequest& r) override
  {
    return on_request ? on_request(r) : nullptr;
  }
  void Message(const std::string& m) override
  {
    if (on_message) on_message(m);
  }
  void Log(int s, const std::string& m) override
  {
    if (on_log) on_log(s, m);
  }
};

// --------------------------------------------------------------------------------------- probe
class VProbe;

struct ProbeHub
{
  virtual ~ProbeHub() = default;
  virtual bool Init(VProbe&, UserInterface&, Workspace&) { return true; }
  virtual ES Exec(VProbe&, UserInterface&, Workspace&) = 0;
  virtual void Halted(VProbe&) {}
  virtual void ResetDone(VProbe&, UserInterface&) {}
  virtual void SetupDone(VProbe&, const Procedure&) {}
};

inline ProbeHub*& Hub()
{
  static ProbeHub* hub = nullptr;
  return hub;
}

class VProbe : public Instruction
{
public:
  VProbe() : Instruction("VProbe") {}
  int Pid() const { return HasAttribute("pid") ? std::atoi(GetAttributeString("pid").c_str()) : -1; }

private:
  void SetupImpl(const Procedure& p) override
  {
    if (Hub()) Hub()->SetupDone(*this, p);
  }
  bool InitHook(UserInterface& ui, Workspace& ws) override { return Hub()->Init(*this, ui, ws); }
  ES ExecuteSingleImpl(UserInterface& ui, Workspace& ws) override { return Hub()->Exec(*this, ui, ws); }
  void HaltImpl() override
  {
    if (Hub()) Hub()->Halted(*this);
  }
  void ResetHook(UserInterface& ui) override
  {
    if (Hub()) Hub()->ResetDone(*this, ui);
  }
};

struct HubScope
{
  explicit HubScope(ProbeHub* h) { Hub() = h; }
  ~HubScope() { Hub() = nullptr; }
};

// Registers the probe; call it from the worker initialisation.
inline void RegisterProbe()
{
  auto& reg = GlobalInstructionRegistry();
  if (!reg.IsRegisteredInstructionName("VProbe"))
    reg.RegisterInstruction("VProbe", []() -> Instruction* { return new VProbe(); });
}

inline Node Probe(int pid)
{
  return Node("VProbe", {{"pid", std::to_string(pid)}});
}

inline std::string Json(const AnyValue& v)
{
  return sup::dto::ValuesToJSONString(v);
}
}  // namespace oac
#endif
