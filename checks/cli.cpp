// C29: the command line program and the daemon run the given procedure: what it shows, asks, logs
// and how it ends is what the procedure says.
#include "oac.h"
#include "scratch.h"
#include "values.h"

#include <oac-tree-cli/cl_interface.h>
#include <sup/log/default_loggers.h>
#include <sup/oac-tree/job_states.h>
#include <sup/oac-tree/user_input_request.h>

#include <iostream>
#include <map>
#include <mutex>
#include <sstream>
#include <thread>

int oac_cli_main(int argc, char* argv[]);
int oac_daemon_main(int argc, char* argv[]);

namespace
{
using namespace values;

// Output of several threads: every thread's text is kept back until the end of the line or until
// it is flushed.
class Console : public std::streambuf
{
public:
  std::string Text()
  {
    std::lock_guard<std::mutex> lk(m_mtx);
    auto r = m_text;
    for (auto& p : m_parts) r += p.second;
    return r;
  }

protected:
  int overflow(int ch) override
  {
    if (ch != traits_type::eof())
    {
      const char x = static_cast<char>(ch);
      xsputn(&x, 1);
    }
    return 0;
  }
  std::streamsize xsputn(const char* s, std::streamsize n) override
  {
    std::lock_guard<std::mutex> lk(m_mtx);
    auto& part = m_parts[std::this_thread::get_id()];
    part.append(s, n);
    const auto nl = part.rfind('\n');
    if (nl != std::string::npos)
    {
      m_text += part.substr(0, nl + 1);
      part.erase(0, nl + 1);
    }
    return n;
  }
  int sync() override
  {
    std::lock_guard<std::mutex> lk(m_mtx);
    auto& part = m_parts[std::this_thread::get_id()];
    m_text += part;
    part.clear();
    return 0;
  }

private:
  std::mutex m_mtx;
  std::string m_text;
  std::map<std::thread::id, std::string> m_parts;
};

struct Redirect
{
  Console out;
  std::stringbuf in;
  std::streambuf *old_out, *old_in;
  explicit Redirect(const std::string& input) : in(input, std::ios_base::in)
  {
    std::cin.clear();
    std::cout.flush();
    old_out = std::cout.rdbuf(&out);
    old_in = std::cin.rdbuf(&in);
  }
  ~Redirect()
  {
    std::cout.rdbuf(old_out);
    std::cin.rdbuf(old_in);
    std::cin.clear();
  }
  std::string Rest()
  {
    std::string r;
    for (int ch = in.sbumpc(); ch != std::char_traits<char>::eof(); ch = in.sbumpc()) r += static_cast<char>(ch);
    return r;
  }
};

int Run(int (*fn)(int, char**), const std::string& program, std::vector<std::string> args)
{
  args.insert(args.begin(), program);
  std::vector<char*> argv;
  for (auto& a : args) argv.push_back(&a[0]);
  argv.push_back(nullptr);
  return fn(static_cast<int>(args.size()), argv.data());
}

const std::vector<std::string>& Severities()
{
  static const std::vector<std::string> s = {"EMERGENCY", "ALERT", "CRITICAL", "ERROR", "WARNING", "NOTICE", "INFO", "DEBUG", "TRACE"};
  return s;
}

// ------------------------------------------------------------------------------- typed-in values
// A line a user could type for a value of the type; 'value' is what it stands for, or empty when
// it does not stand for any such value.
std::string Typed(pbt::Gen& g, const AnyType& t, AnyValue& value)
{
  const bool wrong = g.Draw(4) == 0;
  static const char* const junk[] = {"abc", "", " ", "x1", "--3", "?"};
  static const char* const lines[] = {"", "x", "hello world", " leading", "trailing ", "0", "true", "a \"b\" <c>", "\xc3\xa9"};
  static const char* const big[] = {"99999999999999999999", "123456789012345678901234567890"};
  value = AnyValue{};
  switch (t.GetTypeCode())
  {
  case dto::TypeCode::Bool:
    if (wrong) return junk[g.Draw(6)];
    value = AnyValue{g.Coin()};
    return value.As<bool>() ? "true" : "false";
  case dto::TypeCode::String:
    value = AnyValue{std::string(lines[g.Draw(9)])};
    if (g.Draw(100) == 99) value = AnyValue{std::string(size_t{60} << g.Draw(11), 'l') + " end"};
    return value.As<std::string>();
  case dto::TypeCode::Char8:
  {
    if (wrong) return junk[1 + g.Draw(2)];
    const char ch = static_cast<char>(33 + g.Draw(94));
    value = AnyValue{static_cast<dto::char8>(ch)};
    return std::string(1, ch);
  }
  case dto::TypeCode::Float32:
  case dto::TypeCode::Float64:
  {
    if (wrong) return junk[g.Draw(6)];
    const double d = static_cast<double>(g.Range(-4000, 4000)) / 8;
    value = AnyValue{t};
    dto::TryConvert(value, AnyValue{d});
    return g.Coin() ? pbt::Str(d) : pbt::Str(d * 10, "e-1");
  }
  default: break;
  }
  // integers
  const int bits = t == dto::SignedInteger8Type || t == dto::UnsignedInteger8Type ? 8 : t == dto::SignedInteger16Type || t == dto::UnsignedInteger16Type ? 16 :
    t == dto::SignedInteger32Type || t == dto::UnsignedInteger32Type ? 32 : 64;
  const bool is_signed = t == dto::SignedInteger8Type || t == dto::SignedInteger16Type || t == dto::SignedInteger32Type || t == dto::SignedInteger64Type;
  if (wrong)
  {
    const int k = static_cast<int>(g.Draw(is_signed ? 3 : 4));
    if (k == 0) return junk[g.Draw(6)];
    if (k == 3) return pbt::Str('-', 1 + g.Draw(300));
    if (k == 1 || bits == 64) return big[g.Draw(2)];
    const int64_t above = is_signed ? (int64_t{1} << (bits - 1)) : (int64_t{1} << bits);
    return is_signed && g.Coin() ? pbt::Str(-above - 1 - static_cast<int64_t>(g.Draw(100))) : pbt::Str(above + static_cast<int64_t>(g.Draw(100)));
  }
  value = AnyValue{t};
  if (is_signed)
  {
    const int64_t hi = bits == 64 ? INT64_MAX : (int64_t{1} << (bits - 1)) - 1;
    const int k = static_cast<int>(g.Draw(5));
    const int64_t n = k == 4 ? hi : k == 3 ? -hi - 1 : std::min<int64_t>(hi, static_cast<int64_t>(g.Draw(128))) * (k == 2 ? -1 : 1);
    dto::TryConvert(value, AnyValue{static_cast<dto::int64>(n)});
    return pbt::Str(n);
  }
  const uint64_t hi = bits == 64 ? UINT64_MAX : (uint64_t{1} << bits) - 1;
  const uint64_t n = g.Draw(4) == 3 ? hi - g.Draw(3) : g.Draw(200);
  dto::TryConvert(value, AnyValue{static_cast<dto::uint64>(n)});
  return pbt::Str(n);
}

const std::vector<AnyType>& AllScalars()
{
  static const std::vector<AnyType> types = []
  {
    auto t = Scalars();
    t.push_back(dto::Character8Type);
    return t;
  }();
  return types;
}

struct Logs
{
  std::mutex mtx;
  std::vector<std::pair<int, std::string>> lines;
  sup::log::LogFunction Fn()
  {
    return [this](int s, const std::string&, const std::string& m)
    {
      std::lock_guard<std::mutex> lk(mtx);
      lines.emplace_back(s, m);
    };
  }
};

// One request to the command line interface.
void ValueReply(pbt::Case& c)
{
  auto& g = c.g;
  const bool scalar = g.Draw(8) != 7;
  AnyValue initial, expected;
  std::string line;
  if (scalar)
  {
    const auto& t = AllScalars()[g.Draw(AllScalars().size())];
    initial = AnyValue{t};
    line = Typed(g, t, expected);
  }
  else
  {
    do initial = RandValue(g, RandType(g, 2));
    while (dto::IsScalarValue(initial));
    line = "1";
  }
  static const char* const descs[] = {"Give a number", "", "x: y"};
  const std::string desc = descs[g.Draw(3)];
  PLOG(c) << "request " << Show(initial) << ", answered by [" << line << "]\n";
  Logs logs;
  sup::log::BasicLogger logger(logs.Fn(), "test", 8);
  UserInputReply reply{};
  std::string out, rest;
  {
    Redirect redirect(line + "\nrest\n");
    CLInterface ui(logger);
    auto future = ui.RequestUserInput(CreateUserValueRequest(initial, desc));
    PCHECK(c, future && future->IsValid(), "no valid future");
    while (!future->WaitFor(1.0)) {}
    reply = future->GetValue();
    out = redirect.out.Text();
    rest = redirect.Rest();
  }
  PCHECK(c, reply.m_request_type == InputRequestType::kUserValue, "reply of another type");
  auto [ok, v] = ParseUserValueReply(reply);
  if (!scalar)
  {
    PCHECK(c, !ok, "a reply for a value that is no scalar: ", Show(v));
    PCHECK(c, logs.lines.size() == 1 && logs.lines[0].first == 3, "one error is logged, not ", logs.lines.size());
    c.Label("no scalar");
    return;
  }
  c.Label(initial.GetTypeName() + (dto::IsEmptyValue(expected) ? " refused" : ""));
  PCHECK(c, out == desc + " (" + initial.GetTypeName() + "): ", "the user is shown [", out, "]");
  PCHECK(c, rest == "rest\n", "more or less than one line is read: left [", rest, "]");
  if (dto::IsEmptyValue(expected))
  {
    PCHECK(c, !ok, "[", line, "] is accepted as ", Show(v));
    PCHECK(c, logs.lines.size() == 1 && logs.lines[0].first == 3, "one error is logged, not ", logs.lines.size());
    c.NonTrivial();
    return;
  }
  PCHECK(c, ok, "[", line, "] is refused for type ", initial.GetTypeName());
  PCHECK(c, v == expected && v.GetType() == initial.GetType(), "[", line, "] is read as ", Show(v), " instead of ", Show(expected));
  PCHECK(c, logs.lines.empty(), "logged: ", logs.lines.empty() ? "" : logs.lines[0].second);
  c.NonTrivial();
}
OAC_FACET("C29", "typed-value", ValueReply, oac::Opts(40000, 1000000, "the request is for a scalar"));

// What the choice 'line' selects from 'n' options: an index or -1.
int Selected(const std::string& line, int n)
{
  char* end;
  errno = 0;
  const long v = std::strtol(line.c_str(), &end, 10);
  if (end == line.c_str() || errno) return -1;
  return v >= 1 && v <= n ? static_cast<int>(v) - 1 : -1;
}

std::string ChoiceLine(pbt::Gen& g, int n)
{
  static const char* const odd[] = {"", "x", "0", "-1", "-2147483648", "2147483647", "2147483648", "-2147483649", "99999999999999999999", " ", "first"};
  if (g.Draw(4) == 0) return g.Coin() ? odd[g.Draw(11)] : pbt::Str(n + 1 + g.Draw(3));
  return pbt::Str(1 + g.Draw(std::max(n, 1)));
}

std::string ChoiceText(const std::string& text, const std::vector<std::string>& options, int selected)
{
  std::string r = (text.empty() ? "Select one of the following options:" : text) + "\n";
  for (size_t i = 0; i < options.size(); ++i) r += pbt::Str(i + 1, ": ", options[i], "\n");
  if (selected >= 0) r += options[selected] + " selected\n";
  return r;
}

void ChoiceReply(pbt::Case& c)
{
  auto& g = c.g;
  std::vector<std::string> options;
  while (g.More(3) && options.size() < 6) options.push_back(pbt::Str("option ", g.Draw(5)));
  if (options.empty()) options.push_back("only");
  if (g.Draw(30) == 29)
    for (size_t i = 0, n = size_t{8} << g.Draw(7); i < n; ++i) options.push_back(pbt::Str("option ", i));
  const int n = static_cast<int>(options.size());
  static const char* const texts[] = {"", "Which one?", "two\nlines"};
  const std::string text = texts[g.Draw(3)];
  auto metadata = CreateUserChoiceMetadata();
  const bool has_text = !text.empty() || g.Coin();
  if (has_text) metadata.AddMember("text", AnyValue{text});
  if (g.Coin()) metadata.AddMember("title", AnyValue{"Title"});
  const auto line = ChoiceLine(g, n);
  const int want = Selected(line, n);
  PLOG(c) << n << " options, answered by [" << line << "]\n";
  Logs logs;
  sup::log::BasicLogger logger(logs.Fn(), "test", 8);
  UserInputReply reply{};
  std::string out, rest;
  {
    Redirect redirect(line + "\nrest\n");
    CLInterface ui(logger);
    auto future = ui.RequestUserInput(CreateUserChoiceRequest(options, metadata));
    PCHECK(c, future && future->IsValid(), "no valid future");
    while (!future->WaitFor(1.0)) {}
    reply = future->GetValue();
    out = redirect.out.Text();
    rest = redirect.Rest();
  }
  PCHECK(c, reply.m_request_type == InputRequestType::kUserChoice, "reply of another type");
  auto [ok, choice] = ParseUserChoiceReply(reply);
  PCHECK(c, ok == (want >= 0) && (!ok || choice == want), "[", line, "] selects ", ok ? pbt::Str(choice) : "nothing", " instead of ", want);
  PCHECK(c, out == ChoiceText(text, options, want), "the user is shown [", out, "]");
  PCHECK(c, rest == "rest\n", "more or less than one line is read: left [", rest, "]");
  PCHECK(c, logs.lines.size() == (want < 0 ? 1 : 0), "logged ", logs.lines.size(), " messages");
  c.Label(want >= 0 ? "selected" : "refused");
  if (n > 1) c.NonTrivial();
}
OAC_FACET("C29", "typed-choice", ChoiceReply, oac::Opts(20000, 500000, "there are several options"));

// Reports on instructions and variables are log entries with all there is to say
void Reports(pbt::Case& c)
{
  auto& g = c.g;
  const auto type = values::RandType(g, 2);
  const auto value = values::RandValue(g, type);
  const bool connected = g.Coin(2, 3);
  const auto name = pbt::Str("var", g.Draw(100), g.Coin() ? " b" : "");
  const auto description = g.Coin() ? pbt::Str("said ", g.Draw(10)) : std::string();
  auto instr = GlobalInstructionRegistry().Create(g.Coin() ? "Succeed" : "Fail");
  instr->SetName(pbt::Str("instr", g.Draw(100)));
  const bool executed = g.Coin();
  const auto json = values::Json(value);
  PLOG(c) << name << " = " << json << (connected ? "" : " not connected") << "\n";
  Logs logs;
  sup::log::BasicLogger logger(logs.Fn(), "test", 8);
  std::string out;
  bool put = false;
  {
    Redirect redirect("");
    CLInterface ui(logger);
    Workspace ws;
    HookUI quiet;
    if (executed) instr->ExecuteSingle(quiet, ws);
    ui.UpdateInstructionStatus(instr.get());
    PCHECK(c, redirect.out.Text().empty(), "the status of an instruction is shown to the user");
    ui.VariableUpdated(name, value, connected);
    PCHECK(c, redirect.out.Text().empty(), "a change of a variable is shown to the user");
    put = ui.PutValue(value, description);
    out = redirect.out.Text();
  }
  PCHECK(c, logs.lines.size() == 2, logs.lines.size(), " log entries for two reports");
  auto has = [](const std::string& text, const std::string& part) { return text.find(part) != std::string::npos; };
  PCHECK(c, logs.lines[0].first == 6 && logs.lines[1].first == 6, "reports are logged as ", logs.lines[0].first, " and ", logs.lines[1].first);
  const auto& i = logs.lines[0].second;
  PCHECK(c, has(i, instr->GetName()) && has(i, instr->GetType()) && has(i, StatusToString(instr->GetStatus())), "an instruction is reported as [", i, "]");
  const auto& v = logs.lines[1].second;
  PCHECK(c, has(v, name) && (!connected || has(v, json)), "a variable is reported as [", v, "]");
  if (!connected)
  {
    Logs other;
    sup::log::BasicLogger logger2(other.Fn(), "test", 8);
    Redirect redirect("");
    CLInterface ui(logger2);
    ui.VariableUpdated(name, value, true);
    PCHECK(c, other.lines.size() == 1 && other.lines[0].second != v, "a variable without connection is reported as [", v, "] like one that has it");
  }
  PCHECK(c, put && out == (description.empty() ? "" : description + "\n") + dto::PrintAnyValue(value) + "\n", "a value is shown as [", out, "]");
  c.Label(connected ? "connected" : "not connected");
  if (executed) c.NonTrivial();
}
OAC_FACET("C29", "reports", Reports, oac::Opts(20000, 500000, "the instruction was executed"));

// ------------------------------------------------------------------------------ whole procedures
// What the programs have to show: exact text, an exact log message, or some messages about a
// problem, whose text is not specified.
struct Event
{
  enum Kind { kText, kLog, kProblem } kind;
  int severity;
  std::string text;
};

struct Var
{
  std::string name;
  AnyValue value;
};

struct Model
{
  pbt::Gen& g;
  bool daemon;
  std::vector<Var> vars;
  std::vector<Event> events;
  std::vector<std::string> typed;
  int counter = 0, budget = 40, asked = 0;

  // ------------------------------------------------------------------------------- generation
  const Var& AnyVar() { return vars[g.Draw(vars.size())]; }
  // The texts of log messages are neither empty nor references: they tell the message from those about problems.
  std::string Text(bool may_be_empty)
  {
    static const char* const texts[] = {"start", "with \"quotes\"", "a <b> & c", "two\nlines", "\xc3\xa9", " spaced "};
    if (may_be_empty && g.Draw(5) == 4)
    {
      for (auto& v : vars)
        if (v.value.GetType() == dto::StringType) return "@" + v.name;
    }
    if (may_be_empty && g.Draw(4) == 0) return "";
    return pbt::Str("~", ++counter, texts[g.Draw(6)]);
  }
  Node Gen(int depth)
  {
    --budget;
    const int k = static_cast<int>(g.Draw(depth > 0 && budget > 0 ? 15 : 9));
    const std::string name = pbt::Str("i", ++counter);
    switch (k)
    {
    case 0: case 1: return Node("Message", {{"name", name}, {"text", Text(true)}});
    case 2:
    {
      Node n("Output", {{"name", name}, {"fromVar", AnyVar().name}});
      if (g.Coin()) n.A("description", Text(true));
      return n;
    }
    case 3: case 4:
    {
      Node n("Log", {{"name", name}, {"message", Text(false)}});
      if (g.Draw(4)) n.A("severity", std::vector<std::string>{"emergency", "alert", "critical", "error", "warning", "notice", "info", "debug", "trace", "loud"}[g.Draw(10)]);
      if (g.Draw(3) == 0) n.A("inputVar", AnyVar().name);
      return n;
    }
    case 5: case 6:
    {
      Node n("Input", {{"name", name}, {"outputVar", AnyVar().name}});
      if (g.Coin()) n.A("description", Text(true));
      return n;
    }
    case 7: return Node("Succeed", {{"name", name}});
    case 8: return Node("Fail", {{"name", name}});
    case 9: case 10: case 11: case 14:
    {
      Node n(k == 9 || k == 14 ? "Sequence" : k == 10 ? "Fallback" : "UserChoice", {{"name", name}});
      if (k == 11 && g.Coin()) n.A("description", Text(true));
      const int kids = 1 + static_cast<int>(g.Draw(4));
      for (int i = 0; i < kids; ++i) n.K(Gen(depth - 1));
      return n;
    }
    case 12:
    {
      Node n(g.Coin() ? "Inverter" : "ForceSuccess", {{"name", name}});
      n.K(Gen(depth - 1));
      return n;
    }
    default:
    {
      Node n("Repeat", {{"name", name}, {"maxCount", pbt::Str(1 + g.Draw(3))}});
      n.K(Gen(depth - 1));
      return n;
    }
    }
  }

  // -------------------------------------------------------------------------------- execution
  AnyValue* Value(const std::string& name)
  {
    for (auto& v : vars)
      if (v.name == name) return &v.value;
    return nullptr;
  }
  std::string Resolve(const std::string& text)
  {
    return !text.empty() && text[0] == '@' ? Value(text.substr(1))->As<std::string>() : text;
  }
  std::string Attr(const Node& n, const std::string& name, const std::string& def = "")
  {
    for (auto& [k, v] : n.attrs)
      if (k == name) return Resolve(v);
    return def;
  }
  bool Problem()
  {
    events.push_back({Event::kProblem, 0, ""});
    return false;
  }
  void Show(const std::string& text)
  {
    if (daemon) events.push_back({Event::kLog, 6, text});
    else events.push_back({Event::kText, 0, text + "\n"});
  }
  bool Eval(const Node& n)
  {
    if (n.type == "Message")
    {
      Show(Attr(n, "text"));
      return true;
    }
    if (n.type == "Output")
    {
      auto& v = *Value(Attr(n, "fromVar"));
      const auto desc = Attr(n, "description");
      if (daemon) events.push_back({Event::kLog, 6, desc + " (" + v.GetTypeName() + "):" + Json(v)});
      else Show((desc.empty() ? "" : desc + "\n") + dto::PrintAnyValue(v));
      return true;
    }
    if (n.type == "Log")
    {
      static const std::vector<std::string> names = {"emergency", "alert", "critical", "error", "warning", "notice", "info", "debug", "trace"};
      const auto it = std::find(names.begin(), names.end(), Attr(n, "severity", "info"));
      if (it == names.end()) return Problem();
      const auto var = Attr(n, "inputVar");
      events.push_back({Event::kLog, static_cast<int>(it - names.begin()), Attr(n, "message") + (var.empty() ? "" : Json(*Value(var)))});
      return true;
    }
    if (n.type == "Input")
    {
      ++asked;
      if (daemon) return Problem();
      auto& v = *Value(Attr(n, "outputVar"));
      if (!dto::IsScalarValue(v)) return Problem();
      AnyValue given;
      typed.push_back(Typed(g, v.GetType(), given));
      events.push_back({Event::kText, 0, Attr(n, "description") + " (" + v.GetTypeName() + "): "});
      if (dto::IsEmptyValue(given)) return Problem();
      v = given;
      return true;
    }
    if (n.type == "UserChoice")
    {
      ++asked;
      if (daemon) return Problem();
      std::vector<std::string> options;
      for (auto& k : n.kids) options.push_back(Attr(k, "name") + " (type:" + k.type + ")");
      typed.push_back(ChoiceLine(g, static_cast<int>(options.size())));
      const int s = Selected(typed.back(), static_cast<int>(options.size()));
      events.push_back({Event::kText, 0, ChoiceText(Attr(n, "description"), options, s)});
      return s < 0 ? Problem() : Eval(n.kids[s]);
    }
    if (n.type == "Succeed") return true;
    if (n.type == "Fail") return false;
    if (n.type == "Sequence")
    {
      for (auto& k : n.kids)
        if (!Eval(k)) return false;
      return true;
    }
    if (n.type == "Fallback")
    {
      for (auto& k : n.kids)
        if (Eval(k)) return true;
      return false;
    }
    if (n.type == "Inverter") return !Eval(n.kids[0]);
    if (n.type == "ForceSuccess") return Eval(n.kids[0]), true;
    for (int i = std::stoi(Attr(n, "maxCount")); i > 0; --i)
      if (!Eval(n.kids[0])) return false;
    return true;
  }
};

bool IsProgress(const std::string& message) { return message.rfind("Instruction (", 0) == 0 || message.rfind("Variable (", 0) == 0; }

// Takes the messages about a problem (errors and warnings) at the front of 'text'.
int TakeProblems(const std::string& text, size_t& pos)
{
  for (int n = 0;; ++n)
  {
    bool found = false;
    for (const std::string prefix : {"[oac-tree-cli] 3: ", "[oac-tree-cli] 4: "})
      if (!found && text.compare(pos, prefix.size(), prefix) == 0 && text.compare(pos + prefix.size(), 1, "~") != 0)
      {
        const auto nl = text.find('\n', pos);
        pos = nl == std::string::npos ? text.size() : nl + 1;
        found = true;
      }
    if (!found) return n;
  }
}

std::string WithoutProgress(const std::string& text, int& removed)
{
  std::string r;
  size_t pos = 0;
  while (pos < text.size())
  {
    static const std::string prefix = "[oac-tree-cli] 6: ";
    if (text.compare(pos, prefix.size(), prefix) == 0 && IsProgress(text.substr(pos + prefix.size(), 20)))
    {
      const auto nl = text.find('\n', pos);
      pos = nl == std::string::npos ? text.size() : nl + 1;
      ++removed;
      continue;
    }
    r += text[pos++];
  }
  return r;
}

// What is seen of the events at some verbosity; the 'severity' of problems is their number.
std::vector<Event> Visible(const std::vector<Event>& events, int verbosity)
{
  std::vector<Event> r;
  for (auto e : events)
  {
    if (e.kind == Event::kLog && e.severity > verbosity) continue;
    if (e.kind == Event::kProblem && !r.empty() && r.back().kind == Event::kProblem)
    {
      ++r.back().severity;
      continue;
    }
    if (e.kind == Event::kProblem) e.severity = 1;
    r.push_back(e);
  }
  return r;
}

struct Job
{
  Model m;
  std::string xml;
  bool ok;
  std::vector<std::string> args;
  int verbosity = 4;
};

Job MakeJob(pbt::Case& c, bool daemon, Scratch& scratch)
{
  auto& g = c.g;
  Job j{Model{g, daemon}, "", false, {}};
  auto& m = j.m;
  m.vars.push_back({"s", AnyValue{std::string("text")}});
  const int n = 1 + static_cast<int>(g.Draw(4));
  for (int i = 0; i < n; ++i)
  {
    const auto type = g.Draw(5) == 4 ? RandType(g, 2) : AllScalars()[g.Draw(Scalars().size())];
    m.vars.push_back({pbt::Str("v", i), RandValue(g, type)});
  }
  std::vector<Node> vars;
  for (auto& v : m.vars) vars.push_back(LocalVar(v.name, dto::AnyTypeToJSONString(v.value.GetType()), Json(v.value)));
  Node root("Sequence", {{"name", "root"}});
  if (g.Draw(3) == 0) root = m.Gen(3);
  else
    do root.K(m.Gen(3));
    while (g.More(4));
  j.ok = m.Eval(root);
  if (g.Draw(400) == 399)
  {
    // one that takes its time
    Node slow("Sequence", {{"name", "slow"}});
    slow.K(Node("Wait", {{"name", "wait"}, {"timeout", g.Coin(3, 4) ? "1.1" : "1.6"}}));
    slow.K(root);
    root = slow;
    c.Label("takes seconds");
  }
  j.xml = ProcXml({root}, vars, {{"tickTimeout", "0.001"}});
  const auto file = scratch.Write("procedure.xml", j.xml);
  std::vector<std::vector<std::string>> args = {{g.Coin() ? "-f" : "--file", file}};
  if (g.Draw(3))
  {
    j.verbosity = static_cast<int>(g.Draw(9));
    args.insert(args.begin() + static_cast<long>(g.Draw(2)), {g.Coin() ? "-v" : "--verbose", Severities()[j.verbosity]});
  }
  for (auto& a : args) j.args.insert(j.args.end(), a.begin(), a.end());
  return j;
}

void CliRun(pbt::Case& c)
{
  Scratch scratch;
  auto j = MakeJob(c, false, scratch);
  std::string input;
  for (auto& l : j.m.typed) input += l + "\n";
  PLOG(c) << j.xml << "typed in:\n" << input << "verbosity " << j.verbosity << "\n";
  std::string out, rest;
  int code;
  {
    Redirect redirect(input + "rest\n");
    code = Run(oac_cli_main, "oac-tree-cli", j.args);
    out = redirect.out.Text();
    rest = redirect.Rest();
  }
  PLOG(c) << "shown:\n" << out << "\n";
  PCHECK(c, code == 0, "the exit code is ", code);
  int progress = 0;
  const auto text = WithoutProgress(out, progress);
  PCHECK(c, (progress > 0) == (j.verbosity >= 6), progress, " messages about the progress at verbosity ", j.verbosity);
  size_t pos = 0;
  for (auto& e : Visible(j.m.events, j.verbosity))
  {
    if (e.kind == Event::kProblem)
    {
      const int n = TakeProblems(text, pos);
      PCHECK(c, j.verbosity < 4 || n >= e.severity, n, " messages about ", e.severity, " problems at [", text.substr(pos, 60), "]");
      continue;
    }
    std::string want = e.text;
    if (e.kind == Event::kLog)
    {
      want = pbt::Str("[oac-tree-cli] ", e.severity, ": ", e.text, "\n");
    }
    PCHECK(c, text.compare(pos, want.size(), want) == 0, "expected [", want, "] at [", text.substr(pos, want.size() + 30), "]");
    pos += want.size();
  }
  const auto end = "Procedure ended with state: " + ToString(j.ok ? JobState::kSucceeded : JobState::kFailed) + "\n";
  PCHECK(c, text.substr(pos) == end, "the output ends with [", text.substr(pos), "] instead of [", end, "]");
  PCHECK(c, rest == "rest\n", "input that is left: [", rest, "]");
  c.Label(pbt::Str(j.m.typed.size() > 4 ? 4 : j.m.typed.size(), " lines typed"));
  c.Label(j.ok ? "succeeded" : "failed");
  if (j.m.events.size() > 2) c.NonTrivial();
}
OAC_FACET("C29", "cli-run", CliRun, oac::Opts(20000, 400000, "more than two things are shown, asked or logged"));

void DaemonRun(pbt::Case& c)
{
  Scratch scratch;
  auto j = MakeJob(c, true, scratch);
  PLOG(c) << j.xml << "verbosity " << j.verbosity << "\n";
  std::string out, rest;
  int code;
  Logs logs;
  {
    Redirect redirect("rest\n");
    sup::log::SysLogSink() = logs.Fn();
    code = Run(oac_daemon_main, "oac-tree-daemon", j.args);
    sup::log::SysLogSink() = nullptr;
    out = redirect.out.Text();
    rest = redirect.Rest();
  }
  std::vector<std::pair<int, std::string>> lines;
  int progress = 0;
  for (auto& l : logs.lines)
  {
    PLOG(c) << "logged " << l.first << ": " << l.second << "\n";
    if (l.first == 6 && IsProgress(l.second)) ++progress;
    else lines.push_back(l);
  }
  PCHECK(c, code == 0, "the exit code is ", code);
  PCHECK(c, (progress > 0) == (j.verbosity >= 6), progress, " messages about the progress at verbosity ", j.verbosity);
  j.m.events.push_back({Event::kLog, 6, "Procedure ended with state: " + ToString(j.ok ? JobState::kSucceeded : JobState::kFailed)});
  size_t pos = 0;
  for (auto& e : Visible(j.m.events, j.verbosity))
  {
    if (e.kind == Event::kProblem)
    {
      int n = 0;
      for (; pos < lines.size() && (lines[pos].first == 3 || lines[pos].first == 4) && lines[pos].second[0] != '~'; ++pos) ++n;
      PCHECK(c, j.verbosity < 4 || n >= e.severity, n, " messages about ", e.severity, " problems");
      continue;
    }
    PCHECK(c, pos < lines.size() && lines[pos].first == e.severity && lines[pos].second == e.text, "expected ", e.severity, " [", e.text, "] instead of ",
           pos < lines.size() ? pbt::Str(lines[pos].first, " [", lines[pos].second, "]") : "nothing");
    ++pos;
  }
  PCHECK(c, pos == lines.size(), "more is logged: [", lines[pos].second, "]");
  PCHECK(c, rest == "rest\n" && out.empty(), "the daemon uses the console: [", out, "], input that is left [", rest, "]");
  c.Label(j.ok ? "succeeded" : "failed");
  if (j.m.events.size() > 2 && j.verbosity > 0) c.NonTrivial();
}
OAC_FACET("C29", "daemon-run", DaemonRun, oac::Opts(10000, 200000, "more than two things are logged"));

// Procedures that cannot be run, or need not be.
void Refusals(pbt::Case& c)
{
  auto& g = c.g;
  const bool daemon = g.Draw(3) == 0;
  Scratch scratch;
  auto j = MakeJob(c, daemon, scratch);
  const int kind = static_cast<int>(g.Draw(7));
  static const char* const kinds[] = {"no file", "no xml", "unknown instruction", "setup fails", "validate", "usage", "option unknown"};
  if (kind == 4 && daemon) return;
  c.Label(pbt::Str(daemon ? "daemon " : "cli ", kinds[kind]));
  std::string xml = j.xml;
  auto args = j.args;
  auto replace = [&](const std::string& a, const std::string& b)
  {
    const auto p = xml.find(a);
    if (p != std::string::npos) xml.replace(p, a.size(), b);
  };
  bool validate = kind == 4 || (!daemon && g.Draw(4) == 0);
  switch (kind)
  {
  case 0:
    for (auto& a : args)
      if (a[0] == '/') a += "-none";
    break;
  case 1: xml = xml.substr(0, xml.rfind(g.Coin() ? "</" : "</Procedure")); break;
  case 2: replace("</Procedure>", g.Coin() ? "<NotKnown/></Procedure>" : "<Message/></Procedure>"); break;
  case 3:
    if (g.Coin()) replace("<Workspace>", "<Workspace><Local name=\"bad\" type='{\"type\":\"int32\"}' value='{'/>");
    else replace("<Workspace>", g.Coin() ? "<Repeat isRoot=\"true\" name=\"r\"/><Workspace>" : "<Condition isRoot=\"true\" name=\"c\"/><Workspace>");
    break;
  case 5: args.erase(std::find_if(args.begin(), args.end(), [](const std::string& a) { return a == "-f" || a == "--file"; }), args.end()); break;
  case 6: args.push_back("--no-such-option"); break;
  default: break;
  }
  if (validate) args.insert(args.begin(), g.Coin() ? "-V" : "--validate");
  std::ofstream(scratch.path + "/procedure.xml") << xml;
  PLOG(c) << kinds[kind] << (daemon ? " daemon" : " cli") << (validate ? " validate" : "") << "\n" << xml << "\n";
  for (auto& a : args) PLOG(c) << a << " ";
  std::string out, rest;
  int code;
  Logs logs;
  {
    Redirect redirect("rest\n");
    sup::log::SysLogSink() = logs.Fn();
    code = daemon ? Run(oac_daemon_main, "oac-tree-daemon", args) : Run(oac_cli_main, "oac-tree-cli", args);
    sup::log::SysLogSink() = nullptr;
    out = redirect.out.Text();
    rest = redirect.Rest();
  }
  PLOG(c) << "exit code " << code << ", shown:\n" << out << "\n";
  PCHECK(c, rest == "rest\n", "input is read: left [", rest, "]");
  PCHECK(c, out.find("ended with state") == std::string::npos, "the procedure is run");
  for (auto& l : logs.lines) PCHECK(c, l.second.find("ended with state") == std::string::npos && l.second.find("~") != 0, "the procedure is run");
  c.NonTrivial();
  if (kind == 4)
  {
    std::string file;
    for (auto& a : args)
      if (a[0] == '/') file = a;
    PCHECK(c, code == 0, "the exit code is ", code, " for a correct procedure");
    // Setting up may log
    const auto p = out.find("Procedure parsing and setup successful: " + file + "\n");
    PCHECK(c, p != std::string::npos && out.find("~") == std::string::npos, "the output is [", out, "]");
    return;
  }
  if (kind >= 5)
  {
    PCHECK(c, daemon ? code != 0 : true, "the exit code is ", code);
    PCHECK(c, !out.empty() && out.find("successful") == std::string::npos, "the usage is not shown: [", out, "]");
    return;
  }
  PCHECK(c, code == 1, "the exit code is ", code);
  if (daemon)
  {
    PCHECK(c, out.empty(), "the daemon uses the console: [", out, "]");
    PCHECK(c, j.verbosity < 3 || (!logs.lines.empty() && logs.lines.back().first == 3 && !logs.lines.back().second.empty()), "no error is logged");
  }
  else
  {
    PCHECK(c, j.verbosity < 3 ? out.empty() : out.find("[oac-tree-cli] 3: ") != std::string::npos, "shown: [", out, "]");
    PCHECK(c, out.find("successful") == std::string::npos, "shown: [", out, "]");
  }
}
OAC_FACET("C29", "refusals", Refusals, oac::Opts(10000, 200000, "the procedure must not be run"));
}  // namespace

