// C22: instructions that talk to the user: what the user interface is given and what replies do.
#include "values.h"

#include <sup/oac-tree/constants.h>
#include <sup/oac-tree/log_severity.h>
#include <sup/oac-tree/user_input_reply.h>
#include <sup/oac-tree/user_input_request.h>

#include <map>
#include <memory>
#include <set>

using namespace values;

namespace
{
// A text attribute: a literal or the value of a variable.
struct Text
{
  bool present = false;
  std::string attr;
  bool ok = true;
  std::string text;
};

const char* const g_texts[] = {"", "hello", "two words", "a@b", "$x", "quote\" & <tag>", "line\nbreak", "\xc3\xa9t\xc3\xa9", "{\"a\":1}", " @t"};

// Texts may come from these variables.
struct Vars
{
  std::map<std::string, AnyValue> v;
};

Text RandText(pbt::Gen& g, Vars& vars, const std::string& var, bool optional)
{
  Text t;
  if (optional && g.Draw(3) == 2) return t;
  t.present = true;
  t.text = g_texts[g.Draw(10)];
  if (g.Draw(3) != 2)
  {
    t.attr = t.text;
    return t;
  }
  t.attr = "@" + var;
  switch (g.Draw(6))
  {
  case 0:
  {
    auto s = dto::EmptyStruct();
    s.AddMember("t", AnyValue{t.text});
    vars.v[var] = s;
    t.attr += ".t";
    break;
  }
  case 1:
    vars.v[var] = dto::EmptyStruct();
    vars.v[var].AddMember("x", AnyValue{true});
    t.ok = false;
    break;
  case 2: t.attr += g.Coin() ? "" : ".t"; t.ok = false; break;  // no such variable
  default: vars.v[var] = AnyValue{t.text};
  }
  return t;
}

std::unique_ptr<Variable> Local(const std::string& name, const AnyValue& v, bool dynamic = false)
{
  auto r = GlobalVariableRegistry().Create("Local");
  r->SetName(name);
  if (dynamic) r->AddAttribute("dynamicType", "true");
  if (!dto::IsEmptyValue(v))
  {
    r->AddAttribute("type", dto::AnyTypeToJSONString(v.GetType()));
    r->AddAttribute("value", Json(v));
  }
  return r;
}

struct Heard
{
  std::vector<std::string> messages;
  std::vector<std::pair<int, std::string>> logs;
  std::vector<std::pair<std::string, std::string>> put;
};

int Warnings(const Heard& h)
{
  int n = 0;
  for (auto& l : h.logs) n += l.first <= log::SUP_SEQ_LOG_WARNING;
  return n;
}

// ------------------------------------------------------------------------ Message, Log, Output
void OneWay(pbt::Case& c)
{
  auto& g = c.g;
  Vars vars;
  const int kind = static_cast<int>(g.Draw(3));
  const auto text = RandText(g, vars, "t", kind != 0);
  const auto severity = RandText(g, vars, "s", true);
  Text sev = severity;
  static const std::vector<std::pair<std::string, int>> levels = {{"emergency", 0}, {"alert", 1}, {"critical", 2}, {"error", 3}, {"warning", 4},
    {"notice", 5}, {"info", 6}, {"debug", 7}, {"trace", 8}};
  int level = 6;
  static const std::vector<std::string> names = {"info", "Info", "", "verbose", "6", "INFO "};
  if (sev.present && sev.ok)
  {
    sev.text = g.Draw(6) == 5 ? g.Pick(names) : levels[g.Draw(9)].first;
    if (sev.attr[0] != '@' || sev.attr == severity.text)
      sev.attr = sev.text;
    else if (sev.attr == "@s")
      vars.v["s"] = AnyValue{sev.text};
    else
      vars.v["s"]["t"] = AnyValue{sev.text};
    level = -1;
    for (auto& [n, l] : levels)
      if (n == sev.text) level = l;
  }
  const auto value = RandValue(g, RandType(g, 2));
  const auto path = RandPath(g, value);
  const auto from = FieldName("v", path);
  const auto* field = Find(value, path);
  const bool with_value = kind == 2 || (kind == 1 && (!text.present || g.Coin()));
  const bool accept = g.Coin(2, 3);
  const char* type = kind == 0 ? "Message" : kind == 1 ? "Log" : "Output";
  auto instr = GlobalInstructionRegistry().Create(type);
  if (text.present) instr->AddAttribute(kind == 0 ? "text" : kind == 1 ? "message" : "description", text.attr);
  if (with_value) instr->AddAttribute(kind == 1 ? "inputVar" : "fromVar", from);
  if (kind == 1 && sev.present) instr->AddAttribute("severity", sev.attr);
  PLOG(c) << type << " text=" << (text.present ? "[" + text.attr + "]" : "absent") << " from=" << (with_value ? from : "absent")
          << (kind == 1 && sev.present ? " severity=[" + sev.attr + "]" : "") << " v = " << Show(value) << "\n";
  for (auto& [n, v] : vars.v) PLOG(c) << "  " << n << " = " << Show(v) << "\n";
  Workspace ws;
  ws.AddVariable("v", Local("v", value));
  for (auto& [n, v] : vars.v) ws.AddVariable(n, Local(n, v));
  ws.Setup();
  HookUI ui;
  Heard h;
  ui.on_message = [&](const std::string& m) { h.messages.push_back(m); };
  ui.on_log = [&](int s, const std::string& m) { h.logs.emplace_back(s, m); };
  ui.on_put = [&](const AnyValue& v, const std::string& d) {
    h.put.emplace_back(Show(v), d);
    return accept;
  };
  Procedure proc;
  instr->Setup(proc);
  for (int round = 0; round < 2; ++round)
  {
    h = {};
    instr->ExecuteSingle(ui, ws);
    const auto st = instr->GetStatus();
    const bool can = (!text.present || text.ok) && (!with_value || field) && (kind != 1 || ((!sev.present || sev.ok) && level >= 0));
    const bool ok = can && (kind != 2 || accept);
    if (st != (ok ? ES::SUCCESS : ES::FAILURE)) c.Fail(pbt::Str(type, " gives ", St(st)));
    const std::string said = text.present ? text.text : "";
    if (kind == 0)
    {
      if (h.messages != (can ? std::vector<std::string>{said} : std::vector<std::string>{})) c.Fail(pbt::Str("wrong messages: ", h.messages.size(), h.messages.empty() ? "" : " " + h.messages[0]));
    }
    else
      PCHECK(c, h.messages.empty(), "unexpected message");
    if (kind == 2)
    {
      if (h.put.size() != (can ? 1u : 0u)) c.Fail(pbt::Str(h.put.size(), " values put"));
      if (can && (h.put[0].first != Show(*field) || h.put[0].second != said)) c.Fail("put " + h.put[0].first + " with [" + h.put[0].second + "]");
    }
    else
      PCHECK(c, h.put.empty(), "unexpected value");
    if (kind == 1 && can)
    {
      const auto want = said + (with_value ? Json(*field) : "");
      if (h.logs.size() != 1 || h.logs[0].first != level || h.logs[0].second != want)
        c.Fail(pbt::Str(h.logs.size(), " log entries", h.logs.empty() ? "" : pbt::Str(": ", h.logs[0].first, " [", h.logs[0].second, "]"), " instead of ", level, " [", want, "]"));
    }
    else if (can)
      PCHECK(c, h.logs.empty(), "unexpected log [", h.logs[0].second, "]");
    else
    {
      // the reason is given, and nothing but the reason
      PCHECK(c, Warnings(h) >= 1 && Warnings(h) == static_cast<int>(h.logs.size()), "failed with ", h.logs.size(), " log entries");
    }
    c.Label(pbt::Str(type, ok ? " ok" : " fails"));
    if (ok && text.present && with_value) c.NonTrivial();
    if (ok && kind == 0 && text.attr[0] == '@') c.NonTrivial();
    instr->Reset(ui);
  }
}

// ----------------------------------------------------------------- Input, UserConfirmation, UserChoice
struct Asked
{
  UserInputRequest request;
  int live = 0;
};

enum class Reply
{
  kGood,
  kNegative,   // result is false
  kOtherKind,  // of the other kind of request
  kOtherType,  // a payload of another type
};

void Dialogue(pbt::Case& c)
{
  auto& g = c.g;
  Vars vars;
  const int kind = static_cast<int>(g.Draw(3));
  const char* type = kind == 0 ? "Input" : kind == 1 ? "UserConfirmation" : "UserChoice";
  const auto text = RandText(g, vars, "t", kind != 1);
  const auto ok_text = RandText(g, vars, "o", true);
  const auto cancel_text = RandText(g, vars, "n", true);
  const bool dynamic = g.Draw(4) == 3;
  const auto value = RandValue(g, RandType(g, 2));
  const auto path = RandPath(g, value);
  const auto out = g.Draw(15) == 14 ? std::string("absent") : FieldName("v", path);
  const auto* field = out == "absent" ? nullptr : Find(value, path);
  auto instr = GlobalInstructionRegistry().Create(type);
  if (text.present) instr->AddAttribute("description", text.attr);
  if (kind == 0) instr->AddAttribute("outputVar", out);
  if (kind == 1 && ok_text.present) instr->AddAttribute("okText", ok_text.attr);
  if (kind == 1 && cancel_text.present) instr->AddAttribute("cancelText", cancel_text.attr);
  std::vector<std::string> options;
  std::vector<ES> results;
  int kids = 0;
  if (kind == 2)
  {
    kids = 1 + static_cast<int>(g.Draw(4));
    for (int i = 0; i < kids; ++i)
    {
      const bool good = g.Coin();
      auto kid = GlobalInstructionRegistry().Create(good ? "Succeed" : "Fail");
      const auto name = g.Draw(4) == 3 ? std::string() : pbt::Str("kid ", i);
      if (!name.empty()) kid->SetName(name);
      options.push_back(name + " (type:" + (good ? "Succeed" : "Fail") + ")");
      results.push_back(good ? ES::SUCCESS : ES::FAILURE);
      AppendChildInstruction(*instr, std::move(kid));
    }
  }
  if (kind == 1) options = {ok_text.present ? ok_text.text : "Ok", cancel_text.present ? cancel_text.text : "Cancel"};
  PLOG(c) << type << " text=" << (text.present ? "[" + text.attr + "]" : "absent") << (kind == 0 ? " out=" + out : "") << (dynamic ? " dynamic" : "") << " v = " << Show(value) << " kids=" << kids << "\n";
  Workspace ws, twin;
  ws.AddVariable("v", Local("v", value, dynamic));
  twin.AddVariable("v", Local("v", value, dynamic));
  for (auto& [n, v] : vars.v) ws.AddVariable(n, Local(n, v));
  ws.Setup();
  twin.Setup();
  HookUI ui;
  Heard h;
  ui.on_log = [&](int s, const std::string& m) { h.logs.emplace_back(s, m); };
  ui.on_message = [&](const std::string&) { c.Fail("unexpected message"); };
  Procedure proc;
  instr->Setup(proc);
  std::vector<std::shared_ptr<Asked>> asked;
  bool ready = false, supported = true, taken = false, halt_while_asking = false;
  UserInputReply reply{};
  ui.on_request = [&](const UserInputRequest& r) -> std::unique_ptr<IUserInputFuture> {
    auto a = std::make_shared<Asked>();
    a->request = r;
    asked.push_back(a);
    if (!supported) return std::make_unique<UnsupportedInputFuture>();
    auto f = std::make_unique<FnFuture>();
    a->live = 1;
    f->ready = [&] { return ready; };
    f->value = [&] {
      PCHECK(c, ready, "the reply is taken before it is there");
      taken = true;
      return reply;
    };
    f->dropped = [a] { a->live = 0; };
    if (halt_while_asking) instr->Halt();
    return f;
  };
  int succeeded = 0, failed = 0, cancelled = 0;
  do
  {
    h = {};
    asked.clear();
    ready = false;
    taken = false;
    supported = g.Draw(12) != 11;
    AnyValue current;
    const bool readable = kind != 0 || (field && twin.GetValue(out, current));
    const bool can = (!text.present || text.ok) && readable && (kind != 1 || ((!ok_text.present || ok_text.ok) && (!cancel_text.present || cancel_text.ok)));
    const int wait = static_cast<int>(g.Draw(4));
    const int halt_at = g.Draw(6) == 5 ? static_cast<int>(g.Draw(wait + 1)) : -1;
    halt_while_asking = halt_at == 0 && can && supported;
    const auto how = static_cast<Reply>(g.Draw(3) == 2 ? g.Draw(4) : 0);
    ES want = ES::FAILURE;
    AnyValue given;
    int choice = 0;
    if (kind == 0)
    {
      given = readable && g.Coin(3, 4) ? RandValue(g, current.GetType()) : RandValue(g, RandType(g, 1));
      reply = CreateUserValueReply(how != Reply::kNegative, given);
      if (how == Reply::kOtherKind) reply.m_request_type = g.Coin() ? InputRequestType::kUserChoice : InputRequestType::kInvalid;
    }
    else
    {
      choice = static_cast<int>(g.Range(-1, kind == 1 ? 2 : kids));
      reply = CreateUserChoiceReply(how != Reply::kNegative, choice);
      if (how == Reply::kOtherKind) reply.m_request_type = g.Coin() ? InputRequestType::kUserValue : InputRequestType::kInvalid;
      if (how == Reply::kOtherType) reply.m_payload = g.Coin() ? AnyValue{static_cast<dto::int64>(choice)} : g.Coin() ? AnyValue{std::string("0")} : AnyValue{};
    }
    const bool usable = how == Reply::kGood || (kind == 0 && how == Reply::kOtherType);
    PLOG(c) << "round: " << (supported ? "" : "unsupported ") << "wait " << wait << " halt at " << halt_at << " reply " << static_cast<int>(how) << " " << (kind == 0 ? Show(given) : std::to_string(choice)) << "\n";
    bool stopped = false;
    int ticks = 0;
    for (int k = 0; k <= wait && !IsFinishedStatus(instr->GetStatus()); ++k, ++ticks)
    {
      if (k == wait) ready = true;
      if (k == halt_at && k > 0)
      {
        instr->Halt();
        stopped = true;
        for (auto& a : asked) PCHECK(c, a->live == 0, "the request is still open after halting");
        const auto before = instr->GetStatus();
        instr->ExecuteSingle(ui, ws);
        PCHECK(c, instr->GetStatus() == before && !taken, "executed after halting");
        break;
      }
      instr->ExecuteSingle(ui, ws);
      const auto st = instr->GetStatus();
      if (k == 0)
      {
        PCHECK(c, asked.size() == (can ? 1u : 0u), asked.size(), " requests");
        if (can)
        {
          // what is asked
          const auto& r = asked[0]->request;
          const auto main = text.present ? text.text : "";
          if (kind == 0)
          {
            AnyValue v;
            std::string d;
            PCHECK(c, ParseUserValueRequest(r, v, d), "this is not a request for a value");
            if (v.GetType() != current.GetType() || d != main) c.Fail("asked for " + Show(v) + " with [" + d + "] instead of [" + main + "]");
          }
          else
          {
            AnyValue meta;
            std::vector<std::string> o;
            PCHECK(c, ParseUserChoiceRequest(r, o, meta), "this is not a request for a choice");
            if (o != options)
            {
              std::string all;
              for (auto& x : o) all += "[" + x + "]";
              c.Fail("wrong options: " + all);
            }
            PCHECK(c, IsUserChoiceMetadata(meta), "wrong metadata ", Show(meta));
            if (GetMainTextFromMetadata(meta) != main) c.Fail("asked with [" + GetMainTextFromMetadata(meta) + "] instead of [" + main + "]");
            if (meta[Constants::USER_CHOICES_DIALOG_TYPE_NAME].As<dto::uint32>() != (kind == 1 ? dialog_type::kConfirmation : dialog_type::kSelection)) c.Fail("wrong dialog " + Show(meta));
          }
        }
      }
      PCHECK(c, asked.size() <= 1, "asked again");
      if (halt_while_asking)
      {
        // the request is withdrawn at once, and its reply is not waited for
        PCHECK(c, asked[0]->live == 0, "the request made while halting stays open");
        PCHECK(c, st == ES::NOT_FINISHED || st == ES::FAILURE, "halted while asking, it is ", St(st));
        instr->ExecuteSingle(ui, ws);
        PCHECK(c, instr->GetStatus() == st && !taken, "executed after halting");
        stopped = true;
        break;
      }
      if (!can || !supported)
        PCHECK(c, st == ES::FAILURE, "cannot ask, and is ", St(st));
      else if (k < wait)
      {
        PCHECK(c, st == ES::RUNNING, "waits for an answer, and is ", St(st));
        PCHECK(c, !taken && asked[0]->live == 1, "the request is not open any more");
      }
    }
    if (!stopped && can && supported)
    {
      AnyValue now;
      if (kind == 0)
        want = usable && twin.SetValue(out, given) ? ES::SUCCESS : ES::FAILURE;
      else if (kind == 1)
        want = usable && choice == 0 ? ES::SUCCESS : ES::FAILURE;
      else
      {
        const bool valid = usable && choice >= 0 && choice < kids;
        want = valid ? results[choice] : ES::FAILURE;
        if (valid)
        {
          // the chosen child is executed, and no other one
          for (int k = 0; k < 3 && !IsFinishedStatus(instr->GetStatus()); ++k) instr->ExecuteSingle(ui, ws);
        }
        for (int i = 0; i < kids; ++i)
        {
          const auto st = instr->ChildInstructions()[i]->GetStatus();
          const auto w = valid && i == choice ? results[i] : ES::NOT_STARTED;
          PCHECK(c, st == w, "child ", i, " is ", St(st), " after choosing ", choice);
        }
      }
      PCHECK(c, taken, "the reply was not taken");
      if (instr->GetStatus() != want) c.Fail(pbt::Str(type, " gives ", St(instr->GetStatus()), " instead of ", St(want)));
      if (!usable) PCHECK(c, Warnings(h) >= 1, "no warning about an unusable reply");
      if (want == ES::SUCCESS) PCHECK(c, h.logs.empty(), "succeeded and logged [", h.logs.empty() ? "" : h.logs[0].second, "]");
      (want == ES::SUCCESS ? succeeded : failed)++;
    }
    else
    {
      if (!can || !supported) PCHECK(c, Warnings(h) >= 1, "no error although the request was not made");
      ++cancelled;
    }
    AnyValue a, b;
    const bool ra = ws.GetValue("v", a), rb = twin.GetValue("v", b);
    if (ra != rb || Show(a) != Show(b)) c.Fail("v is " + Show(a) + " instead of " + Show(b));
    instr->Reset(ui);
    for (auto& q : asked) PCHECK(c, q->live == 0, "the request is still open after the reset");
    PCHECK(c, instr->GetStatus() == ES::NOT_STARTED, "reset: ", St(instr->GetStatus()));
  } while (g.More(3));
  c.Label(pbt::Str(type, succeeded ? " succeeds" : "", failed ? " fails" : "", cancelled ? " cancelled" : ""));
  if (succeeded && (failed || cancelled)) c.NonTrivial();
}

OAC_FACET("C22", "one-way", OneWay, Opts(40000, 2000000, "a text together with a value, or taken from a variable, was delivered", 12));
OAC_FACET("C22", "dialogue", Dialogue, Opts(30000, 1500000, "asked at least twice, with a success and a failure or cancellation", 15));
}  // namespace
