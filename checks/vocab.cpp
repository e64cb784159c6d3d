// C06: the vocabularies (execution status, job state, job command, log severity): total, consistent
// functions with unambiguous names.   C07: preamble, exceptions and breakpoints keep what they got.
#include "pbt.h"

#include <sup/oac-tree/breakpoint.h>
#include <sup/oac-tree/exceptions.h>
#include <sup/oac-tree/execution_status.h>
#include <sup/oac-tree/job_commands.h>
#include <sup/oac-tree/job_states.h>
#include <sup/oac-tree/log_severity.h>
#include <sup/oac-tree/procedure_preamble.h>

#include <cstring>
#include <memory>
#include <atomic>
#include <memory>
#include <set>
#include <thread>
#include <string>
#include <vector>

using namespace sup::oac_tree;

namespace
{
const std::vector<ExecutionStatus> kStatus = {
  ExecutionStatus::NOT_STARTED, ExecutionStatus::NOT_FINISHED, ExecutionStatus::RUNNING,
  ExecutionStatus::SUCCESS, ExecutionStatus::FAILURE};
const std::vector<std::string> kStatusNames = {"Not started", "Not finished", "Running", "Success",
                                               "Failure"};
const std::vector<JobState> kStates = {JobState::kInitial, JobState::kPaused, JobState::kStepping,
                                       JobState::kRunning, JobState::kSucceeded, JobState::kFailed,
                                       JobState::kHalted};
const std::vector<JobCommand> kCommands = {JobCommand::kStart, JobCommand::kStep,
                                           JobCommand::kPause, JobCommand::kReset,
                                           JobCommand::kHalt, JobCommand::kTerminate};

int AnyInt(pbt::Gen& g)
{
  switch (g.Draw(4))
  {
  case 0: return static_cast<int>(g.Range(-3, 12));
  // a small value but for one bit
  case 3: return static_cast<int>(static_cast<uint32_t>(g.Draw(10)) ^ (uint32_t{1} << g.Draw(32)));
  case 1: return static_cast<int>(g.Range(-1000, 1000));
  default: return static_cast<int>(static_cast<uint32_t>(g.Draw(uint64_t{1} << 32)));
  }
}

void Statuses(pbt::Case& c)
{
  const int v = c.g.Coin(2, 3) ? AnyInt(c.g) : static_cast<int>(c.g.Draw(5));
  const auto s = static_cast<ExecutionStatus>(v);
  const bool known = v >= 0 && v < 5;
  PLOG(c) << "status " << v << ": \"" << StatusToString(s) << "\"\n";
  PCHECK(c, IsFinishedStatus(s) == (s == ExecutionStatus::SUCCESS || s == ExecutionStatus::FAILURE),
         "IsFinishedStatus(", v, ")");
  PCHECK(c, NeedsExecute(s) == !IsFinishedStatus(s), "NeedsExecute(", v, ")");
  PCHECK(c, ReadyForExecute(s)
              == (s == ExecutionStatus::NOT_STARTED || s == ExecutionStatus::NOT_FINISHED),
         "ReadyForExecute(", v, ")");
  PCHECK(c, IsExecutingStatus(s)
              == (s == ExecutionStatus::NOT_FINISHED || s == ExecutionStatus::RUNNING),
         "IsExecutingStatus(", v, ")");
  const auto name = StatusToString(s);
  PCHECK(c, !name.empty(), "empty name for status ", v);
  for (int i = 0; i < 5; ++i)
    PCHECK(c, (name == StatusToString(kStatus[i])) == (i == v), "name of status ", v,
           " is ambiguous with ", i);
  if (known) PCHECK(c, name == kStatusNames[v], "status ", v, " is called ", name);
  if (known) c.NonTrivial();
  c.Identity(std::to_string(v));
}

void States(pbt::Case& c)
{
  const int v = c.g.Coin(2, 3) ? AnyInt(c.g) : static_cast<int>(c.g.Draw(7));
  const auto s = static_cast<JobState>(v);
  PLOG(c) << "job state " << v << ": \"" << ToString(s) << "\"\n";
  PCHECK(c, IsFinishedJobState(s)
              == (s == JobState::kSucceeded || s == JobState::kFailed || s == JobState::kHalted),
         "IsFinishedJobState(", v, ")");
  const auto name = ToString(s);
  PCHECK(c, !name.empty(), "empty name for job state ", v);
  for (int i = 0; i < 7; ++i)
    PCHECK(c, (name == ToString(kStates[i])) == (i == v), "name of job state ", v,
           " is ambiguous with ", i);
  // Reported by servers and command line clients: the names are part of the interface.
  static const std::vector<std::string> names = {"Initial", "Paused",  "Stepping", "Running",
                                                 "Success", "Failure", "Halted"};
  if (v >= 0 && v < 7)
  {
    PCHECK(c, name == names[v], "job state ", v, " is called ", name);
    c.NonTrivial();
  }
  c.Identity(std::to_string(v));
}

// The commands are totally ordered: start < step < pause < reset < halt < terminate.
void Commands(pbt::Case& c)
{
  const size_t i = c.g.Draw(6), j = c.g.Draw(6), k = c.g.Draw(6);
  const auto a = kCommands[i], b = kCommands[j], d = kCommands[k];
  PLOG(c) << i << " " << j << " " << k << "\n";
  PCHECK(c, (a <= b) == (i <= j), "order of commands ", i, " and ", j);
  PCHECK(c, (a <= b) || (b <= a), "not total");
  if ((a <= b) && (b <= a)) PCHECK(c, a == b, "not antisymmetric");
  if ((a <= b) && (b <= d)) PCHECK(c, a <= d, "not transitive");
  c.NonTrivial();
}

void Severities(pbt::Case& c)
{
  static const std::vector<std::string> names = {"EMERGENCY", "ALERT", "CRITICAL", "ERROR",
                                                 "WARNING", "NOTICE", "INFO", "DEBUG", "TRACE"};
  if (c.g.Coin(1, 2))
  {
    const int v = c.g.Coin(1, 2) ? AnyInt(c.g) : static_cast<int>(c.g.Draw(9));
    const auto name = log::SeverityString(v);
    PLOG(c) << "severity " << v << ": " << name << "\n";
    PCHECK(c, !name.empty(), "empty name for ", v);
    const bool known = v >= 0 && v < static_cast<int>(log::NUMBER_OF_LOG_LEVELS);
    if (known)
    {
      PCHECK(c, name == names[v], "severity ", v, " is called ", name);
      PCHECK(c, log::GetSeverityFromString(name) == v, "name of severity ", v, " gives ",
             log::GetSeverityFromString(name));
      c.NonTrivial();
    }
    else
      PCHECK(c, log::GetSeverityFromString(name) == log::NUMBER_OF_LOG_LEVELS,
             "unknown severity has the name of a known one");
    return;
  }
  // strings near the names
  std::string s = c.g.Pick(names);
  const std::string original = s;
  switch (c.g.Draw(8))
  {
  case 0: break;
  case 1: s = s.substr(0, c.g.Draw(s.size() + 1)); break;
  case 2: s += c.g.Pick(std::vector<std::string>{" ", "S", "\n", "x", std::string(1, '\0')}); break;
  case 3: s = " " + s; break;
  case 4: s[c.g.Draw(s.size())] ^= 0x20; break;
  case 5: for (auto& ch : s) ch = static_cast<char>(tolower(ch)); break;
  case 6: s = std::to_string(c.g.Draw(10)); break;
  default:
    s.clear();
    while (c.g.More(5)) s += static_cast<char>(c.g.Draw(256));
  }
  int expect = log::NUMBER_OF_LOG_LEVELS;
  for (size_t i = 0; i < names.size(); ++i)
    if (names[i] == s) expect = static_cast<int>(i);
  PLOG(c) << "severity of \"" << s << "\": " << log::GetSeverityFromString(s) << "\n";
  PCHECK(c, log::GetSeverityFromString(s) == expect, "severity of \"", s, "\" is ",
         log::GetSeverityFromString(s), " expected ", expect);
  if (s != original) c.NonTrivial();
}

std::string AnyString(pbt::Gen& g)
{
  static const std::vector<std::string> k = {"", "a", "types.json", "{\"type\":\"uint32\"}",
                                             "libplugin.so", "with space", "\xc3\xa9\xff",
                                             std::string("nul\0inside", 10)};
  if (g.Coin(1, 2)) return g.Pick(k);
  std::string s;
  // some are long, some end in white space
  if (g.Coin(1, 8)) s.assign(g.Coin() ? g.Draw(2000) : g.Draw(70000), g.Pick(std::vector<char>{'x', ' ', '\n', '\xc3'}));
  while (g.More(12) && s.size() < 80000) s += static_cast<char>(g.Draw(256));
  if (g.Coin(1, 8)) s += g.Pick(std::vector<std::string>{" ", "\n", "\t", "/", "\\", "  \n"});
  return s;
}

void Preamble(pbt::Case& c)
{
  using Model = std::pair<std::vector<std::pair<int, std::string>>, std::vector<std::string>>;
  std::vector<std::pair<std::unique_ptr<ProcedurePreamble>, Model>> all;
  all.emplace_back(std::make_unique<ProcedurePreamble>(), Model{});
  int n = 0, copies = 0;
  auto check = [&] {
    for (auto& p : all)
    {
      const auto regs = p.first->GetTypeRegistrations();
      PCHECK(c, regs.size() == p.second.first.size(), regs.size(), " type registrations, expected ",
             p.second.first.size());
      for (size_t i = 0; i < regs.size(); ++i)
      {
        PCHECK(c, regs[i].GetString() == p.second.first[i].second, "type registration ", i);
        PCHECK(c, regs[i].GetRegistrationMode() == p.second.first[i].first, "mode of ", i);
      }
      PCHECK(c, p.first->GetPluginPaths() == p.second.second, "plugin paths differ");
    }
  };
  while (c.g.More(6 + 2 * c.g.Size()) && n < 300)
  {
    ++n;
    auto& p = all[c.g.Draw(all.size())];
    switch (c.g.Draw(4))
    {
    case 0:
    {
      const auto s = AnyString(c.g);
      const auto mode =
        c.g.Coin(1, 2) ? TypeRegistrationInfo::kJSONString : TypeRegistrationInfo::kJSONFile;
      PLOG(c) << "AddTypeRegistration(" << mode << ", \"" << s << "\")\n";
      TypeRegistrationInfo info{mode, s};
      PCHECK(c, info.GetRegistrationMode() == mode && info.GetString() == s, "info differs");
      p.first->AddTypeRegistration(info);
      p.second.first.emplace_back(mode, s);
      break;
    }
    case 1:
    {
      const auto s = AnyString(c.g);
      PLOG(c) << "AddPluginPath(\"" << s << "\")\n";
      p.first->AddPluginPath(s);
      p.second.second.push_back(s);
      break;
    }
    case 2:
    {
      // what a getter returned is a snapshot
      auto regs = p.first->GetTypeRegistrations();
      auto paths = p.first->GetPluginPaths();
      regs.clear();
      paths.push_back("changed by the caller");
      break;
    }
    default:
      if (all.size() < 4)
      {
        PLOG(c) << "copy\n";
        auto copy = std::make_unique<ProcedurePreamble>(*p.first);
        Model m = p.second;
        all.emplace_back(std::move(copy), m);
        ++copies;
      }
      else
      {
        const size_t i = c.g.Draw(all.size()), j = c.g.Draw(all.size());
        *all[i].first = *all[j].first;
        Model m = all[j].second;
        all[i].second = m;
      }
      break;
    }
    check();
  }
  if (n >= 4) c.NonTrivial();
  if (copies) c.Label("with copies");
}

template <typename E> void OneException(pbt::Case& c, const std::string& msg)
{
  const std::string visible = msg.c_str();
  std::exception_ptr kept;
  {
    std::string temporary = msg;
    try
    {
      throw E(temporary);
    }
    catch (const E& e)
    {
      E copy = e;
      PCHECK(c, visible == copy.what(), "copy says \"", copy.what(), "\"");
      kept = std::current_exception();
    }
    temporary.assign(temporary.size(), '#');
  }
  {
    auto original = std::make_unique<E>(msg);
    E copy{*original};
    E assigned{"something else"};
    assigned = *original;
    E moved{std::move(*original)};
    original.reset();
    // Two messages at once.
    const E other{"other"};
    const char* first = copy.what();
    const char* second = other.what();
    PCHECK(c, visible == first && std::string(second) == "other", "with two exceptions the messages are \"", first, "\" and \"", second, "\"");
    for (auto* e : {&copy, &assigned, &moved}) PCHECK(c, visible == e->what(), "a copy says \"", e->what(), "\"");
  }
  bool caught = false;
  try
  {
    std::rethrow_exception(kept);
  }
  catch (const MessageException& e)
  {
    PCHECK(c, visible == e.what(), "what() is \"", e.what(), "\" instead of \"", visible, "\"");
    caught = true;
  }
  catch (...)
  {
  }
  PCHECK(c, caught, "not caught as a MessageException");
  caught = false;
  try
  {
    std::rethrow_exception(kept);
  }
  catch (const std::exception& e)
  {
    PCHECK(c, visible == e.what(), "what() is \"", e.what(), "\" instead of \"", visible, "\"");
    PCHECK(c, dynamic_cast<const E*>(&e) != nullptr, "lost its type");
    caught = true;
  }
  PCHECK(c, caught, "not caught as a std::exception");
}

// Kinds of errors can be told apart.
void Exceptions(pbt::Case& c)
{
  const auto msg = AnyString(c.g);
  const int kind = static_cast<int>(c.g.Draw(7));
  PLOG(c) << "exception " << kind << " with message \"" << msg << "\"\n";
  switch (kind)
  {
  case 0: OneException<MessageException>(c, msg); break;
  case 1: OneException<RuntimeException>(c, msg); break;
  case 2: OneException<InvalidOperationException>(c, msg); break;
  case 3: OneException<ParseException>(c, msg); break;
  case 4: OneException<ProcedureSetupException>(c, msg); break;
  case 5: OneException<InstructionSetupException>(c, msg); break;
  default: OneException<VariableSetupException>(c, msg); break;
  }
  int caught = -1;
  try
  {
    switch (kind)
    {
    case 0: throw MessageException(msg);
    case 1: throw RuntimeException(msg);
    case 2: throw InvalidOperationException(msg);
    case 3: throw ParseException(msg);
    case 4: throw ProcedureSetupException(msg);
    case 5: throw InstructionSetupException(msg);
    default: throw VariableSetupException(msg);
    }
  }
  catch (const RuntimeException&) { caught = 1; }
  catch (const InvalidOperationException&) { caught = 2; }
  catch (const ParseException&) { caught = 3; }
  catch (const ProcedureSetupException&) { caught = 4; }
  catch (const InstructionSetupException&) { caught = 5; }
  catch (const VariableSetupException&) { caught = 6; }
  catch (const MessageException&) { caught = 0; }
  PCHECK(c, caught == kind, "exception of kind ", kind, " caught as ", caught);
  if (!msg.empty()) c.NonTrivial();
}

void Breakpoints(pbt::Case& c)
{
  static char anchors[4];
  struct M
  {
    const Instruction* p;
    int s;
  };
  std::vector<Breakpoint> all;
  std::vector<M> model;
  int n = 0, changes = 0;
  while (c.g.More(8) && n < 200)
  {
    ++n;
    const auto* p = c.g.Coin(1, 5)
                      ? nullptr
                      : reinterpret_cast<const Instruction*>(&anchors[c.g.Draw(4)]);
    switch (c.g.Draw(3))
    {
    case 0:
      all.emplace_back(p);
      model.push_back({p, Breakpoint::kSet});
      break;
    case 1:
      if (!all.empty())
      {
        const size_t i = c.g.Draw(all.size());
        const auto s = c.g.Coin(1, 2) ? Breakpoint::kReleased : Breakpoint::kSet;
        all[i].SetStatus(s);
        model[i].s = s;
        ++changes;
      }
      break;
    default:
      if (!all.empty())
      {
        const size_t i = c.g.Draw(all.size()), j = c.g.Draw(all.size());
        all[i] = all[j];
        model[i] = model[j];
      }
    }
    for (size_t i = 0; i < all.size(); ++i)
    {
      PCHECK(c, all[i].GetInstruction() == model[i].p, "instruction of breakpoint ", i);
      PCHECK(c, all[i].GetStatus() == model[i].s, "status of breakpoint ", i);
    }
  }
  PLOG(c) << all.size() << " breakpoints, " << changes << " status changes\n";
  if (all.size() > 1 && changes) c.NonTrivial();
}

#ifdef VERIF_TSAN
// Asked from several threads at once, also the first time.
void Threads(pbt::Case& c)
{
  std::vector<int> values;
  for (int i = 0; i < 40; ++i) values.push_back(AnyInt(c.g));
  auto all = [&](size_t from) {
    std::vector<std::string> r(values.size());
    for (size_t k = 0; k < values.size(); ++k)
    {
      const size_t i = (k + from) % values.size();
      const int v = values[i];
      const auto status = static_cast<ExecutionStatus>(v);
      const auto state = static_cast<JobState>(v);
      r[i] = StatusToString(status) + "|" + ToString(state) + "|" + log::SeverityString(v) + "|"
             + std::to_string(log::GetSeverityFromString(log::SeverityString(v))) + "|"
             + std::to_string(IsFinishedStatus(status) + 2 * NeedsExecute(status) + 4 * ReadyForExecute(status) + 8 * IsExecutingStatus(status)
                              + 16 * IsFinishedJobState(state));
    }
    return r;
  };
  std::vector<std::vector<std::string>> got(4);
  std::atomic<int> ready{0};
  std::vector<std::thread> threads;
  for (size_t t = 0; t < got.size(); ++t)
    threads.emplace_back([&, t] {
      ++ready;
      while (ready < static_cast<int>(got.size())) {}
      got[t] = all(t);
    });
  for (auto& t : threads) t.join();
  const auto want = all(0);
  for (auto& g : got)
    for (size_t i = 0; i < want.size(); ++i) PCHECK(c, g[i] == want[i], "a thread is told \"", g[i], "\" about ", values[i], ", alone it is \"", want[i], "\"");
  c.NonTrivial();
}
pbt::FacetOpts ThreadOpts()
{
  pbt::FacetOpts o;
  o.quick = 1500;
  o.thorough = 30000;
  o.quick_cap_s = 20;
  o.thorough_cap_s = 120;
  o.rule = "four threads ask for names and classes of arbitrary values at once, under ThreadSanitizer; all non-trivial";
  return o;
}
pbt::Facet a5("C06", "threads", Threads, ThreadOpts());
#else
pbt::FacetOpts Opts(uint64_t q, const char* rule)
{
  pbt::FacetOpts o;
  o.quick = q;
  o.thorough = q * 20;
  o.rule = rule;
  return o;
}
pbt::Facet a1("C06", "statuses", Statuses,
              Opts(20000, "all statuses and arbitrary int values cast to the enumeration, against "
                         "the documented table; non-trivial: a defined status"));
pbt::Facet a2("C06", "job states", States,
              Opts(20000, "all job states and arbitrary int values; non-trivial: a defined state"));
pbt::Facet a3("C06", "commands", Commands, Opts(5000, "triples of commands; all non-trivial"));
pbt::Facet a4("C06", "severities", Severities,
              Opts(60000, "all severities, arbitrary ints, names and near-names; non-trivial: a "
                         "defined severity or a modified name"));
pbt::Facet b1("C07", "preamble", Preamble,
              Opts(40000, "random histories of additions, copies and assignments of preambles "
                          "against a model; non-trivial: at least 4 operations"));
pbt::Facet b2("C07", "exceptions", Exceptions,
              Opts(40000, "every exception type with arbitrary messages, copied, rethrown and "
                          "caught through every base; non-trivial: non-empty message"));
pbt::Facet b3("C07", "breakpoints", Breakpoints,
              Opts(20000, "random histories of breakpoint values; non-trivial: more than one "
                          "breakpoint and a status change"));
#endif
}  // namespace
