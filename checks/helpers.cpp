// C32: the helpers for authors of instructions, programs and plugins: questions that wait for the
// user, metadata of dialogues, directories, libraries and the environment.
#include "conc.h"
#include "oac.h"
#include "scratch.h"
#include "values.h"

#include <sup/oac-tree/constants.h>
#include <sup/oac-tree/generic_utils.h>
#include <sup/oac-tree/log_severity.h>

#include <dlfcn.h>
#include <fcntl.h>

#include <algorithm>
#include <atomic>
#include <map>
#include <set>
#include <thread>

using namespace oac;
using namespace values;

namespace
{
#ifndef VERIF_SCHED
// ----------------------------------------------------------------------------------- questions
struct Script
{
  bool valid = true, null = false;
  int refusals = 0;  // number of times WaitFor tells that there is no answer yet
  UserInputReply reply;
  // what happened
  int waits = 0, gets = 0, alive = 0, early = 0;
  double longest = 0, shortest = 1e9;
};

struct ScriptedFuture : IUserInputFuture
{
  explicit ScriptedFuture(Script& s) : s(s) { ++s.alive; }
  ~ScriptedFuture() override { --s.alive; }
  bool IsValid() const override { return s.valid; }
  sup::dto::uint64 GetId() const override { return 1; }
  bool IsReady() const override { return s.waits > s.refusals; }
  bool WaitFor(double seconds) const override
  {
    s.longest = std::max(s.longest, seconds);
    s.shortest = std::min(s.shortest, seconds);
    return ++s.waits > s.refusals;
  }
  UserInputReply GetValue() override
  {
    if (s.waits <= s.refusals) ++s.early;
    ++s.gets;
    return s.reply;
  }
  Script& s;
};

const std::vector<AnyType>& Types()
{
  static const std::vector<AnyType> t{sup::dto::BooleanType, sup::dto::SignedInteger32Type, sup::dto::UnsignedInteger32Type, sup::dto::StringType, sup::dto::Float64Type,
                                      AnyType({{"a", sup::dto::SignedInteger8Type}, {"b", sup::dto::StringType}})};
  return t;
}

void Questions(pbt::Case& c)
{
  Script s;
  s.valid = !c.g.Coin(1, 5);
  s.refusals = static_cast<int>(c.g.Draw(6));
  const bool choice = c.g.Coin();
  auto payload = c.g.Coin(1, 8) ? AnyValue{} : choice && c.g.Coin(3, 4) ? AnyValue(sup::dto::SignedInteger32Type, static_cast<int>(c.g.Draw(5)) - 1) : RandValue(c.g, c.g.Pick(Types()));
  s.reply.m_request_type = c.g.Coin(1, 5) ? c.g.Pick(std::vector<InputRequestType>{InputRequestType::kInvalid, InputRequestType::kUserValue, InputRequestType::kUserChoice})
                           : choice      ? InputRequestType::kUserChoice
                                         : InputRequestType::kUserValue;
  s.reply.m_result = !c.g.Coin(1, 5);
  s.reply.m_payload = payload;
  auto value = RandValue(c.g, c.g.Pick(Types()));
  const auto text = c.g.Pick(std::vector<std::string>{"", "How many?", "a & <b>\n\"c\"", std::string(300, 'x')});
  std::vector<std::string> options;
  for (uint64_t i = 0, n = c.g.Draw(5); i < n; ++i) options.push_back(c.g.Pick(std::vector<std::string>{"yes", "no", "", "a;b", "yes", "\xc3\xa9"}));
  auto metadata = CreateUserChoiceMetadata();
  if (c.g.Coin(3, 4)) metadata.AddMember(Constants::USER_CHOICES_TEXT_NAME, text);
  if (c.g.Coin(1, 4)) metadata.AddMember(Constants::USER_CHOICES_MODAL_NAME, true);

  std::vector<UserInputRequest> requests;
  std::vector<std::string> logs;
  HookUI ui;
  ui.on_request = [&](const UserInputRequest& r) {
    requests.push_back(r);
    return std::make_unique<ScriptedFuture>(s);
  };
  ui.on_log = [&](int sev, const std::string& m) { logs.push_back(pbt::Str(sev, " ", m)); };
  auto instr = GlobalInstructionRegistry().Create("Succeed");
  instr->SetName("the name of it");
  const int way = static_cast<int>(c.g.Draw(choice ? 4 : 3));
  const bool halted = way == 3 && c.g.Coin(1, 4);
  if (halted) instr->Halt();

  bool ok = false;
  AnyValue got;
  int selected = -2;
  bool has_future = false;
  if (!choice && way == 2)
  {
    auto f = CreateUserValueFuture(ui, *instr, value, text);
    has_future = f != nullptr;
    PCHECK(c, s.waits == 0 && s.gets == 0, "making a future waits for the answer");
  }
  else if (choice && way == 2)
  {
    auto f = CreateUserChoiceFuture(ui, *instr, options, metadata);
    has_future = f != nullptr;
    PCHECK(c, s.waits == 0 && s.gets == 0, "making a future waits for the answer");
  }
  else if (!choice)
  {
    auto r = GetBlockingUserValue(ui, value, text);
    ok = r.first;
    got = r.second;
  }
  else
  {
    auto r = way == 3 ? GetInterruptableUserChoice(ui, *instr, options, metadata) : GetBlockingUserChoice(ui, options, metadata);
    ok = r.first;
    selected = r.second;
  }
  PLOG(c) << (choice ? "choice" : "value") << " way " << way << " valid " << s.valid << " refusals " << s.refusals << " reply " << static_cast<int>(s.reply.m_request_type) << "/" << s.reply.m_result << "/" << Show(payload)
          << " -> " << ok << "\n";

  // The question is asked once, as it was given.
  PCHECK(c, requests.size() == 1, "the user was asked ", requests.size(), " times");
  if (choice)
  {
    std::vector<std::string> o;
    AnyValue m;
    PCHECK(c, ParseUserChoiceRequest(requests[0], o, m), "the request is not one for a choice");
    PCHECK(c, o == options, "the options differ");
    PCHECK(c, m == metadata && GetMainTextFromMetadata(m) == (metadata.HasField(Constants::USER_CHOICES_TEXT_NAME) ? text : ""), "the metadata differ: ", Show(m));
  }
  else
  {
    AnyValue v;
    std::string d;
    PCHECK(c, ParseUserValueRequest(requests[0], v, d), "the request is not one for a value");
    PCHECK(c, v.GetType() == value.GetType() && d == text, "the request is for another type or has another description");
  }
  PCHECK(c, s.alive == 0, "the future still exists");
  PCHECK(c, s.early == 0, "the answer was taken before there was one");
  if (!s.valid)
  {
    PCHECK(c, !ok && !has_future && s.waits == 0 && s.gets == 0, "a future that is not valid was used");
    PCHECK(c, logs.size() == 1 && logs[0].rfind(std::to_string(sup::oac_tree::log::SUP_SEQ_LOG_ERR) + " ", 0) == 0, "there is not exactly one error about a future that is not valid");
    if (way >= 2) PCHECK(c, logs[0].find("the name of it") != std::string::npos, "the error does not name the instruction: ", logs[0]);
    PCHECK(c, !choice || way == 2 || selected == -1, "a selection without an answer: ", selected);
    {
      // what stands for an answer that will never come
      DefaultUserInterface mute;
      auto f = mute.RequestUserInput(requests[0]);
      PCHECK(c, f != nullptr, "no future at all");
      for (uint64_t i = 0, n = 1 + c.g.Draw(6); i < n; ++i)
      {
        bool thrown = false;
        switch (c.g.Draw(4))
        {
        case 0: PCHECK(c, !f->IsValid(), "an answer that cannot come is valid"); break;
        case 1: PCHECK(c, !f->IsReady(), "an answer that cannot come is ready"); break;
        case 2: PCHECK(c, !f->WaitFor(static_cast<double>(c.g.Draw(3)) * 1e-6), "an answer that cannot come came"); break;
        default:
          try { (void)f->GetValue(); }
          catch (const MessageException&) { thrown = true; }
          PCHECK(c, thrown, "an answer that cannot come is there");
        }
      }
    }
    c.Label("not valid");
    return;
  }
  PCHECK(c, logs.empty(), "unexpected message: ", logs[0]);
  if (way == 2)
  {
    PCHECK(c, has_future, "a valid future was not returned");
    return;
  }
  if (halted)
  {
    PCHECK(c, !ok && s.gets == 0, "a question of a halted instruction was answered");
    c.Label("halted");
    return;
  }
  PCHECK(c, s.waits == s.refusals + 1 && s.gets == 1, "waited ", s.waits, " times for an answer that came after ", s.refusals + 1, ", taken ", s.gets, " times");
  PCHECK(c, s.shortest > 0 && s.longest <= 1.0, "a wait of ", s.shortest, " to ", s.longest, " s");
  const auto want_type = choice ? InputRequestType::kUserChoice : InputRequestType::kUserValue;
  const bool want = s.reply.m_result && s.reply.m_request_type == want_type && (!choice || payload.GetType() == sup::dto::SignedInteger32Type);
  PCHECK(c, ok == want, "the answer was ", ok ? "accepted" : "refused");
  if (choice) PCHECK(c, selected == (want ? payload.As<sup::dto::int32>() : -1), "selected option ", selected);
  else PCHECK(c, want ? got == payload && got.GetType() == payload.GetType() : sup::dto::IsEmptyValue(got), "the answer is ", Show(got), " instead of ", Show(payload));
  if (s.refusals > 0) c.NonTrivial();
}
OAC_FACET("C32", "questions", Questions, Opts(40000, 1000000, "the answer was not there at once"));

// ------------------------------------------------------------------------------------ metadata
void Metadata(pbt::Case& c)
{
  struct F
  {
    std::string name;
    AnyType type;
  };
  const std::vector<F> fields{{"text", sup::dto::StringType}, {"dialog_type", sup::dto::UnsignedInteger32Type}, {"modal", sup::dto::BooleanType},
                              {"title", sup::dto::StringType}, {"informative", sup::dto::StringType},           {"details", sup::dto::StringType}};
  bool want = true;
  std::string text;
  int n = 0, wrong = 0;
  AnyValue v;
  if (c.g.Coin(1, 10))
  {
    v = c.g.Coin(1, 3) ? AnyValue{} : RandValue(c.g, c.g.Pick(std::vector<AnyType>{sup::dto::StringType, sup::dto::BooleanType, AnyType(2, sup::dto::StringType, "arr")}));
    want = false;
  }
  else
  {
    v = c.g.Coin() ? CreateUserChoiceMetadata() : sup::dto::EmptyStruct();
    auto order = fields;
    for (size_t i = order.size(); i > 1; --i) std::swap(order[i - 1], order[c.g.Draw(i)]);
    for (auto& f : order)
    {
      if (c.g.Coin(1, 3)) continue;
      const bool bad = c.g.Coin(1, 10);
      AnyType type = f.type;
      if (bad)
      {
        do type = c.g.Pick(Types());
        while (type == f.type);
        want = false;
        ++wrong;
      }
      auto m = RandValue(c.g, type);
      if (f.name == "text" && !bad) text = m.As<std::string>();
      v.AddMember(f.name, m);
      ++n;
    }
    if (c.g.Coin(1, 3)) v.AddMember(c.g.Pick(std::vector<std::string>{"Text", "note", "mode"}), RandValue(c.g, c.g.Pick(Types())));
  }
  PLOG(c) << Show(v) << "\n";
  PCHECK(c, IsUserChoiceMetadata(v) == want, "a value is ", want ? "not " : "", "taken for metadata of a dialogue");
  PCHECK(c, GetMainTextFromMetadata(v) == text, "the main text is '", GetMainTextFromMetadata(v), "' instead of '", text, "'");
  if (n >= 2) c.NonTrivial();
  if (wrong) c.Label("a wrong type");
  PCHECK(c, IsUserChoiceMetadata(CreateUserChoiceMetadata()), "new metadata are not metadata");
  // The interface that does nothing refuses every question.
  DefaultUserInterface ui;
  auto f = ui.RequestUserInput(CreateUserChoiceRequest({"a"}, v));
  PCHECK(c, f && !f->IsValid(), "an interface without user has a valid future");
  auto r = GetBlockingUserChoice(ui, {"a", "b"}, v);
  PCHECK(c, !r.first && r.second == -1, "an interface without user answered");
  auto q = GetBlockingUserValue(ui, v, "x");
  PCHECK(c, !q.first && sup::dto::IsEmptyValue(q.second), "an interface without user answered");
  PCHECK(c, !ui.PutValue(v, "x"), "an interface without user shows a value");
}
OAC_FACET("C32", "metadata", Metadata, Opts(40000, 1000000, "at least two of the known fields"));

// --------------------------------------------------------------------------------- directories
struct Tree
{
  // path below the scratch directory -> content of a file, target of a link or "/" for a directory
  std::map<std::string, std::string> all;
};

// What is in a directory, by looking.
void Look(const std::string& base, const std::string& rel, std::map<std::string, std::string>& out)
{
  for (auto& n : {"a", "b", "c", "f", "l", "d", "w"})
  {
    const auto r = rel.empty() ? std::string(n) : rel + "/" + n;
    const auto p = base + "/" + r;
    struct stat st;
    if (lstat(p.c_str(), &st)) continue;
    if (S_ISLNK(st.st_mode))
    {
      char buf[300];
      auto k = readlink(p.c_str(), buf, sizeof buf);
      out[r] = "->" + std::string(buf, k > 0 ? k : 0);
    }
    else if (S_ISDIR(st.st_mode))
    {
      out[r] = pbt::Str("dir ", st.st_mode & 07777);
      if (out.size() < 400) Look(base, r, out);
    }
    else
    {
      std::ifstream in(p);
      std::string s((std::istreambuf_iterator<char>(in)), {});
      out[r] = "file " + s;
    }
  }
}

void Clear(const std::string& p)
{
  std::map<std::string, std::string> all;
  Look(p, "", all);
  for (auto it = all.rbegin(); it != all.rend(); ++it)
  {
    const auto full = p + "/" + it->first;
    if (it->second.rfind("dir", 0) == 0) rmdir(full.c_str());
    else unlink(full.c_str());
  }
}

// The reference: what "mkdir -p" does, from left to right.
bool MkdirP(const std::string& path, unsigned mode)
{
  size_t at = 0;
  while (at != std::string::npos)
  {
    at = path.find('/', at + 1);
    const bool last = at == std::string::npos || path.find_first_not_of('/', at) == std::string::npos;
    auto prefix = path.substr(0, last ? path.size() : at);
    if (prefix.find_first_not_of('/') == std::string::npos) continue;
    struct stat st;
    if (mkdir(prefix.c_str(), last ? mode : 0755) != 0 && (stat(prefix.c_str(), &st) || !S_ISDIR(st.st_mode))) return false;
    if (last) return true;
  }
  return true;
}

void Directories(pbt::Case& c)
{
  Scratch one, two;
  const std::string bases[] = {one.path, two.path};
  const int old_cwd = open(".", O_RDONLY | O_DIRECTORY | O_CLOEXEC);
  const auto old_mask = umask(0);
  struct Restore
  {
    int fd;
    mode_t mask;
    const std::string* bases;
    ~Restore()
    {
      if (fchdir(fd)) abort();
      close(fd);
      umask(mask);
      Clear(bases[0]);
      Clear(bases[1]);
    }
  } restore{old_cwd, old_mask, bases};
  if (old_cwd < 0) c.Fail("no working directory");
  for (auto& b : bases)
  {
    mkdir((b + "/w").c_str(), 0755);
    std::ofstream(b + "/f") << "content";
    std::ofstream(b + "/w/f") << "content of another";
  }
  const bool link = c.g.Coin(1, 3), dangling = c.g.Coin(1, 4);
  for (auto& b : bases)
  {
    if (link && (symlink("a", (b + "/l").c_str()) || symlink("../w", (b + "/w/l").c_str()))) c.Fail("no link");
    if (dangling && symlink("nothing", (b + "/d").c_str())) c.Fail("no link");
  }
  int made = 0, refused = 0;
  for (uint64_t s = 0, n = 1 + c.g.Draw(6); s < n; ++s)
  {
    const bool relative = c.g.Coin(1, 3);
    std::string p;
    for (uint64_t k = 0, m = 1 + c.g.Draw(5); k < m; ++k)
    {
      if (k) p += c.g.Coin(1, 8) ? "//" : "/";
      p += c.g.Coin(1, 6) ? c.g.Pick(std::vector<std::string>{".", "f", "l", "d", "w"}) : c.g.Pick(std::vector<std::string>{"a", "b", "c"});
      // one level up, but never above the scratch directory
      if (p.back() != '.' && c.g.Coin(1, 10)) p += "/..";
    }
    bool plain = true;
    if (c.g.Coin(1, 5))
    {
      p += c.g.Coin(1, 4) ? "//" : "/";
      plain = false;
    }
    if (p.find("..") != std::string::npos || p.find("/.") != std::string::npos) plain = false;
    const unsigned mode = c.g.Coin() ? 0755 : c.g.Pick(std::vector<unsigned>{0700, 0770, 0777, 0750});
    const bool standard = mode == 0755 && c.g.Coin();
    bool got[2];
    for (int b = 0; b < 2; ++b)
    {
      if (chdir((bases[b] + (relative ? "/w" : "")).c_str())) c.Fail("no directory");
      const auto full = relative ? p : bases[b] + "/" + p;
      got[b] = b ? MkdirP(full, mode) : standard ? utils::CreateDir(full) : utils::CreateDir(full, mode);
    }
    struct stat st;
    if (chdir((bases[0] + (relative ? "/w" : "")).c_str())) c.Fail("no directory");
    const auto full = relative ? p : bases[0] + "/" + p;
    const bool is_dir = stat(full.c_str(), &st) == 0 && S_ISDIR(st.st_mode);
    const bool readable = access(full.c_str(), R_OK) == 0;
    PLOG(c) << "CreateDir(\"" << p << "\", 0" << std::oct << mode << std::dec << ") " << (relative ? "below w" : "") << " -> " << got[0] << "\n";
    PCHECK(c, got[0] == is_dir, "CreateDir(", p, ") returned ", got[0] ? "true but there is no such directory" : "false but the directory is there");
    PCHECK(c, got[0] == got[1], "CreateDir(", p, ") returned ", got[0], " where the directory can ", got[1] ? "" : "not ", "be made");
    PCHECK(c, utils::FileExists(full) == readable, "FileExists(", p, ") is ", !readable);
    std::map<std::string, std::string> x, y;
    Look(bases[0], "", x);
    Look(bases[1], "", y);
    if (!plain)
      for (auto* m : {&x, &y})
        for (auto& [k, v] : *m)
          if (v.rfind("dir", 0) == 0) v = "dir";
    if (x != y)
    {
      std::string what;
      for (auto& [k, v] : x)
        if (!y.count(k) || y[k] != v) what += " " + k + ":" + v;
      for (auto& [k, v] : y)
        if (!x.count(k) || x[k] != v) what += " (expected " + k + ":" + v + ")";
      c.Fail(pbt::Str("after CreateDir(", p, ") the directories differ:", what));
    }
    // permissions that were not compared must not matter later
    if (!plain)
      for (auto& b : bases)
      {
        std::map<std::string, std::string> all;
        Look(b, "", all);
        for (auto& [k, v] : all)
          if (v.rfind("dir", 0) == 0) chmod((b + "/" + k).c_str(), 0755);
      }
    (got[0] ? made : refused)++;
  }
  // The directory in which relative names are looked up is gone.
  if (c.g.Coin(1, 8))
  {
    const auto gone = one.path + "/gone";
    mkdir(gone.c_str(), 0755);
    if (chdir(gone.c_str())) c.Fail("no directory");
    rmdir(gone.c_str());
    PLOG(c) << "in a directory that was removed\n";
    PCHECK(c, !utils::CreateDir(c.g.Coin() ? "a" : "a/b"), "a directory was made in a directory that was removed");
  }
  PCHECK(c, !utils::CreateDir(""), "a directory without name was made");
  if (made && (refused || made >= 2)) c.NonTrivial();
  if (refused) c.Label("refused");
}
OAC_FACET("C32", "directories", Directories, Opts(4000, 100000, "several directories were made, or one was refused"));

// ----------------------------------------------------------------------- libraries, environment
struct PluginHub
{
  std::vector<std::string> events;
};
PluginHub* g_plugins = nullptr;
std::string g_instruction;

void PluginHook(const char* path, int loaded)
{
  if (!g_plugins) return;
  std::string p(path);
  g_plugins->events.push_back((loaded ? "+" : "-") + p.substr(p.rfind('/') + 1));
  if (loaded && !g_instruction.empty() && p.find(g_instruction) != std::string::npos && !GlobalInstructionRegistry().IsRegisteredInstructionName(g_instruction))
    GlobalInstructionRegistry().RegisterInstruction(g_instruction, [] { return GlobalInstructionRegistry().Create("Fail").release(); });
}

// A library that tells when it is loaded and unloaded; compiled once in each worker.
const std::string& PluginImage()
{
  static const std::string image = [] {
    Scratch s;
    auto src = s.Write("p.c", "#define _GNU_SOURCE\n#include <dlfcn.h>\n#include <stdlib.h>\n"
                              "static void tell(int on) { Dl_info i; const char* h = getenv(\"VERIF_PLUGIN_HOOK\");\n"
                              "  if (h && dladdr((void*)tell, &i)) ((void (*)(const char*, int))strtoull(h, 0, 10))(i.dli_fname, on); }\n"
                              "__attribute__((constructor)) static void up(void) { tell(1); }\n"
                              "__attribute__((destructor)) static void down(void) { tell(0); }\n");
    auto out = s.File("p.so");
    if (std::system(("gcc -O0 -shared -fPIC -o " + out + " " + src).c_str())) abort();
    std::ifstream in(out, std::ios::binary);
    return std::string((std::istreambuf_iterator<char>(in)), {});
  }();
  return image;
}

void Libraries(pbt::Case& c)
{
  static uint64_t serial = 0;
  setenv("VERIF_PLUGIN_HOOK", pbt::Str(reinterpret_cast<uintptr_t>(&PluginHook)).c_str(), 1);
  PluginHub hub;
  g_plugins = &hub;
  g_instruction.clear();
  {
    Scratch dir;
    const auto id = pbt::Str("n", ++serial);
    std::vector<std::string> libs, shorts;
    const uint64_t n = 1 + c.g.Draw(3);
    for (uint64_t k = 0; k < n; ++k)
    {
      shorts.push_back(pbt::Str("lib", k, ".so"));
      libs.push_back(dir.Write(shorts.back(), PluginImage()));
    }
    const auto text = dir.Write("text.so", "this is not a library");
    struct H
    {
      utils::LibraryHandle h;
      size_t lib;
    };
    std::vector<H> handles;
    std::vector<std::string> want;
    std::vector<int> refs(libs.size(), 0);
    int loads = 0, unloads = 0;
    for (uint64_t s = 0, m = 2 + c.g.Draw(10); s < m; ++s)
    {
      const auto op = c.g.Draw(8);
      if (op <= 3)
      {
        auto k = c.g.Draw(libs.size());
        PLOG(c) << "load " << shorts[k] << "\n";
        utils::LibraryHandle h = nullptr;
        try
        {
          h = utils::LoadLibrary(libs[k]);
        }
        catch (const std::exception& e)
        {
          c.Fail(pbt::Str("a library could not be loaded: ", e.what()));
        }
        PCHECK(c, h, "no handle");
        if (refs[k]++ == 0) want.push_back("+" + shorts[k]);
        handles.push_back({h, k});
        ++loads;
      }
      else if (op <= 5 && !handles.empty())
      {
        auto k = c.g.Draw(handles.size());
        PLOG(c) << "unload " << shorts[handles[k].lib] << "\n";
        PCHECK(c, utils::UnloadLibrary(handles[k].h), "unloading a library failed");
        if (--refs[handles[k].lib] == 0) want.push_back("-" + shorts[handles[k].lib]);
        handles.erase(handles.begin() + static_cast<long>(k));
        ++unloads;
      }
      else
      {
        const auto name = c.g.Pick(std::vector<std::string>{dir.path + "/nothing.so", text, dir.path, "", "libverif-there-is-no-such-library.so"});
        bool threw = false;
        try
        {
          (void)utils::LoadLibrary(name);
        }
        catch (const InvalidOperationException&)
        {
          threw = name.empty();
        }
        catch (const RuntimeException& e)
        {
          threw = !name.empty() && std::string(e.what()).find(name) != std::string::npos;
        }
        PLOG(c) << "load something else: '" << name << "'\n";
        PCHECK(c, threw, "loading '", name, "' did not fail as it should");
      }
      PCHECK(c, hub.events == want, "libraries were loaded or unloaded ", hub.events.size(), " times instead of ", want.size());
    }
    for (auto& h : handles) PCHECK(c, utils::UnloadLibrary(h.h), "unloading a library failed");
    // A plugin of a procedure can define the instructions that the procedure uses.
    if (c.g.Coin(1, 3))
    {
      hub.events.clear();
      g_instruction = "PluginOf" + id;
      std::vector<std::string> names, expected;
      const uint64_t count = 1 + c.g.Draw(3), own = c.g.Draw(count);
      const bool missing = c.g.Coin(1, 4);
      const uint64_t gap = c.g.Draw(count);
      std::vector<Node> preamble;
      for (uint64_t k = 0; k < count; ++k)
      {
        auto name = dir.Write(k == own ? g_instruction + ".so" : pbt::Str("more", k, ".so"), PluginImage());
        if (missing && gap == k) name += ".gone";
        names.push_back(name);
        Node node("Plugin");
        node.content = name;
        preamble.push_back(node);
      }
      for (uint64_t k = 0; k < (missing ? gap : count); ++k) expected.push_back("+" + names[k].substr(names[k].rfind('/') + 1));
      auto xml = ProcXml({Node("Sequence").K(Node(g_instruction))}, {}, {}, preamble);
      PLOG(c) << xml;
      std::unique_ptr<Procedure> p;
      bool refused = false;
      try
      {
        p = ParseProcedureString(xml);
      }
      catch (const MessageException& e)
      {
        refused = true;
      }
      PCHECK(c, refused == missing, "a procedure with ", missing ? "a plugin that does not exist was accepted" : "plugins was refused");
      PCHECK(c, hub.events == expected, hub.events.size(), " plugins were loaded instead of ", expected.size(), ", or in another order");
      if (p)
      {
        PCHECK(c, p->GetPreamble().GetPluginPaths() == names, "the plugins of the procedure differ");
        HookUI ui;
        p->Setup();
        p->ExecuteSingle(ui);
        PCHECK(c, p->GetStatus() == ES::FAILURE, "the instruction of a plugin was not executed");
        p->Reset(ui);
      }
      c.Label("plugins");
    }
    if (loads >= 2 && unloads) c.NonTrivial();
    // The environment.
    const auto var = "VERIF_HELPERS_" + id;
    PCHECK(c, utils::GetEnvironmentVariable(var).empty(), "a variable that is not set has a value");
    auto v = c.g.Pick(std::vector<std::string>{"", "x", "a=b", " ", "\xc3\xa9\n", std::string(5000, 'z')});
    setenv(var.c_str(), v.c_str(), 1);
    PCHECK(c, utils::GetEnvironmentVariable(var) == v, "the environment variable has another value");
    unsetenv(var.c_str());
    PCHECK(c, utils::GetEnvironmentVariable(var).empty(), "a variable that was removed has a value");
    auto now = [] {
      timespec t;
      clock_gettime(CLOCK_REALTIME, &t);
      return static_cast<unsigned long long>(t.tv_sec) * 1000000000ull + t.tv_nsec;
    };
    auto before = now();
    auto ns = utils::GetNanosecsSinceEpoch();
    auto after = now();
    PCHECK(c, after < before || (before <= ns && ns <= after), "the time is ", ns, " between ", before, " and ", after);
  }
  g_plugins = nullptr;
}
OAC_FACET("C32", "libraries", Libraries, Opts(2000, 20000, "at least two libraries loaded and one unloaded"));

#else
// ------------------------------------------------------- questions that end with their instruction
struct Timed : IUserInputFuture
{
  Timed(uint64_t at, UserInputReply r, std::atomic<int>& alive) : at(at), reply(std::move(r)), alive(alive) { ++alive; }
  ~Timed() override { --alive; }
  bool IsValid() const override { return true; }
  sup::dto::uint64 GetId() const override { return 1; }
  bool IsReady() const override { return conc::NowMs() >= at; }
  bool WaitFor(double seconds) const override
  {
    const uint64_t now = conc::NowMs();
    if (now >= at) return true;
    const auto ms = std::min<uint64_t>(static_cast<uint64_t>(seconds * 1000), at - now);
    conc::SleepMs(ms);
    return conc::NowMs() >= at;
  }
  UserInputReply GetValue() override { return reply; }
  uint64_t at;
  UserInputReply reply;
  std::atomic<int>& alive;
};

void Interrupted(pbt::Case& c)
{
  const uint64_t answer = c.g.Draw(1000), halt = c.g.Draw(1000), never = c.g.Draw(4);
  const bool halts = never != 0, answers = never != 1;
  const bool ok = !c.g.Coin(1, 5);
  const int option = static_cast<int>(c.g.Draw(4));
  const uint64_t questions = 1 + c.g.Draw(2);
  PLOG(c) << questions << " questions, answered " << (answers ? pbt::Str("after ", answer, " ms") : "never") << ", halted " << (halts ? pbt::Str("after ", halt, " ms") : "never") << "\n";
  if (halts && answers) c.NonTrivial();
  bool halted_seen = false;
  conc::Run(c, [&] {
    std::atomic<int> alive{0};
    auto instr = GlobalInstructionRegistry().Create("Succeed");
    HookUI ui;
    const uint64_t start = conc::NowMs();
    uint64_t asked = start;
    ui.on_request = [&](const UserInputRequest&) {
      return std::make_unique<Timed>(answers ? asked + answer : UINT64_MAX, CreateUserChoiceReply(ok, option), alive);
    };
    std::thread other;
    if (halts)
      other = std::thread([&] {
        conc::SleepMs(halt);
        instr->Halt();
      });
    for (uint64_t q = 0; q < questions; ++q)
    {
      asked = conc::NowMs();
      if (!answers && !halts) break;
      auto r = GetInterruptableUserChoice(ui, *instr, {"a", "b", "c", "d"}, CreateUserChoiceMetadata());
      const uint64_t end = conc::NowMs();
      if (alive != 0) conc::Die("a question is over but its future still exists");
      // The reply, if there is one, or the end of the instruction.
      const bool before_halt = answers && (!halts || asked + answer < start + halt);
      const bool after_halt = halts && (!answers || start + halt < asked + answer);
      if (before_halt && (r.first != ok || r.second != (ok ? option : -1)))
      {
        // The halt may come between the reply and its evaluation only at the same time.
        if (!halts || end < start + halt) conc::Die(pbt::Str("the answer ", option, ok ? "" : " (refused)", " was given but ", r.second, " arrived"));
      }
      if (after_halt && asked + answer > start + halt + 150 && r.first) conc::Die("an answer arrived although the instruction was halted before");
      if (!r.first && r.second != -1) conc::Die(pbt::Str("no answer, but option ", r.second));
      uint64_t latest = UINT64_MAX;
      if (answers) latest = asked + answer;
      if (halts) latest = std::min(latest, std::max(start + halt, asked) + 150);
      if (end > latest + 5) conc::Die(pbt::Str("the question is over after ", end - asked, " ms instead of ", latest - asked, " ms"));
      if (after_halt) halted_seen = true;
    }
    if (other.joinable()) other.join();
  });
  if (halted_seen) c.Label("halted before the answer");
}
CONC_FACET("C32", "interrupted", Interrupted, conc::Opts(20000, 400000, "both an answer and a halt"));
#endif
}  // namespace
