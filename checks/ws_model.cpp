// C16: workspace variables against a reference store; C17: setup, teardown and reset of workspaces.
#include "values.h"

#include <sup/oac-tree/setup_teardown_actions.h>

#include <algorithm>
#include <cstdio>
#include <fstream>
#include <map>
#include <set>
#include <sys/stat.h>
#include <unistd.h>

using namespace values;

namespace
{
// ------------------------------------------------------------------------------- scratch folder
struct Scratch
{
  std::string path;
  std::set<std::string> files;
  Scratch()
  {
    char t[] = "/tmp/verif-ws-XXXXXX";
    path = mkdtemp(t);
    mkdir((path + "/sub").c_str(), 0700);
  }
  ~Scratch()
  {
    for (auto& f : files) unlink(f.c_str());
    rmdir((path + "/sub").c_str());
    rmdir(path.c_str());
  }
};

std::string ReadFile(const std::string& name)
{
  std::ifstream f(name);
  return {std::istreambuf_iterator<char>(f), {}};
}

void WriteFile(const std::string& name, const std::string& text)
{
  std::ofstream f(name, std::ios::trunc | std::ios::binary);
  f << text;
}

// ------------------------------------------------------------------------------- reference store
struct Var
{
  std::string name;
  bool file = false;
  bool dynamic = false;
  bool pretty = false;  // how a file is written
  bool bad = false;  // cannot be set up
  AnyValue initial;  // Local
  std::string filename;
  bool up = false;
  AnyValue value;  // Local
};

struct Note
{
  std::string name;
  std::string value;
  bool connected;
  bool operator==(const Note& o) const { return name == o.name && value == o.value && connected == o.connected; }
  bool operator<(const Note& o) const { return std::tie(name, value, connected) < std::tie(o.name, o.value, o.connected); }
};
std::string Text(const std::vector<Note>& v)
{
  std::string r;
  for (auto& n : v) r += "\n    " + n.name + " = " + n.value + (n.connected ? "" : " (not connected)");
  return r.empty() ? " nothing" : r;
}

struct Store
{
  std::map<std::string, Var> vars;
  std::vector<std::string> order;
  std::map<std::string, AnyValue> disk;  // readable files
  bool up = false;
  std::vector<Note> notes;

  bool Read(const Var& v, AnyValue& out) const
  {
    if (!v.up) return false;
    if (v.file)
    {
      auto it = disk.find(v.filename);
      if (it == disk.end()) return false;
      out = it->second;
      return true;
    }
    if (dto::IsEmptyValue(v.value)) return false;
    out = v.value;
    return true;
  }
  void SetUp(Var& v)
  {
    v.up = true;
    v.value = v.initial;
    if (!v.file)
      notes.push_back({v.name, Show(v.value), true});
    else if (disk.count(v.filename))
      notes.push_back({v.name, Show(disk[v.filename]), true});
    else
      notes.push_back({v.name, Show({}), false});
  }
  bool Write(Var& v, const AnyValue& value)
  {
    if (v.file)
    {
      disk[v.filename] = value;
    }
    else if (v.dynamic)
      v.value = value;
    else if (!dto::TryAssignIfEmptyOrConvert(v.value, value))
      return false;
    notes.push_back({v.name, Show(v.file ? value : v.value), true});
    return true;
  }
  bool Set(const std::string& name, const Path& p, const AnyValue& value)
  {
    auto it = vars.find(name);
    if (it == vars.end() || !it->second.up) return false;
    if (p.empty()) return Write(it->second, value);
    AnyValue copy;
    if (!Read(it->second, copy)) return false;
    auto field = Find(copy, p);
    if (!field || !dto::TryAssign(*field, value)) return false;
    return Write(it->second, copy);
  }
  bool Get(const std::string& name, const Path& p, AnyValue& out) const
  {
    auto it = vars.find(name);
    if (it == vars.end() || !it->second.up) return false;
    AnyValue copy;
    if (!Read(it->second, copy)) return false;
    auto field = Find(static_cast<const AnyValue&>(copy), p);
    if (!field) return false;
    return dto::TryAssignIfEmptyOrConvert(out, *field);
  }
};

const std::vector<std::string> g_names = {"a", "b", "ab", "A", "a b", "", "var", "\xc3\xa9", "a-b", "$a", "@b"};

struct Listener
{
  std::unique_ptr<ScopeGuard> guard;
  bool generic;
  std::string name;
  std::vector<Note> got;
  int key = 0;
};

void StoreHistory(pbt::Case& c)
{
  auto& g = c.g;
  Scratch scratch;
  std::vector<std::string> paths;  // that variables may use, as attribute and in full
  std::vector<std::string> full;
  for (auto p : {"f.json", "sub/g.json", "missing/h.json"})
  {
    paths.push_back(p);
    full.push_back(scratch.path + "/" + p);
  }
  paths.push_back(scratch.path + "/sub/abs.json");
  full.push_back(paths.back());
  for (auto& f : full) scratch.files.insert(f);

  auto ws = std::make_unique<Workspace>(scratch.path + "/procedure.xml");
  Store model;
  std::vector<std::unique_ptr<Listener>> listeners;
  int moves = 0, sets = 0, fields = 0, failed = 0, resets = 0, told = 0;

  // A type known to the workspace.
  AnyType known = RandType(g, 2);
  const bool has_known = known.GetTypeName().size() && g.Coin();
  if (has_known)
  {
    PCHECK(c, ws->RegisterType(known), "a type could not be registered");
    PCHECK(c, ws->RegisterType(known), "a type could not be registered again");
    AnyType other = dto::EmptyStructType(known.GetTypeName());
    other.AddMember("q", dto::StringType);
    PCHECK(c, !ws->RegisterType(other), "two types have the same name");
    PCHECK(c, ws->GetTypeRegistry().HasType(known.GetTypeName()) && ws->GetTypeRegistry().GetType(known.GetTypeName()) == known, "the registered type changed");
  }

  auto flush = [&](bool ordered, const std::string& what) {
    auto sort = [&](std::vector<Note> v) {
      if (!ordered) std::sort(v.begin(), v.end());
      return v;
    };
    for (auto& l : listeners)
    {
      std::vector<Note> want;
      for (auto& n : model.notes)
        if (l->generic || n.name == l->name) want.push_back({l->generic ? n.name : "", n.value, n.connected});
      if (sort(want) != sort(l->got))
        c.Fail(what + ": a " + (l->generic ? "listener to all variables" : "listener to [" + l->name + "]") + " heard" + Text(l->got) + "\n  instead of" + Text(want));
      if (!l->guard && !l->got.empty()) ++told;
      told += static_cast<int>(l->got.size());
      l->got.clear();
    }
    model.notes.clear();
  };
  auto name_of = [&] { return model.order.empty() || g.Draw(12) == 11 ? g.Pick(g_names) : g.Pick(model.order); };
  auto compare = [&] {
    PCHECK(c, ws->VariableNames() == model.order, "the names of the variables are wrong");
    PCHECK(c, ws->IsSuccessfullySetup() == model.up, "the workspace says its setup is ", !model.up);
    auto all = ws->GetVariables();
    PCHECK(c, all.size() == model.order.size(), all.size(), " variables");
    for (size_t i = 0; i < all.size(); ++i)
    {
      const auto& v = model.vars.at(model.order[i]);
      PCHECK(c, all[i] == ws->GetVariable(v.name) && all[i] != nullptr, "variable [", v.name, "] is not found");
      PCHECK(c, ws->HasVariable(v.name), "variable [", v.name, "] does not exist");
      AnyValue want, got;
      const bool ok = model.Get(v.name, {}, want);
      PCHECK(c, ws->GetValue(v.name, got) == ok, "reading [", v.name, "] ", ok ? "fails" : "succeeds");
      if (ok && (want != got || want.GetType() != got.GetType())) c.Fail("[" + v.name + "] is " + Show(got) + " instead of " + Show(want));
      const bool available = v.up && (!v.file || model.disk.count(v.filename));
      if (all[i]->IsAvailable() != available) c.Fail("[" + v.name + "] is " + (available ? "not " : "") + "available");
    }
  };

  do
  {
    ++moves;
    const auto op = g.Draw(16);
    if (op <= 1 || (model.vars.empty() && op < 10))
    {
      Var v;
      v.name = g.Pick(g_names);
      v.file = g.Draw(4) == 3;
      std::unique_ptr<Variable> var;
      if (v.file)
      {
        const auto n = g.Draw(paths.size());
        v.filename = full[n];
        var = GlobalVariableRegistry().Create("File");
        var->AddAttribute("file", paths[n]);
        if (g.Coin())
        {
          v.pretty = g.Coin();
          var->AddAttribute("pretty", v.pretty ? "true" : "false");
        }
        // two variables may use the same file
        if (n == 2) v.filename = full[2];
      }
      else
      {
        v.dynamic = g.Draw(4) == 3;
        const bool typed = g.Draw(6) != 5;
        var = GlobalVariableRegistry().Create("Local");
        if (v.dynamic) var->AddAttribute("dynamicType", "true");
        else if (g.Draw(4) == 3) var->AddAttribute("dynamicType", "false");
        if (typed)
        {
          const bool by_name = has_known && g.Draw(3) == 2;
          auto t = by_name ? known : RandType(g, 2);
          var->AddAttribute("type", by_name ? "{\"type\":\"" + known.GetTypeName() + "\"}" : dto::AnyTypeToJSONString(t));
          v.initial = AnyValue{t};
          if (g.Coin())
          {
            v.initial = RandValue(g, t);
            var->AddAttribute("value", Json(v.initial));
          }
        }
      }
      var->SetName(v.name);
      PLOG(c) << "add " << (v.file ? "file " + v.filename : v.dynamic ? "dynamic " : "local ") << " [" << v.name << "] " << Show(v.initial) << "\n";
      const bool exists = model.vars.count(v.name);
      bool threw = false;
      try
      {
        PCHECK(c, ws->AddVariable(v.name, std::move(var)), "adding [", v.name, "] failed");
      }
      catch (const InvalidOperationException&)
      {
        threw = true;
      }
      PCHECK(c, threw == exists, "adding [", v.name, "] ", threw ? "failed" : "succeeded");
      if (!exists)
      {
        model.order.push_back(v.name);
        model.vars[v.name] = v;
      }
    }
    else if (op == 2)
    {
      PLOG(c) << "setup\n";
      ws->Setup();
      if (!model.up)
        for (auto& [n, v] : model.vars) model.SetUp(v);
      model.up = true;
      flush(false, "setup");
    }
    else if (op == 3)
    {
      if (g.Coin()) continue;
      PLOG(c) << "teardown\n";
      ws->Teardown();
      model.up = false;
      for (auto& [n, v] : model.vars) v.up = false;
    }
    else if (op == 4)
    {
      const auto name = name_of();
      PLOG(c) << "reset [" << name << "]\n";
      auto it = model.vars.find(name);
      PCHECK(c, ws->ResetVariable(name) == (it != model.vars.end()), "resetting [", name, "]");
      if (it != model.vars.end())
      {
        model.SetUp(it->second);
        ++resets;
      }
    }
    else if (op <= 9)
    {
      const auto name = name_of();
      AnyValue now;
      auto it = model.vars.find(name);
      if (it != model.vars.end()) model.Read(it->second, now);
      const auto path = RandPath(g, now);
      auto at = Find(static_cast<const AnyValue&>(now), path);
      AnyValue value;
      const auto how = g.Draw(8);
      if (how <= 3 && at) value = RandValue(g, at->GetType());
      else if (how <= 5) value = RandScalar(g, Scalars()[g.Draw(Scalars().size())]);
      else if (how == 6) value = RandValue(g, RandType(g, 2));
      PLOG(c) << "set [" << FieldName(name, path) << "] to " << Show(value) << "\n";
      // A file holds any value that is not empty.
      if (dto::IsEmptyValue(value) && it != model.vars.end() && it->second.file && path.empty()) continue;
      if (it != model.vars.end() && it->second.file && it->second.up && path.empty() && it->second.filename == full[2])
      {
        PCHECK(c, !ws->SetValue(name, value), "a file in a missing folder was written");
        ++failed;
      }
      else
      {
        const bool want = model.Set(name, path, value);
        PCHECK(c, ws->SetValue(FieldName(name, path), value) == want, "setting [", FieldName(name, path), "] ", want ? "failed" : "succeeded");
        want ? ++sets : ++failed;
        if (want && it->second.file)
        {
          const auto text = dto::AnyValueToJSONString(model.disk.at(it->second.filename), it->second.pretty);
          if (ReadFile(it->second.filename) != text) c.Fail("file " + it->second.filename + " holds [" + ReadFile(it->second.filename) + "] instead of [" + text + "]");
        }
        if (want && !path.empty()) ++fields;
      }
    }
    else if (op <= 11)
    {
      const auto name = name_of();
      AnyValue now;
      auto it = model.vars.find(name);
      if (it != model.vars.end()) model.Read(it->second, now);
      const auto path = RandPath(g, now);
      AnyValue out;
      if (g.Coin()) out = RandScalar(g, Scalars()[g.Draw(Scalars().size())]);
      AnyValue want = out;
      PLOG(c) << "get [" << FieldName(name, path) << "] into " << Show(out) << "\n";
      const bool ok = model.Get(name, path, want);
      PCHECK(c, ws->GetValue(FieldName(name, path), out) == ok, "reading [", FieldName(name, path), "] ", ok ? "failed" : "succeeded");
      if (ok && (out != want || out.GetType() != want.GetType())) c.Fail("[" + FieldName(name, path) + "] is " + Show(out) + " instead of " + Show(want));
    }
    else if (op == 12)
    {
      const auto n = g.Draw(full.size());
      if (n == 2) continue;
      const auto what = g.Draw(4);
      PLOG(c) << "file " << full[n] << " from outside: " << what << "\n";
      if (what == 0)
      {
        unlink(full[n].c_str());
        model.disk.erase(full[n]);
      }
      else if (what == 1)
      {
        static const char* const broken[] = {"", "{", "[{\"encoding\":\"sup-dto/v1.0/JSON\"},", "not json", "[1,2"};
        WriteFile(full[n], broken[g.Draw(5)]);
        model.disk.erase(full[n]);
      }
      else
      {
        auto v = RandValue(g, RandType(g, 2));
        dto::AnyValueToJSONFile(v, full[n], g.Coin());
        model.disk[full[n]] = v;
      }
    }
    else if (op <= 14)
    {
      if (g.Coin(2, 3) || listeners.empty())
      {
        auto l = std::make_unique<Listener>();
        l->generic = g.Coin();
        l->name = name_of();
        PLOG(c) << "listen to " << (l->generic ? "all" : "[" + l->name + "]") << "\n";
        l->guard = std::make_unique<ScopeGuard>(ws->GetCallbackGuard(&l->key));
        auto* raw = l.get();
        if (l->generic)
        {
          PCHECK(c, ws->RegisterGenericCallback([raw](const std::string& n, const AnyValue& v, bool ok) { raw->got.push_back({n, Show(v), ok}); }, &l->key), "registering failed");
          PCHECK(c, !ws->RegisterGenericCallback(Workspace::GenericCallback{}, &l->key), "registering nothing succeeded");
        }
        else
        {
          PCHECK(c, ws->RegisterCallback(l->name, [raw](const AnyValue& v, bool ok) { raw->got.push_back({"", Show(v), ok}); }, &l->key), "registering failed");
          PCHECK(c, !ws->RegisterCallback(l->name, Workspace::VariableCallback{}, &l->key), "registering nothing succeeded");
        }
        listeners.push_back(std::move(l));
      }
      else
      {
        const auto n = g.Draw(listeners.size());
        PLOG(c) << "listener " << n << " leaves\n";
        listeners[n]->guard.reset();
        listeners.erase(listeners.begin() + n);
      }
    }
    else
      compare();
    flush(true, "after the operation");
  } while (g.More(30));
  compare();
  flush(true, "at the end");
  ws->Teardown();
  if (sets >= 3 && told >= 2) c.NonTrivial();
  if (fields) c.Label("fields written");
  if (failed) c.Label("writes refused");
  if (resets) c.Label("variables reset");
}
OAC_FACET("C16", "store", StoreHistory, Opts(30000, 1500000, "at least three values written and two updates heard", 20));

// ------------------------------------------------------------------------------------- lifecycle
struct World
{
  std::vector<std::string> log;
  std::map<std::string, int> up;
  std::string failing;  // identifier whose common setup fails
};
World* g_world = nullptr;

class TestVariable : public Variable
{
public:
  TestVariable() : Variable("VTest") {}
  std::string id;
  bool with_setup = false, with_teardown = false, own_reset = false;
  bool fail = false;
  bool available = true;
  dto::int32 start = 0;

protected:
  dto::int32 m_value = 0;

private:
  bool GetValueImpl(AnyValue& v) const override
  {
    g_world->log.push_back("get " + GetName());
    return dto::TryAssign(v, AnyValue{m_value});
  }
  bool SetValueImpl(const AnyValue& v) override
  {
    g_world->log.push_back("set " + GetName());
    if (!v.As(m_value)) return false;
    Notify(AnyValue{m_value}, available);
    return true;
  }
  bool IsAvailableImpl() const override
  {
    g_world->log.push_back("ask " + GetName());
    return available;
  }
  SetupTeardownActions SetupImpl(const Workspace&) override
  {
    if (fail) throw VariableSetupException("does not work");
    g_world->log.push_back("setup " + GetName());
    m_value = start;
    SetupTeardownActions r;
    r.m_identifier = id;
    if (with_setup) r.m_setup = [i = id] {
      if (!i.empty() && g_world->failing == i) throw std::runtime_error("common setup");
      g_world->log.push_back("global setup " + i);
    };
    if (with_teardown) r.m_teardown = [i = id] { g_world->log.push_back("global teardown " + i); };
    return r;
  }
  void TeardownImpl() override { g_world->log.push_back("teardown " + GetName()); }
};

class ResettingVariable : public TestVariable
{
  void ResetImpl(const Workspace&) override
  {
    g_world->log.push_back("reset " + GetName());
    m_value = start;
  }
};

void Lifecycle(pbt::Case& c)
{
  auto& g = c.g;
  World world;
  g_world = &world;
  const int n = g.Draw(8) == 7 ? 0 : 1 + static_cast<int>(g.Draw(5));
  auto ws = std::make_unique<Workspace>();
  std::vector<TestVariable*> vars;
  std::vector<std::string> names;
  std::vector<bool> up;
  std::vector<int> value;
  auto add = [&] {
    const bool own_reset = g.Draw(3) == 2;
    std::unique_ptr<TestVariable> v(own_reset ? new ResettingVariable : new TestVariable);
    static const char* const ids[] = {"", "x", "y", "xy"};
    v->id = ids[g.Draw(4)];
    v->with_setup = g.Draw(4) != 3;
    v->with_teardown = g.Draw(4) != 3;
    v->own_reset = own_reset;
    v->fail = g.Draw(12) == 11;
    v->available = g.Coin();
    v->start = static_cast<int>(g.Draw(5));
    const std::string name = pbt::Str(static_cast<char>('a' + g.Draw(20)), vars.size());
    v->SetName(name);
    PLOG(c) << "variable " << name << " id=[" << v->id << "]" << (v->with_setup ? " setup" : "") << (v->with_teardown ? " teardown" : "") << (v->own_reset ? " own reset" : "")
            << (v->fail ? " fails" : "") << "\n";
    vars.push_back(v.get());
    names.push_back(name);
    up.push_back(false);
    value.push_back(0);
    ws->AddVariable(name, std::move(v));
  };
  for (int i = 0; i < n; ++i) add();
  bool done = false;
  std::set<std::string> pending;  // teardown actions to be called
  std::set<std::string> maybe;    // ... that may be called: the common setup was not done, since another one failed
  int cycles = 0, shared = 0, failures = 0, common_failures = 0;
  auto count = [&](const std::string& s) { return std::count(world.log.begin(), world.log.end(), s); };
  auto show = [&] {
    std::string r;
    for (auto& s : world.log) r += "\n    " + s;
    return r;
  };
  auto first = [&](const std::string& prefix) {
    size_t i = 0;
    while (i < world.log.size() && world.log[i].compare(0, prefix.size(), prefix) != 0) ++i;
    return i;
  };
  auto last = [&](const std::string& prefix) {
    int r = -1;
    for (size_t i = 0; i < world.log.size(); ++i)
      if (world.log[i].compare(0, prefix.size(), prefix) == 0) r = static_cast<int>(i);
    return r;
  };
  auto expect_teardown_actions = [&](const char* what) {
    for (auto& id : {"", "x", "y", "xy"})
      if (count(std::string("global teardown ") + id) != static_cast<int>(pending.count(id))
          && !(count(std::string("global teardown ") + id) == 1 && maybe.count(id)))
        c.Fail(pbt::Str(what, ": the common teardown of [", id, "] was called ", count(std::string("global teardown ") + id), " times", show()));
    pending.clear();
    maybe.clear();
  };
  do
  {
    world.log.clear();
    switch (g.Draw(8))
    {
    case 0:
    case 1:
    {
      PLOG(c) << "setup\n";
      bool failing = false;
      for (auto v : vars) failing = failing || v->fail;
      static const char* const all_ids[] = {"x", "y", "xy"};
      world.failing = g.Draw(10) == 9 ? all_ids[g.Draw(3)] : "";
      bool common_failing = false;
      for (auto v : vars) common_failing = common_failing || (v->with_setup && !v->id.empty() && v->id == world.failing);
      bool threw = false, common_threw = false;
      try
      {
        ws->Setup();
      }
      catch (const VariableSetupException&)
      {
        threw = true;
      }
      catch (const std::runtime_error&)
      {
        common_threw = true;
      }
      if (done)
      {
        PCHECK(c, !threw && !common_threw && world.log.empty(), "a second setup did something:", show());
        break;
      }
      PCHECK(c, common_threw == (common_failing && !failing), "a common setup ", common_threw ? "failed" : "that fails was not noticed");
      if (common_threw)
      {
        // Every variable is set up by now, and so are some of the common things, which need their teardown.
        ++common_failures;
        PLOG(c) << "common setup of " << world.failing << " failed\n";
        PCHECK(c, !ws->IsSuccessfullySetup(), "set up although a common setup failed");
        for (size_t i = 0; i < vars.size(); ++i)
        {
          if (count("setup " + names[i]) != 1) c.Fail("variable " + names[i] + " was not set up once:" + show());
          up[i] = true;
          value[i] = vars[i]->start;
          auto& id = vars[i]->id;
          if (id.empty()) continue;
          const auto times = count("global setup " + id);
          PCHECK(c, times <= 1, "the common setup of [", id, "] was called ", times, " times", show());
          bool sets_up = false, tears_down = false;
          for (auto v : vars)
            if (v->id == id)
            {
              sets_up = sets_up || v->with_setup;
              tears_down = tears_down || v->with_teardown;
            }
          if (!tears_down) continue;
          if (times == 1 || !sets_up) pending.insert(id);
          else maybe.insert(id);
        }
        break;
      }
      PCHECK(c, threw == failing, "setup ", threw ? "failed" : "succeeded");
      PCHECK(c, ws->IsSuccessfullySetup() == !failing, "wrong setup state");
      if (failing)
      {
        ++failures;
        if (first("global setup") != world.log.size()) c.Fail("a common setup was done though a variable failed:" + show());
        // repair, and start again from a defined state
        for (auto v : vars) v->fail = false;
        world.log.clear();
        ws->Teardown();
        for (size_t i = 0; i < vars.size(); ++i) up[i] = false;
        done = false;
        expect_teardown_actions("teardown after a failed setup");
        break;
      }
      std::set<std::string> ids;
      for (size_t i = 0; i < vars.size(); ++i)
      {
        if (count("setup " + names[i]) != 1) c.Fail("variable " + names[i] + " was not set up once:" + show());
        up[i] = true;
        value[i] = vars[i]->start;
        if (vars[i]->id.empty()) continue;
        if (vars[i]->with_setup && !ids.insert(vars[i]->id).second) ++shared;
        if (vars[i]->with_teardown) pending.insert(vars[i]->id);
      }
      for (auto& id : {"", "x", "y", "xy"})
        if (count(std::string("global setup ") + id) != static_cast<int>(ids.count(id)))
          c.Fail(pbt::Str("the common setup of [", id, "] was called ", count(std::string("global setup ") + id), " times", show()));
      if (static_cast<int>(first("global setup")) < last("setup ")) c.Fail("a common setup was done before all variables were set up:" + show());
      done = true;
      ++cycles;
      break;
    }
    case 2:
    {
      PLOG(c) << "teardown\n";
      ws->Teardown();
      for (size_t i = 0; i < vars.size(); ++i)
      {
        if (up[i] && count("teardown " + names[i]) != 1) c.Fail("variable " + names[i] + " was not torn down once:" + show());
        up[i] = false;
      }
      if (static_cast<int>(first("teardown ")) < last("global teardown")) c.Fail("a variable was torn down before the common teardown:" + show());
      expect_teardown_actions("teardown");
      done = false;
      PCHECK(c, !ws->IsSuccessfullySetup(), "still set up after the teardown");
      break;
    }
    case 3:
    {
      if (vars.empty()) break;
      const auto i = g.Draw(vars.size());
      if (vars[i]->fail) break;
      PLOG(c) << "reset " << names[i] << "\n";
      PCHECK(c, ws->ResetVariable(names[i]), "reset failed");
      PCHECK(c, !ws->ResetVariable("nowhere"), "an unknown variable was reset");
      const std::vector<std::string> want = vars[i]->own_reset ? std::vector<std::string>{"reset " + names[i]}
                                                               : std::vector<std::string>{"teardown " + names[i], "setup " + names[i]};
      if (world.log != want) c.Fail("resetting " + names[i] + " did:" + show());
      if (!vars[i]->own_reset) up[i] = true;
      value[i] = vars[i]->start;
      break;
    }
    case 4:
    case 5:
    {
      if (vars.empty()) break;
      const auto i = g.Draw(vars.size());
      const int x = static_cast<int>(g.Draw(50)) + 10;
      PLOG(c) << "set " << names[i] << " " << x << "\n";
      PCHECK(c, ws->SetValue(names[i], AnyValue{x}) == up[i], "writing ", names[i]);
      if (up[i]) value[i] = x;
      if (world.log != (up[i] ? std::vector<std::string>{"set " + names[i]} : std::vector<std::string>{})) c.Fail("writing did:" + show());
      break;
    }
    case 6:
    {
      if (vars.empty()) break;
      const auto i = g.Draw(vars.size());
      AnyValue v;
      PCHECK(c, ws->GetValue(names[i], v) == up[i], "reading ", names[i]);
      if (up[i]) PCHECK(c, v == AnyValue{value[i]}, names[i], " is ", Json(v), " instead of ", value[i]);
      PCHECK(c, ws->GetVariable(names[i])->IsAvailable() == (up[i] && vars[i]->available), "availability of ", names[i]);
      if (!up[i] && !world.log.empty()) c.Fail("a variable that is not set up was accessed:" + show());
      break;
    }
    default:
      if (vars.size() < 8) add();
    }
  } while (g.More(12));
  world.log.clear();
  ws.reset();
  expect_teardown_actions("destruction");
  g_world = nullptr;
  if (cycles >= 2 || (cycles && shared)) c.NonTrivial();
  if (shared) c.Label("shared setup");
  if (failures) c.Label("failed setup");
  if (common_failures) c.Label("failed common setup");
}
OAC_FACET("C17", "lifecycle", Lifecycle, Opts(60000, 3000000, "set up twice, or with a common setup shared by several variables", 12));

// Local variables that cannot be set up, and what happens to the workspace then.
void BadLocals(pbt::Case& c)
{
  auto& g = c.g;
  Workspace ws;
  auto var = GlobalVariableRegistry().Create("Local");
  var->SetName("v");
  const auto t = RandType(g, 2);
  auto type = dto::AnyTypeToJSONString(t);
  auto value = Json(RandValue(g, t));
  const auto how = g.Draw(8);
  bool bad = true;
  switch (how)
  {
  case 0: var->AddAttribute("type", type); var->AddAttribute("value", value); bad = false; break;
  case 1: var->AddAttribute("value", value); break;  // a value needs a type
  case 2: var->AddAttribute("type", type.substr(0, type.size() - 1 - g.Draw(type.size() - 1))); break;
  case 3:
    if (value.size() < 2 || (value[0] != '{' && value[0] != '[' && value[0] != '"')) value = "[" + value;
    else value.pop_back();
    var->AddAttribute("type", type);
    var->AddAttribute("value", value);
    break;
  case 4:  // a file variable needs a file
    var = GlobalVariableRegistry().Create("File");
    var->AddAttribute("pretty", "true");
    break;
  case 5:  // no value at all is not the default value
    var->AddAttribute("type", type);
    var->AddAttribute("value", g.Coin() ? "" : std::string(1 + g.Draw(3), " \t\n"[g.Draw(3)]));
    break;
  case 6:  // a value followed by something else
    var->AddAttribute("type", type);
    var->AddAttribute("value", value + g.Pick(std::vector<std::string>{" x", ",", " 1", "}", "]", " \"\""}));
    break;
  default: var->AddAttribute("type", "{\"type\":\"nobody_knows\"}");
  }
  for (auto& [k, v] : var->GetStringAttributes()) PLOG(c) << k << "=[" << v << "]\n";
  bool threw = false;
  try
  {
    const auto added = ws.AddVariable("v", std::move(var));
    PCHECK(c, added, "not added");
    ws.Setup();
  }
  catch (const VariableSetupException&)
  {
    threw = true;
  }
  PCHECK(c, threw == bad, threw ? "the setup failed" : "the setup succeeded");
  PCHECK(c, ws.IsSuccessfullySetup() == !bad, "wrong setup state");
  AnyValue v;
  PCHECK(c, ws.GetValue("v", v) == !bad, "reading");
  PCHECK(c, ws.SetValue("v", AnyValue{1}) == false || !bad, "writing");
  if (bad) c.NonTrivial();
}
OAC_FACET("C17", "unusable", BadLocals, Opts(12000, 300000, "the variable cannot be set up", 6));
}  // namespace
