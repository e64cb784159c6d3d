// C23: attributes and their constraints.
#include "values.h"

#include <sup/oac-tree/attribute_definition.h>
#include <sup/oac-tree/attribute_handler.h>
#include <sup/oac-tree/attribute_utils.h>
#include <sup/oac-tree/concrete_constraints.h>
#include <sup/oac-tree/constraint.h>

#include <algorithm>
#include <map>
#include <memory>
#include <set>

using namespace values;

namespace
{
const std::vector<std::string> g_names = {"a", "b", "ab", "A", "timeout", "x.y"};

// ------------------------------------------------------------------- parsing of literal attributes
struct Literal
{
  std::string text;
  bool number = false;   // a whole number
  bool real = false;     // a number
  long long value = 0;
  double real_value = 0;
};

Literal RandLiteral(pbt::Gen& g)
{
  static const char* const words[] = {"", "hello", "true", "True", "yes", "YES", "oN", "off", "false", "no", "t", "yes ", "1x", "on,off", "{", "[1]", "$v", "@v", "@", "@s.t"};
  Literal l;
  switch (g.Draw(4))
  {
  case 0:
    l.number = l.real = true;
    l.value = static_cast<long long>(g.Draw(128));
    l.text = std::to_string(l.value);
    l.real_value = static_cast<double>(l.value);
    break;
  case 1:
    l.real = true;
    l.real_value = static_cast<double>(g.Range(-9, 9)) + 0.5;
    l.text = pbt::Str(l.real_value);
    break;
  default: l.text = words[g.Draw(20)];
  }
  return l;
}

bool IsTrue(std::string s)
{
  for (auto& ch : s) ch = static_cast<char>(std::tolower(static_cast<unsigned char>(ch)));
  return s == "true" || s == "yes" || s == "on";
}

enum class Fit
{
  kYes,
  kNo,
  kEither  // not decided here (a matter of the JSON parser)
};

// Can the text be read as the type, and what is its value?
Fit Parses(const AnyType& t, const Literal& l, AnyValue& v)
{
  if (t == dto::StringType)
  {
    v = AnyValue{l.text};
    return Fit::kYes;
  }
  if (t == dto::BooleanType)
  {
    v = AnyValue{IsTrue(l.text)};
    return Fit::kYes;
  }
  if (!dto::IsScalarType(t)) return Fit::kNo;
  if (t == dto::Float64Type || t == dto::Float32Type)
  {
    if (!l.real) return l.text == "true" || l.text == "false" ? Fit::kEither : Fit::kNo;
    v = t == dto::Float64Type ? AnyValue{l.real_value} : AnyValue{static_cast<float>(l.real_value)};
    return Fit::kYes;
  }
  if (l.number)
  {
    v = AnyValue{t};
    dto::TryConvert(v, AnyValue{static_cast<dto::int64>(l.value)});
    return Fit::kYes;
  }
  if (l.real || l.text == "true" || l.text == "false") return Fit::kEither;
  return Fit::kNo;
}

// -------------------------------------------------------------------------------- constraints
struct Rule
{
  char kind = 'E';  // E xists, F ixedType, X or, O r, A nd, N ot, 0 empty
  std::string name;
  AnyType type;
  std::vector<Rule> kids;
};

Rule RandRule(pbt::Gen& g, int depth)
{
  Rule r;
  r.kind = depth <= 0 ? "EF"[g.Draw(2)] : "EFXOAN0"[g.Draw(g.Draw(4) == 3 ? 7 : 6)];
  if (r.kind == 'E' || r.kind == 'F') r.name = g.Pick(g_names);
  if (r.kind == 'F') r.type = g.Coin() ? dto::BooleanType : Scalars()[g.Draw(Scalars().size())];
  const int n = r.kind == 'N' ? 1 : r.kind == 'X' || r.kind == 'O' || r.kind == 'A' ? 2 : 0;
  for (int i = 0; i < n; ++i) r.kids.push_back(RandRule(g, depth - 1));
  return r;
}

Constraint Build(const Rule& r)
{
  switch (r.kind)
  {
  case 'E': return MakeConstraint<Exists>(r.name);
  case 'F': return MakeConstraint<FixedType>(r.name, r.type);
  case 'X': return MakeConstraint<Xor>(Build(r.kids[0]), Build(r.kids[1]));
  case 'O': return MakeConstraint<Or>(Build(r.kids[0]), Build(r.kids[1]));
  case 'A': return MakeConstraint<And>(Build(r.kids[0]), Build(r.kids[1]));
  case 'N': return MakeConstraint<Not>(Build(r.kids[0]));
  default: return Constraint{std::unique_ptr<IConstraint>{}};
  }
}

using Given = std::vector<std::pair<std::string, Literal>>;

StringAttributeList Strings(const Given& given)
{
  StringAttributeList r;
  for (auto& [n, l] : given) r.emplace_back(n, l.text);
  return r;
}

const Literal* Lookup(const Given& given, const std::string& name)
{
  for (auto& [n, l] : given)
    if (n == name) return &l;
  return nullptr;
}

// 1 holds, 0 does not hold, -1 undecided
int Holds(const Rule& r, const Given& given)
{
  auto neg = [](int v) { return v < 0 ? -1 : 1 - v; };
  switch (r.kind)
  {
  case 'E': return Lookup(given, r.name) ? 1 : 0;
  case 'F':
  {
    auto* l = Lookup(given, r.name);
    if (!l) return 0;
    AnyValue v;
    const auto f = Parses(r.type, *l, v);
    return f == Fit::kYes ? 1 : f == Fit::kNo ? 0 : -1;
  }
  case 'X':
  {
    const int a = Holds(r.kids[0], given), b = Holds(r.kids[1], given);
    return a < 0 || b < 0 ? -1 : a != b;
  }
  case 'O':
  {
    const int a = Holds(r.kids[0], given), b = Holds(r.kids[1], given);
    return a == 1 || b == 1 ? 1 : a < 0 || b < 0 ? -1 : 0;
  }
  case 'A':
  {
    const int a = Holds(r.kids[0], given), b = Holds(r.kids[1], given);
    return a == 0 || b == 0 ? 0 : a < 0 || b < 0 ? -1 : 1;
  }
  case 'N': return neg(Holds(r.kids[0], given));
  default: return 0;
  }
}

std::string Show(const Rule& r)
{
  std::string s(1, r.kind);
  if (!r.name.empty()) s += " " + r.name;
  if (r.kind == 'F') s += " " + r.type.GetTypeName();
  if (!r.kids.empty())
  {
    s += "(";
    for (auto& k : r.kids) s += Show(k) + ";";
    s += ")";
  }
  return s;
}

Given RandGiven(pbt::Gen& g, size_t max)
{
  Given r;
  for (size_t i = 0, n = g.Draw(max + 1); i < n; ++i)
  {
    const auto& name = g.Pick(g_names);
    if (!Lookup(r, name)) r.emplace_back(name, RandLiteral(g));
  }
  return r;
}

bool HasEmpty(const Rule& r)
{
  if (r.kind == '0') return true;
  for (auto& k : r.kids)
    if (HasEmpty(k)) return true;
  return false;
}

bool Same(const Rule& a, const Rule& b)
{
  return Show(a) == Show(b);
}

void Constraints(pbt::Case& c)
{
  auto& g = c.g;
  // a pool of constraints that are copied, moved and assigned
  std::vector<Constraint> pool;
  std::vector<Rule> rules;
  auto rule = RandRule(g, 3);
  pool.push_back(Build(rule));
  rules.push_back(rule);
  int checked = 0, holding = 0, not_holding = 0;
  do
  {
    const size_t k = g.Draw(pool.size()), m = g.Draw(pool.size());
    switch (g.Draw(8))
    {
    case 0:
      rule = RandRule(g, 3);
      PLOG(c) << pool.size() << " = " << Show(rule) << "\n";
      pool.push_back(Build(rule));
      rules.push_back(rule);
      break;
    case 1:
    {
      PLOG(c) << pool.size() << " copy of " << k << "\n";
      Constraint copy(pool[k]);
      pool.push_back(std::move(copy));
      rules.push_back(rules[k]);
      break;
    }
    case 2:
      PLOG(c) << m << " := " << k << "\n";
      pool[m] = pool[k];
      rules[m] = rules[k];
      break;
    case 3:
    {
      PLOG(c) << m << " := move of copy of " << k << "\n";
      Constraint copy(pool[k]);
      pool[m] = std::move(copy);
      rules[m] = rules[k];
      break;
    }
    case 4:
    {
      PLOG(c) << k << " moved away\n";
      Constraint away(std::move(pool[k]));
      PCHECK(c, (away.GetRepresentation() == kConstraintEmpty) == (rules[k].kind == '0'), "a moved constraint is ", away.GetRepresentation());
      rules[k] = Rule{};
      rules[k].kind = '0';
      break;
    }
    default:
    {
      const auto given = RandGiven(g, 6);
      for (size_t i = 0; i < pool.size(); ++i)
      {
        const int want = Holds(rules[i], given);
        const bool got = pool[i].Validate(Strings(given));
        if (want >= 0 && got != want)
        {
          std::string all;
          for (auto& [n, l] : given) all += " " + n + "=[" + l.text + "]";
          c.Fail(Show(rules[i]) + (got ? " holds" : " does not hold") + " for" + all);
        }
        ++checked;
        (got ? holding : not_holding)++;
        if ((pool[i].GetRepresentation() == kConstraintEmpty) != (rules[i].kind == '0')) c.Fail(Show(rules[i]) + " is represented by " + pool[i].GetRepresentation());
        for (size_t j = 0; j < i; ++j)
          if (Same(rules[i], rules[j]) && pool[i].GetRepresentation() != pool[j].GetRepresentation()) c.Fail("equal constraints have different representations");
      }
    }
    }
  } while (g.More(10));
  if (holding && not_holding && pool.size() > 1 && checked > 3) c.NonTrivial();
}

// ----------------------------------------------------------------------------------- the handler
struct Def
{
  std::string name;
  AnyType type;
  bool mandatory = false;
  AttributeCategory category = AttributeCategory::kLiteral;
};

std::vector<Def> RandDefs(pbt::Gen& g)
{
  std::vector<Def> r;
  for (size_t i = 0, n = g.Draw(5); i < n; ++i)
  {
    Def d;
    d.name = g.Pick(g_names);
    d.type = g.Draw(8) == 7 ? RandType(g, 1) : Scalars()[g.Draw(Scalars().size())];
    if (dto::IsEmptyType(d.type)) d.type = dto::StringType;
    d.mandatory = g.Draw(3) == 2;
    d.category = static_cast<AttributeCategory>(g.Draw(3));
    bool dup = false;
    for (auto& o : r) dup = dup || o.name == d.name;
    if (!dup) r.push_back(d);
  }
  return r;
}

const Def* FindDef(const std::vector<Def>& defs, const std::string& name)
{
  for (auto& d : defs)
    if (d.name == name) return &d;
  return nullptr;
}

std::string Show(const Def& d)
{
  static const char* const cat[] = {"literal", "variable", "both"};
  return d.name + ":" + dto::AnyTypeToJSONString(d.type) + (d.mandatory ? " mandatory " : " ") + cat[static_cast<int>(d.category)];
}

// Number of constraints that fail, or -1 when undecided.
int Failing(const std::vector<Def>& defs, const std::vector<Rule>& rules, const Given& given)
{
  int n = 0;
  for (auto& d : defs)
    if (d.mandatory && !Lookup(given, d.name)) ++n;
  for (auto& [name, l] : given)
  {
    auto* d = FindDef(defs, name);
    if (!d || d->category == AttributeCategory::kVariableName || (d->category == AttributeCategory::kBoth && !l.text.empty() && l.text[0] == '@')) continue;
    AnyValue v;
    const auto f = Parses(d->type, l, v);
    if (f == Fit::kEither) return -1;
    n += f == Fit::kNo;
  }
  for (auto& r : rules)
  {
    const int h = Holds(r, given);
    if (h < 0) return -1;
    n += h == 0;
  }
  return n;
}

void Handler(pbt::Case& c)
{
  auto& g = c.g;
  AttributeHandler h;
  std::vector<Def> defs;
  std::vector<Rule> rules;
  Given given;
  int valid = 0, invalid = 0;
  for (auto& d : RandDefs(g))
  {
    auto& def = h.AddAttributeDefinition(d.name, d.type);
    if (d.mandatory) g.Coin() ? def.SetMandatory() : def.SetMandatory(true);
    else if (g.Coin()) def.SetMandatory().SetMandatory(false);
    def.SetCategory(d.category);
    defs.push_back(d);
    PLOG(c) << "define " << Show(d) << "\n";
  }
  do
  {
    switch (g.Draw(6))
    {
    case 0:
    case 1:
    {
      const auto name = g.Pick(g_names);
      const auto l = RandLiteral(g);
      PLOG(c) << "add " << name << "=[" << l.text << "]\n";
      const bool ok = h.AddStringAttribute(name, l.text);
      PCHECK(c, ok == !Lookup(given, name), "adding ", name, ok ? " succeeds" : " fails");
      if (ok) given.emplace_back(name, l);
      break;
    }
    case 2:
    {
      const auto name = g.Pick(g_names);
      const auto l = RandLiteral(g);
      PLOG(c) << "set " << name << "=[" << l.text << "]\n";
      h.SetStringAttribute(name, l.text);
      bool found = false;
      for (auto& [n, v] : given)
        if (n == name)
        {
          v = l;
          found = true;
        }
      if (!found) given.emplace_back(name, l);
      break;
    }
    case 3:
      if (g.Draw(3) == 2)
      {
        const auto r = RandRule(g, 2);
        PLOG(c) << "constraint " << Show(r) << "\n";
        h.AddConstraint(Build(r));
        rules.push_back(r);
      }
      else if (g.Draw(3) == 2 && !defs.empty())
      {
        bool threw = false;
        try
        {
          h.AddAttributeDefinition(defs[0].name, dto::StringType);
        }
        catch (const InvalidOperationException&)
        {
          threw = true;
        }
        PCHECK(c, threw, "an attribute was defined twice");
      }
      break;
    case 4: h.ClearFailedConstraints(); PCHECK(c, h.GetFailedConstraints().empty(), "failed constraints are not cleared"); break;
    default:
    {
      const int n = Failing(defs, rules, given);
      const bool ok = h.ValidateAttributes();
      const auto failed = h.GetFailedConstraints();
      PLOG(c) << "validate: " << failed.size() << " failed\n";
      PCHECK(c, ok == failed.empty(), "validation ", ok ? "succeeds" : "fails", " with ", failed.size(), " failed constraints");
      PCHECK(c, n < 0 || n == static_cast<int>(failed.size()), failed.size(), " constraints fail instead of ", n, FormatFailedConstraints(failed));
      for (auto& f : failed) PCHECK(c, !f.empty(), "a failed constraint without text");
      (ok ? valid : invalid)++;
    }
    }
    // the attributes and their values
    PCHECK(c, h.GetStringAttributes() == Strings(given), "the attributes are wrong");
    PCHECK(c, h.GetAttributeDefinitions().size() == defs.size(), "the definitions are wrong");
    size_t how = defs.size() + given.size();
    for (size_t i = 0; i < defs.size(); ++i)
    {
      const AttributeDefinition& own = h.GetAttributeDefinitions()[i];
      AttributeDefinition d("other", dto::BooleanType);
      switch (how = (how + 1) % 4)
      {
      case 0: d = own; break;
      case 1: d = AttributeDefinition(own); break;
      case 2: { AttributeDefinition e(own); d = e; e.SetMandatory(!e.IsMandatory()); } break;
      default: { AttributeDefinition e(std::move(d)); e = own; AttributeDefinition x(std::move(e)); d = x; } break;
      }
      if (d.GetName() != defs[i].name || d.GetType() != defs[i].type || d.IsMandatory() != defs[i].mandatory || d.GetCategory() != defs[i].category) c.Fail("wrong definition of " + Show(defs[i]));
    }
    for (auto& name : g_names)
    {
      auto* l = Lookup(given, name);
      PCHECK(c, h.HasStringAttribute(name) == (l != nullptr), "attribute ", name, l ? " is missing" : " is there");
      PCHECK(c, GetStringAttributeValue(h.GetStringAttributes(), name) == (l ? l->text : ""), "wrong text of ", name);
      AnyValue got, want;
      auto* d = FindDef(defs, name);
      const bool ok = h.GetValue(name, got);
      const auto f = !l ? Fit::kNo : Parses(d ? d->type : dto::StringType, *l, want);
      if (f == Fit::kEither) continue;
      PCHECK(c, ok == (f == Fit::kYes), "the value of ", name, ok ? " is there" : " is not there");
      if (ok && (got != want || got.GetType() != want.GetType())) c.Fail(name + " is " + values::Show(got) + " instead of " + values::Show(want));
      if (ok && !dto::IsStructValue(want))
      {
        // a place that only takes structures
        AnyValue place(1, dto::AnyType{{{"n", dto::SignedInteger8Type}}, "place"});
        const AnyValue before = place;
        PCHECK(c, !h.GetValue(name, place[0]), "the value of ", name, " was assigned to a structure");
        PCHECK(c, place == before, "a failed assignment of ", name, " leaves ", values::Show(place));
      }
      if (ok)
      {
        std::string as;
        const bool text = want.GetType() == dto::StringType;
        if (text) PCHECK(c, h.GetValueAs(name, as) && as == l->text, name, " as text is [", as, "]");
        auto back = utils::CreateAttributeString(got);
        PCHECK(c, back.first, "no text for ", values::Show(got));
        auto again = utils::ParseAttributeString(got.GetType(), back.second);
        if (!again.first || again.second != got) c.Fail("[" + back.second + "] is not read as " + values::Show(got));
      }
      if (l)
      {
        const auto info = GetAttributeValueInfo(h.GetStringAttributes(), h.GetAttributeDefinitions(), name);
        const bool both = d && d->category == AttributeCategory::kBoth && !l->text.empty() && l->text[0] == '@';
        const bool var = (d && d->category == AttributeCategory::kVariableName) || both;
        PCHECK(c, info.m_is_varname == var && info.m_value == (both ? l->text.substr(1) : l->text), name, " is said to be ", info.m_is_varname ? "a variable" : "a literal", " [", info.m_value, "]");
      }
    }
  } while (g.More(10));
  if (valid && invalid) c.NonTrivial();
}

// -------------------------------------------------------------- attributes of an instruction
class VAttr : public Instruction
{
public:
  VAttr(const std::vector<Def>& defs, const std::vector<Rule>& rules) : Instruction("VAttr")
  {
    for (auto& d : defs)
    {
      auto& def = AddAttributeDefinition(d.name, d.type);
      def.SetCategory(d.category);
      if (d.mandatory) def.SetMandatory();
    }
    for (auto& r : rules) AddConstraint(Build(r));
  }
  int setups = 0;

private:
  void SetupImpl(const Procedure&) override { ++setups; }
  ES ExecuteSingleImpl(UserInterface&, Workspace&) override { return ES::SUCCESS; }
};

class VAttrVar : public Variable
{
public:
  VAttrVar(const std::vector<Def>& defs, const std::vector<Rule>& rules) : Variable("VAttrVar")
  {
    for (auto& d : defs)
    {
      auto& def = AddAttributeDefinition(d.name, d.type);
      if (d.mandatory) def.SetMandatory();
    }
    for (auto& r : rules) AddConstraint(Build(r));
  }
  int setups = 0;

private:
  bool GetValueImpl(AnyValue&) const override { return false; }
  bool SetValueImpl(const AnyValue&) override { return false; }
  SetupTeardownActions SetupImpl(const Workspace&) override
  {
    ++setups;
    return {};
  }
};

void Instructions(pbt::Case& c)
{
  auto& g = c.g;
  auto defs = RandDefs(g);
  std::vector<Rule> rules;
  for (size_t i = 0, n = g.Draw(3); i < n; ++i) rules.push_back(RandRule(g, 2));
  const auto given = RandGiven(g, 5);
  for (auto& d : defs) PLOG(c) << "define " << Show(d) << "\n";
  for (auto& r : rules) PLOG(c) << "constraint " << Show(r) << "\n";
  for (auto& [n, l] : given) PLOG(c) << n << "=[" << l.text << "]\n";
  Workspace ws;
  std::map<std::string, AnyValue> vars;
  vars["v"] = RandScalar(g, Scalars()[g.Draw(Scalars().size())]);
  vars["s"] = dto::EmptyStruct();
  vars["s"].AddMember("t", RandScalar(g, Scalars()[g.Draw(Scalars().size())]));
  for (auto& [n, v] : vars)
  {
    auto var = GlobalVariableRegistry().Create("Local");
    var->SetName(n);
    var->AddAttribute("type", dto::AnyTypeToJSONString(v.GetType()));
    var->AddAttribute("value", Json(v));
    ws.AddVariable(n, std::move(var));
  }
  ws.Setup();
  HookUI ui;
  int logs = 0;
  ui.on_log = [&](int, const std::string&) { ++logs; };
  Procedure proc;
  VAttr instr(defs, rules);
  VAttrVar var(defs, rules);
  PCHECK(c, instr.AddAttributes(Strings(given)), "attributes cannot be added");
  PCHECK(c, var.AddAttributes(Strings(given)), "attributes cannot be added to a variable");
  PCHECK(c, instr.GetStringAttributes() == Strings(given) && var.GetStringAttributes() == Strings(given), "the attributes are wrong");
  const int n = Failing(defs, rules, given);
  bool ok = true;
  try
  {
    instr.Setup(proc);
  }
  catch (const InstructionSetupException&)
  {
    ok = false;
  }
  PCHECK(c, instr.setups == (ok ? 1 : 0), "the implementation was set up ", instr.setups, " times");
  PCHECK(c, n < 0 || ok == (n == 0), "setup ", ok ? "succeeds" : "fails", " with ", n, " failing constraints");
  // variables have no categories
  auto plain = defs;
  for (auto& d : plain) d.category = AttributeCategory::kLiteral;
  const int m = Failing(plain, rules, given);
  bool vok = true;
  try
  {
    (void)var.Setup(ws);
  }
  catch (const VariableSetupException&)
  {
    vok = false;
  }
  PCHECK(c, var.setups == (vok ? 1 : 0), "the variable was set up ", var.setups, " times");
  PCHECK(c, m < 0 || vok == (m == 0), "setup of a variable ", vok ? "succeeds" : "fails", " with ", m, " failing constraints");
  int from_vars = 0;
  for (auto& name : g_names)
  {
    auto* l = Lookup(given, name);
    auto* d = FindDef(defs, name);
    AnyValue got;
    logs = 0;
    const bool res = instr.GetAttributeValue(name, ws, ui, got);
    if (!l)
    {
      PCHECK(c, res && dto::IsEmptyValue(got), "an absent attribute gives ", values::Show(got));
      std::string text = "untouched";
      PCHECK(c, instr.GetAttributeValueAs(name, ws, ui, text) && text == "untouched", "an absent attribute gives [", text, "]");
      continue;
    }
    std::string ref;
    bool is_var = false;
    if (d && d->category == AttributeCategory::kVariableName)
    {
      is_var = true;
      ref = l->text;
    }
    else if (d && d->category == AttributeCategory::kBoth && !l->text.empty() && l->text[0] == '@')
    {
      is_var = true;
      ref = l->text.substr(1);
    }
    AnyValue want;
    Fit f;
    if (is_var)
    {
      f = ref == "v" || ref == "s.t" || ref == "s" ? Fit::kYes : Fit::kNo;
      if (f == Fit::kYes) want = ref == "s.t" ? vars["s"]["t"] : vars[ref];
      from_vars += f == Fit::kYes;
    }
    else
      f = Parses(d ? d->type : dto::StringType, *l, want);
    if (f == Fit::kEither) continue;
    PCHECK(c, res == (f == Fit::kYes), "attribute ", name, "=[", l->text, "] ", res ? "has" : "has no", " value");
    if (res && (got != want || got.GetType() != want.GetType())) c.Fail(name + " is " + values::Show(got) + " instead of " + values::Show(want));
    if (!res && logs == 0) c.Fail("no message about the value of " + name);
    // a place that only takes structures
    if (res && !dto::IsStructValue(want))
    {
      AnyValue place(1, dto::AnyType{{{"n", dto::SignedInteger8Type}}, "place"});
      const AnyValue before = place;
      logs = 0;
      PCHECK(c, !instr.GetAttributeValue(name, ws, ui, place[0]), "the value of ", name, " was assigned to a structure");
      PCHECK(c, place == before, "a failed assignment of ", name, " leaves ", values::Show(place));
      PCHECK(c, logs > 0, "no message about the type of ", name);
    }
    // converted
    if (res)
    {
      dto::int64 i1 = -77, i2 = -77;
      const bool c1 = instr.GetAttributeValueAs(name, ws, ui, i1), c2 = want.As(i2);
      PCHECK(c, c1 == c2 && (!c1 || i1 == i2), name, " as a number: ", c1, " ", i1, " instead of ", c2, " ", i2);
      std::string t1, t2;
      const bool s1 = instr.GetAttributeValueAs(name, ws, ui, t1), s2 = want.As(t2);
      PCHECK(c, s1 == s2 && (!s1 || t1 == t2), name, " as text: ", s1, " [", t1, "] instead of ", s2, " [", t2, "]");
      bool b1 = false, b2 = false;
      const bool k1 = instr.GetAttributeValueAs(name, ws, ui, b1), k2 = want.As(b2);
      PCHECK(c, k1 == k2 && (!k1 || b1 == b2), name, " as truth: ", k1, " ", b1, " instead of ", k2, " ", b2);
    }
  }
  c.Label(n < 0 ? "undecided" : ok ? "accepted" : "refused");
  if ((ok && from_vars) || (n > 1)) c.NonTrivial();
}

// -------------------------------------------------------------------------------- placeholders
void Placeholders(pbt::Case& c)
{
  auto& g = c.g;
  static const std::vector<std::string> texts = {"$a", "$b", "$", "$ab", "$$a", "x$a", "@a", "", "plain", "$A", "$x.y"};
  StringAttributeList attrs, source;
  auto add = [&](StringAttributeList& list) {
    const auto n = g.Pick(g_names);
    if (FindStringAttribute(list, n) == list.end()) list.emplace_back(n, g.Pick(texts));
  };
  for (size_t i = 0, n = g.Draw(6); i < n; ++i) add(attrs);
  for (size_t i = 0, n = g.Draw(6); i < n; ++i) add(source);
  VAttr instr({}, {});
  instr.AddAttributes(attrs);
  StringAttributeList want = attrs;
  bool ok = true;
  int replaced = 0;
  for (auto& [n, v] : want)
  {
    if (v.empty() || v[0] != '$') continue;
    const std::string* to = nullptr;
    for (auto& [sn, sv] : source)
      if (sn == v.substr(1)) to = &sv;
    if (!to)
    {
      ok = false;
      continue;
    }
    v = *to;
    ++replaced;
  }
  for (auto& [n, v] : attrs) PLOG(c) << n << "=[" << v << "]\n";
  for (auto& [n, v] : source) PLOG(c) << "  from " << n << "=[" << v << "]\n";
  const bool got = instr.InitialisePlaceholderAttributes(source);
  PCHECK(c, got == ok, "replacing placeholders ", got ? "succeeds" : "fails");
  for (size_t i = 0; i < want.size(); ++i)
    if (i >= instr.GetStringAttributes().size() || instr.GetStringAttributes()[i] != want[i]) c.Fail("attribute " + want[i].first + " is [" + instr.GetAttributeString(want[i].first) + "] instead of [" + want[i].second + "]");
  PCHECK(c, instr.GetStringAttributes().size() == want.size(), "other attributes");
  if (replaced > 1 || (replaced && !ok)) c.NonTrivial();
}

OAC_FACET("C23", "constraints", Constraints, Opts(40000, 2000000, "several constraints, copied or moved, of which some hold and some do not", 12));
OAC_FACET("C23", "handler", Handler, Opts(20000, 1000000, "the attributes were valid at one time and invalid at another", 15));
OAC_FACET("C23", "instructions", Instructions, Opts(40000, 2000000, "a value taken from a variable, or several failing constraints", 12));
OAC_FACET("C23", "placeholders", Placeholders, Opts(40000, 2000000, "several placeholders replaced, or only some", 6));
}  // namespace
