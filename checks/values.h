// Generators of AnyTypes and AnyValues and of paths to their fields.
#ifndef VERIF_VALUES_H_
#define VERIF_VALUES_H_

#include "oac.h"

#include <sup/dto/json_type_parser.h>
#include <sup/dto/json_value_parser.h>

namespace values
{
using namespace oac;
namespace dto = sup::dto;

inline const std::vector<AnyType>& Scalars()
{
  static const std::vector<AnyType> types = {dto::SignedInteger32Type, dto::UnsignedInteger32Type, dto::BooleanType, dto::StringType,
    dto::Float64Type, dto::UnsignedInteger8Type, dto::SignedInteger64Type, dto::UnsignedInteger64Type, dto::SignedInteger8Type,
    dto::Float32Type, dto::SignedInteger16Type, dto::UnsignedInteger16Type};
  return types;
}

inline const std::vector<std::string>& Members()
{
  static const std::vector<std::string> names = {"a", "b", "val", "ab", "A"};
  return names;
}

inline AnyType RandType(pbt::Gen& g, int depth)
{
  const int kind = depth <= 0 ? 0 : static_cast<int>(g.Draw(5));
  if (kind <= 1) return Scalars()[g.Draw(Scalars().size())];
  if (kind <= 3)
  {
    AnyType t = dto::EmptyStructType(g.Coin() ? "" : pbt::Str("S", g.Draw(3)));
    const int n = 1 + static_cast<int>(g.Draw(3));
    for (int i = 0; i < n; ++i)
    {
      const auto& name = Members()[(g.Draw(2) + i * 2) % Members().size()];
      if (!t.HasField(name)) t.AddMember(name, RandType(g, depth - 1));
    }
    return t;
  }
  return AnyType(g.Draw(4), RandType(g, depth - 1), g.Coin() ? "" : pbt::Str("R", g.Draw(3)));
}

inline AnyValue RandScalar(pbt::Gen& g, const AnyType& t)
{
  static const int64_t ints[] = {0, 1, -1, 2, 7, 100, 127, -128, 255, 32767, 65535, 2147483647ll, -2147483648ll, 4294967295ll, 9007199254740993ll};
  static const char* const texts[] = {"", "x", "hello world", "with \"quotes\"", "a.b[0]", "line\nbreak", "\xc3\xa9t\xc3\xa9", "0", "true", "<&>"};
  AnyValue v{t};
  switch (t.GetTypeCode())
  {
  case dto::TypeCode::Bool: return AnyValue{g.Coin()};
  case dto::TypeCode::String: return AnyValue{std::string(texts[g.Draw(10)])};
  case dto::TypeCode::Float64: return AnyValue{static_cast<double>(g.Range(-20, 20)) / 4};
  case dto::TypeCode::Float32: return AnyValue{static_cast<float>(g.Range(-20, 20)) / 4};
  case dto::TypeCode::UInt64:
    if (g.Draw(6) == 5) return AnyValue{static_cast<dto::uint64>(18446744073709551615ull)};
    break;
  default: break;
  }
  const int64_t i = g.Coin() ? g.Range(-3, 9) : ints[g.Draw(15)];
  if (!dto::TryConvert(v, AnyValue{static_cast<dto::int64>(i)})) dto::TryConvert(v, AnyValue{static_cast<dto::int64>(1)});
  return v;
}

inline AnyValue RandValue(pbt::Gen& g, const AnyType& t)
{
  if (dto::IsStructType(t))
  {
    auto v = dto::EmptyStruct(t.GetTypeName());
    for (auto& m : t.MemberNames()) v.AddMember(m, RandValue(g, t[m]));
    return v;
  }
  if (dto::IsArrayType(t))
  {
    AnyValue v(t.NumberOfElements(), t.ElementType(), t.GetTypeName());
    for (size_t i = 0; i < t.NumberOfElements(); ++i) v[i] = RandValue(g, t.ElementType());
    return v;
  }
  if (dto::IsEmptyType(t)) return {};
  return RandScalar(g, t);
}

// A path is a list of member names or element numbers.
struct Step
{
  bool element;
  std::string name;
  size_t index;
};
using Path = std::vector<Step>;

inline std::string PathText(const Path& p)
{
  std::string r;
  for (auto& s : p)
    if (s.element)
      r += "[" + std::to_string(s.index) + "]";
    else
      r += (r.empty() ? "" : ".") + s.name;
  return r;
}

// Name of a field of a variable.
inline std::string FieldName(const std::string& var, const Path& p)
{
  if (p.empty()) return var;
  return var + (p[0].element ? "" : ".") + PathText(p);
}

inline const AnyValue* Find(const AnyValue& v, const Path& p)
{
  const AnyValue* at = &v;
  for (auto& s : p)
  {
    if (s.element)
    {
      if (!dto::IsArrayValue(*at) || s.index >= at->NumberOfElements()) return nullptr;
      at = &(*at)[s.index];
    }
    else
    {
      bool found = false;
      if (dto::IsStructValue(*at))
        for (auto& m : at->MemberNames()) found = found || m == s.name;
      if (!found) return nullptr;
      at = &(*at)[s.name];
    }
  }
  return at;
}

inline AnyValue* Find(AnyValue& v, const Path& p)
{
  return const_cast<AnyValue*>(Find(static_cast<const AnyValue&>(v), p));
}

// A path that mostly exists in the value.
inline Path RandPath(pbt::Gen& g, const AnyValue& v, bool whole_allowed = true)
{
  Path p;
  const AnyValue* at = &v;
  if (whole_allowed && g.Draw(3) == 0) return p;
  while (at && p.size() < 4)
  {
    Step s{false, "", 0};
    if (dto::IsStructValue(*at) && at->NumberOfMembers() > 0)
      s.name = at->MemberNames()[g.Draw(at->NumberOfMembers())];
    else if (dto::IsArrayValue(*at) && at->NumberOfElements() > 0)
      s = {true, "", g.Draw(at->NumberOfElements())};
    else
      break;
    if (g.Draw(12) == 11) s.name = Members()[g.Draw(Members().size())];
    if (g.Draw(12) == 11) s.index += 1 + g.Draw(2);
    p.push_back(s);
    at = Find(v, p);
    if (g.Draw(3) == 2) return p;
  }
  if (g.Draw(10) == 9) p.push_back(g.Coin() ? Step{true, "", g.Draw(2)} : Step{false, Members()[g.Draw(Members().size())], 0});
  return p;
}

inline std::string Show(const AnyValue& v)
{
  return dto::IsEmptyValue(v) ? "<empty>" : dto::AnyTypeToJSONString(v.GetType()) + " " + Json(v);
}

// A variable that keeps its type and refuses some values.
class Guarded : public Variable
{
public:
  explicit Guarded(AnyValue initial) : Variable{"VGuarded"}, m_initial{std::move(initial)}, m_value{m_initial} {}
  static bool Takes(const AnyValue& v)
  {
    size_t sum = 0;
    for (unsigned char ch : Show(v)) sum = sum * 31 + ch;
    return sum % 3 != 0;
  }

private:
  bool GetValueImpl(AnyValue& value) const override { return dto::TryAssign(value, m_value); }
  bool SetValueImpl(const AnyValue& value) override
  {
    AnyValue next{m_value};
    if (!dto::TryConvert(next, value)) return false;
    if (!Takes(next)) return false;
    m_value = next;
    Notify(m_value, true);
    return true;
  }
  SetupTeardownActions SetupImpl(const Workspace&) override
  {
    m_value = m_initial;
    Notify(m_value, true);
    return {};
  }

  AnyValue m_initial, m_value;
};
}  // namespace values
#endif
