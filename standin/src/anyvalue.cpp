#include <sup/dto/anyvalue.h>

#include <cmath>
#include <limits>

namespace sup
{
namespace dto
{
namespace
{
const char* ScalarName(TypeCode c)
{
  switch (c)
  {
  case TypeCode::Empty: return "empty";
  case TypeCode::Bool: return "bool";
  case TypeCode::Char8: return "char8";
  case TypeCode::Int8: return "int8";
  case TypeCode::UInt8: return "uint8";
  case TypeCode::Int16: return "int16";
  case TypeCode::UInt16: return "uint16";
  case TypeCode::Int32: return "int32";
  case TypeCode::UInt32: return "uint32";
  case TypeCode::Int64: return "int64";
  case TypeCode::UInt64: return "uint64";
  case TypeCode::Float32: return "float32";
  case TypeCode::Float64: return "float64";
  case TypeCode::String: return "string";
  default: return "";
  }
}
bool SignedCode(TypeCode c)
{
  switch (c)
  {
  case TypeCode::Bool: case TypeCode::Char8: case TypeCode::Int8: case TypeCode::Int16:
  case TypeCode::Int32: case TypeCode::Int64: return true;
  default: return false;
  }
}
bool UnsignedCode(TypeCode c)
{
  return c == TypeCode::UInt8 || c == TypeCode::UInt16 || c == TypeCode::UInt32
         || c == TypeCode::UInt64;
}
bool FloatCode(TypeCode c)
{
  return c == TypeCode::Float32 || c == TypeCode::Float64;
}
int64 MinOf(TypeCode c)
{
  switch (c)
  {
  case TypeCode::Char8: case TypeCode::Int8: return -128;
  case TypeCode::Int16: return -32768;
  case TypeCode::Int32: return std::numeric_limits<int32>::min();
  case TypeCode::Int64: return std::numeric_limits<int64>::min();
  default: return 0;
  }
}
uint64 MaxOf(TypeCode c)
{
  switch (c)
  {
  case TypeCode::Bool: return 1;
  case TypeCode::Char8: case TypeCode::Int8: return 127;
  case TypeCode::UInt8: return 255;
  case TypeCode::Int16: return 32767;
  case TypeCode::UInt16: return 65535;
  case TypeCode::Int32: return 0x7fffffffu;
  case TypeCode::UInt32: return 0xffffffffu;
  case TypeCode::Int64: return 0x7fffffffffffffffull;
  case TypeCode::UInt64: return 0xffffffffffffffffull;
  default: return 0;
  }
}
[[noreturn]] void BadConversion()
{
  throw InvalidConversionException("AnyValue: conversion between these types is not allowed");
}
}  // namespace

// ---------------------------------------------------------------------------------------- AnyType

AnyType::AnyType() : AnyType{TypeCode::Empty} {}
AnyType::AnyType(TypeCode code) : m_code{code}, m_name{}, m_members{}, m_element{}, m_size{0} {}
AnyType::AnyType(std::initializer_list<std::pair<std::string, AnyType>> members,
                 const std::string& name)
  : AnyType{TypeCode::Struct}
{
  m_name = name;
  for (const auto& m : members)
  {
    AddMember(m.first, m.second);
  }
}
AnyType::AnyType(std::size_t size, const AnyType& element, const std::string& name)
  : AnyType{TypeCode::Array}
{
  if (element.m_code == TypeCode::Empty)
  {
    throw InvalidOperationException("AnyType: array of empty elements");
  }
  m_name = name;
  m_size = size;
  m_element.reset(new AnyType(element));
}
AnyType::AnyType(const AnyType& o)
  : m_code{o.m_code}, m_name{o.m_name}, m_members{o.m_members},
    m_element{o.m_element ? new AnyType(*o.m_element) : nullptr}, m_size{o.m_size}
{}
AnyType& AnyType::operator=(const AnyType& o)
{
  if (this != &o)
  {
    AnyType copy{o};
    *this = std::move(copy);
  }
  return *this;
}
AnyType::AnyType(AnyType&&) noexcept = default;
AnyType& AnyType::operator=(AnyType&&) noexcept = default;
AnyType::~AnyType() = default;

std::string AnyType::GetTypeName() const
{
  if (m_code == TypeCode::Struct || m_code == TypeCode::Array)
  {
    return m_name;
  }
  return ScalarName(m_code);
}
AnyType& AnyType::AddMember(const std::string& name, const AnyType& type)
{
  if (m_code != TypeCode::Struct)
  {
    throw InvalidOperationException("AnyType::AddMember: not a structure");
  }
  if (name.empty() || HasField(name))
  {
    throw InvalidOperationException("AnyType::AddMember: empty or duplicate member name");
  }
  m_members.emplace_back(name, type);
  return *this;
}
std::vector<std::string> AnyType::MemberNames() const
{
  std::vector<std::string> r;
  for (const auto& m : m_members)
  {
    r.push_back(m.first);
  }
  return r;
}
AnyType AnyType::ElementType() const
{
  if (!m_element)
  {
    throw InvalidOperationException("AnyType::ElementType: not an array");
  }
  return *m_element;
}
bool AnyType::HasField(const std::string& name) const
{
  for (const auto& m : m_members)
  {
    if (m.first == name)
    {
      return true;
    }
  }
  return false;
}
AnyType AnyType::operator[](const std::string& name) const
{
  for (const auto& m : m_members)
  {
    if (m.first == name)
    {
      return m.second;
    }
  }
  throw InvalidOperationException("AnyType: unknown member");
}
bool AnyType::operator==(const AnyType& o) const
{
  if (m_code != o.m_code || m_name != o.m_name || m_size != o.m_size)
  {
    return false;
  }
  if (m_members.size() != o.m_members.size() || !m_element != !o.m_element)
  {
    return false;
  }
  for (std::size_t i = 0; i < m_members.size(); ++i)
  {
    if (m_members[i].first != o.m_members[i].first
        || !(m_members[i].second == o.m_members[i].second))
    {
      return false;
    }
  }
  return !m_element || *m_element == *o.m_element;
}
AnyType AnyType::Struct(const std::string& name)
{
  AnyType r{TypeCode::Struct};
  r.m_name = name;
  return r;
}

// --------------------------------------------------------------------------------------- AnyValue

AnyValue::AnyValue()
  : m_code{TypeCode::Empty}, m_locked{false}, m_int{0}, m_uint{0}, m_double{0.0}, m_string{},
    m_name{}, m_names{}, m_children{}, m_element_type{}
{}
AnyValue::AnyValue(const AnyType& type) : AnyValue{}
{
  m_code = type.GetTypeCode();
  if (m_code == TypeCode::Struct)
  {
    m_name = type.GetTypeName();
    for (const auto& m : type.Members())
    {
      m_names.push_back(m.first);
      m_children.push_back(AnyValue(m.second));
    }
  }
  if (m_code == TypeCode::Array)
  {
    m_name = type.GetTypeName();
    m_element_type = type.ElementType();
    m_children.assign(type.NumberOfElements(), AnyValue(m_element_type));
    SetLock(false);
  }
}
#define STANDIN_SCALAR(T, CODE, FIELD) \
  AnyValue::AnyValue(T v) : AnyValue{} \
  { \
    m_code = TypeCode::CODE; \
    FIELD = v; \
  }
STANDIN_SCALAR(boolean, Bool, m_int)
STANDIN_SCALAR(char8, Char8, m_int)
STANDIN_SCALAR(int8, Int8, m_int)
STANDIN_SCALAR(uint8, UInt8, m_uint)
STANDIN_SCALAR(int16, Int16, m_int)
STANDIN_SCALAR(uint16, UInt16, m_uint)
STANDIN_SCALAR(int32, Int32, m_int)
STANDIN_SCALAR(uint32, UInt32, m_uint)
STANDIN_SCALAR(int64, Int64, m_int)
STANDIN_SCALAR(uint64, UInt64, m_uint)
STANDIN_SCALAR(float32, Float32, m_double)
STANDIN_SCALAR(float64, Float64, m_double)
STANDIN_SCALAR(const std::string&, String, m_string)
#undef STANDIN_SCALAR
AnyValue::AnyValue(const char* v) : AnyValue{std::string(v)} {}
AnyValue::AnyValue(const AnyType& type, const AnyValue& value) : AnyValue{type}
{
  ConvertFrom(value);
}
AnyValue::AnyValue(std::initializer_list<std::pair<std::string, AnyValue>> members,
                   const std::string& name)
  : AnyValue{}
{
  m_code = TypeCode::Struct;
  m_name = name;
  for (const auto& m : members)
  {
    AddMember(m.first, m.second);
  }
}
AnyValue::AnyValue(std::size_t size, const AnyType& element, const std::string& name)
  : AnyValue{AnyType(size, element, name)}
{}
AnyValue::AnyValue(const AnyValue& o)
  : m_code{o.m_code}, m_locked{false}, m_int{o.m_int}, m_uint{o.m_uint}, m_double{o.m_double},
    m_string{o.m_string}, m_name{o.m_name}, m_names{o.m_names}, m_children{o.m_children},
    m_element_type{o.m_element_type}
{
  SetLock(false);
}
AnyValue::AnyValue(AnyValue&& o) noexcept
  : m_code{o.m_code}, m_locked{false}, m_int{o.m_int}, m_uint{o.m_uint}, m_double{o.m_double},
    m_string{std::move(o.m_string)}, m_name{std::move(o.m_name)}, m_names{std::move(o.m_names)},
    m_children{std::move(o.m_children)}, m_element_type{std::move(o.m_element_type)}
{
  if (!o.m_locked)
  {
    o.m_code = TypeCode::Empty;
    o.m_names.clear();
    o.m_children.clear();
  }
  SetLock(false);
}
AnyValue& AnyValue::operator=(const AnyValue& o)
{
  if (this == &o)
  {
    return *this;
  }
  if (m_locked)
  {
    return ConvertFrom(o);
  }
  AnyValue copy{o};  // o may be part of *this
  CopyContent(copy);
  SetLock(false);
  return *this;
}
AnyValue::~AnyValue() = default;

void AnyValue::CopyContent(const AnyValue& o)
{
  m_code = o.m_code;
  m_int = o.m_int;
  m_uint = o.m_uint;
  m_double = o.m_double;
  m_string = o.m_string;
  m_name = o.m_name;
  m_names = o.m_names;
  auto children = o.m_children;
  m_children.swap(children);
  m_element_type = o.m_element_type;
}
void AnyValue::SetLock(bool locked)
{
  m_locked = locked;
  bool child_locked = locked || m_code == TypeCode::Array;
  for (auto& child : m_children)
  {
    child.SetLock(child_locked);
  }
}
AnyType AnyValue::GetType() const
{
  if (m_code == TypeCode::Struct)
  {
    auto r = AnyType::Struct(m_name);
    for (std::size_t i = 0; i < m_names.size(); ++i)
    {
      r.AddMember(m_names[i], m_children[i].GetType());
    }
    return r;
  }
  if (m_code == TypeCode::Array)
  {
    return AnyType(m_children.size(), m_element_type, m_name);
  }
  return AnyType{m_code};
}
std::string AnyValue::GetTypeName() const
{
  return GetType().GetTypeName();
}
bool AnyValue::IsInteger() const { return SignedCode(m_code) || UnsignedCode(m_code); }
bool AnyValue::IsSigned() const { return SignedCode(m_code); }
bool AnyValue::IsFloat() const { return FloatCode(m_code); }

AnyValue& AnyValue::ConvertFrom(const AnyValue& other)
{
  AnyValue result{*this};
  result.ConvertImpl(other);
  CopyContent(result);
  SetLock(m_locked);
  return *this;
}
void AnyValue::ConvertImpl(const AnyValue& o)
{
  if (m_code == TypeCode::Empty)
  {
    if (o.m_code != TypeCode::Empty)
    {
      BadConversion();
    }
    return;
  }
  if (m_code == TypeCode::Struct)
  {
    if (o.m_code != TypeCode::Struct || m_names != o.m_names)
    {
      BadConversion();
    }
    for (std::size_t i = 0; i < m_children.size(); ++i)
    {
      m_children[i].ConvertImpl(o.m_children[i]);
    }
    return;
  }
  if (m_code == TypeCode::Array)
  {
    if (o.m_code != TypeCode::Array || m_children.size() != o.m_children.size())
    {
      BadConversion();
    }
    for (std::size_t i = 0; i < m_children.size(); ++i)
    {
      m_children[i].ConvertImpl(o.m_children[i]);
    }
    return;
  }
  if (m_code == TypeCode::String || o.m_code == TypeCode::String)
  {
    if (m_code != o.m_code)
    {
      BadConversion();
    }
    m_string = o.m_string;
    return;
  }
  if (!(IsInteger() || IsFloat()) || !(o.IsInteger() || o.IsFloat()))
  {
    BadConversion();
  }
  if (IsFloat())
  {
    double v = o.IsFloat() ? o.m_double
                           : (o.IsSigned() ? static_cast<double>(o.m_int)
                                           : static_cast<double>(o.m_uint));
    if (m_code == TypeCode::Float32)
    {
      if (std::isfinite(v) && std::abs(v) > std::numeric_limits<float>::max())
      {
        BadConversion();
      }
      v = static_cast<float>(v);
    }
    m_double = v;
    return;
  }
  if (o.IsFloat())
  {
    double d = std::trunc(o.m_double);
    if (m_code == TypeCode::Bool && !std::isnan(d))
    {
      m_int = o.m_double != 0.0;
      return;
    }
    if (!(d >= -9223372036854775808.0 && d < 18446744073709551616.0))
    {
      BadConversion();
    }
    if (d < 0)
    {
      ConvertImpl(AnyValue(static_cast<int64>(d)));
    }
    else
    {
      ConvertImpl(AnyValue(static_cast<uint64>(d)));
    }
    return;
  }
  bool negative = o.IsSigned() && o.m_int < 0;
  uint64 magnitude = o.IsSigned() ? static_cast<uint64>(o.m_int) : o.m_uint;
  if (m_code == TypeCode::Bool)
  {
    m_int = magnitude != 0;
    return;
  }
  if (negative ? o.m_int < MinOf(m_code) : magnitude > MaxOf(m_code))
  {
    BadConversion();
  }
  if (IsSigned())
  {
    m_int = static_cast<int64>(magnitude);
  }
  else
  {
    m_uint = magnitude;
  }
}
AnyValue& AnyValue::AddMember(const std::string& name, const AnyValue& value)
{
  if (m_code != TypeCode::Struct || m_locked)
  {
    throw InvalidOperationException("AnyValue::AddMember: not a structure or type locked");
  }
  if (name.empty() || name.find_first_of(".[] \t\r\n") != std::string::npos)
  {
    throw InvalidOperationException("AnyValue::AddMember: invalid member name");
  }
  for (const auto& n : m_names)
  {
    if (n == name)
    {
      throw InvalidOperationException("AnyValue::AddMember: duplicate member name");
    }
  }
  AnyValue copy{value};
  m_names.push_back(name);
  m_children.push_back(std::move(copy));
  SetLock(m_locked);
  return *this;
}
AnyValue& AnyValue::AddElement(const AnyValue& value)
{
  if (m_code != TypeCode::Array || m_locked)
  {
    throw InvalidOperationException("AnyValue::AddElement: not an array or type locked");
  }
  AnyValue element{m_element_type, value};
  m_children.push_back(std::move(element));
  SetLock(m_locked);
  return *this;
}
std::vector<std::string> AnyValue::MemberNames() const
{
  return m_code == TypeCode::Struct ? m_names : std::vector<std::string>{};
}
AnyValue* AnyValue::Find(const std::string& path)
{
  AnyValue* current = this;
  std::size_t pos = 0;
  bool first = true;
  if (path.empty())
  {
    return nullptr;
  }
  while (pos < path.size())
  {
    if (path[pos] == '[')
    {
      auto end = path.find(']', pos);
      if (end == std::string::npos || end == pos + 1 || end - pos > 12)
      {
        return nullptr;
      }
      std::size_t idx = 0;
      for (auto i = pos + 1; i < end; ++i)
      {
        if (path[i] < '0' || path[i] > '9')
        {
          return nullptr;
        }
        idx = idx * 10 + static_cast<std::size_t>(path[i] - '0');
      }
      if (current->m_code != TypeCode::Array || idx >= current->m_children.size())
      {
        return nullptr;
      }
      current = &current->m_children[idx];
      pos = end + 1;
    }
    else
    {
      if (!first)
      {
        if (path[pos] != '.')
        {
          return nullptr;
        }
        ++pos;
      }
      auto end = path.find_first_of(".[", pos);
      auto name = path.substr(pos, end == std::string::npos ? end : end - pos);
      if (current->m_code != TypeCode::Struct)
      {
        return nullptr;
      }
      AnyValue* next = nullptr;
      for (std::size_t i = 0; i < current->m_names.size(); ++i)
      {
        if (current->m_names[i] == name)
        {
          next = &current->m_children[i];
        }
      }
      if (!next)
      {
        return nullptr;
      }
      current = next;
      pos = end == std::string::npos ? path.size() : end;
    }
    first = false;
  }
  return current;
}
bool AnyValue::HasField(const std::string& path) const
{
  return const_cast<AnyValue*>(this)->Find(path) != nullptr;
}
AnyValue& AnyValue::operator[](const std::string& path)
{
  auto r = Find(path);
  if (!r)
  {
    throw InvalidOperationException("AnyValue: unknown field [" + path + "]");
  }
  return *r;
}
const AnyValue& AnyValue::operator[](const std::string& path) const
{
  return (*const_cast<AnyValue*>(this))[path];
}
AnyValue& AnyValue::operator[](std::size_t idx)
{
  if (m_code != TypeCode::Array || idx >= m_children.size())
  {
    throw InvalidOperationException("AnyValue: index out of bounds or not an array");
  }
  return m_children[idx];
}
const AnyValue& AnyValue::operator[](std::size_t idx) const
{
  return (*const_cast<AnyValue*>(this))[idx];
}
bool AnyValue::operator==(const AnyValue& o) const
{
  if (m_code == TypeCode::Struct || o.m_code == TypeCode::Struct)
  {
    return m_code == o.m_code && m_name == o.m_name && m_names == o.m_names
           && m_children == o.m_children;
  }
  if (m_code == TypeCode::Array || o.m_code == TypeCode::Array)
  {
    return m_code == o.m_code && m_name == o.m_name && m_children == o.m_children
           && m_element_type == o.m_element_type;
  }
  if (m_code == TypeCode::Empty || o.m_code == TypeCode::Empty)
  {
    return m_code == o.m_code;
  }
  return Compare(*this, o) == CompareResult::Equivalent;
}

#define STANDIN_AS(T, CODE, FIELD) \
  template <> T AnyValue::As<T>() const \
  { \
    if (m_code == TypeCode::CODE) \
    { \
      return static_cast<T>(FIELD); \
    } \
    AnyValue tmp{AnyType{TypeCode::CODE}}; \
    tmp.ConvertImpl(*this); \
    return static_cast<T>(tmp.FIELD); \
  }
STANDIN_AS(boolean, Bool, m_int)
STANDIN_AS(char8, Char8, m_int)
STANDIN_AS(int8, Int8, m_int)
STANDIN_AS(uint8, UInt8, m_uint)
STANDIN_AS(int16, Int16, m_int)
STANDIN_AS(uint16, UInt16, m_uint)
STANDIN_AS(int32, Int32, m_int)
STANDIN_AS(uint32, UInt32, m_uint)
STANDIN_AS(int64, Int64, m_int)
STANDIN_AS(uint64, UInt64, m_uint)
STANDIN_AS(float32, Float32, m_double)
STANDIN_AS(float64, Float64, m_double)
#undef STANDIN_AS
template <> std::string AnyValue::As<std::string>() const
{
  if (m_code != TypeCode::String)
  {
    BadConversion();
  }
  return m_string;
}

// ---------------------------------------------------------------------------------------- helpers

AnyValue EmptyStruct(const std::string& name) { return AnyValue(AnyType::Struct(name)); }
AnyType EmptyStructType(const std::string& name) { return AnyType::Struct(name); }
bool IsEmptyValue(const AnyValue& v) { return v.GetTypeCode() == TypeCode::Empty; }
bool IsArrayValue(const AnyValue& v) { return v.GetTypeCode() == TypeCode::Array; }
bool IsStructValue(const AnyValue& v) { return v.GetTypeCode() == TypeCode::Struct; }
bool IsScalarValue(const AnyValue& v)
{
  return !IsEmptyValue(v) && !IsArrayValue(v) && !IsStructValue(v);
}
bool IsEmptyType(const AnyType& t) { return t.GetTypeCode() == TypeCode::Empty; }
bool IsStructType(const AnyType& t) { return t.GetTypeCode() == TypeCode::Struct; }
bool IsArrayType(const AnyType& t) { return t.GetTypeCode() == TypeCode::Array; }
bool IsScalarType(const AnyType& t)
{
  return !IsEmptyType(t) && !IsArrayType(t) && !IsStructType(t);
}
bool TryAssign(AnyValue& dest, const AnyValue& src) noexcept
{
  try
  {
    dest = src;
    return true;
  }
  catch (const MessageException&)
  {
    return false;
  }
}
bool TryConvert(AnyValue& dest, const AnyValue& src) noexcept
{
  try
  {
    dest.ConvertFrom(src);
    return true;
  }
  catch (const MessageException&)
  {
    return false;
  }
}
bool TryAssignIfEmptyOrConvert(AnyValue& dest, const AnyValue& src) noexcept
{
  return IsEmptyValue(dest) ? TryAssign(dest, src) : TryConvert(dest, src);
}

namespace
{
template <typename T> CompareResult CompareT(T a, T b)
{
  if (a < b)
  {
    return CompareResult::Less;
  }
  if (b < a)
  {
    return CompareResult::Greater;
  }
  return a == b ? CompareResult::Equivalent : CompareResult::Unordered;
}
long double Widen(const AnyValue& v)
{
  if (v.IsFloat())
  {
    return v.RawDouble();
  }
  return v.IsSigned() ? static_cast<long double>(v.RawInt())
                      : static_cast<long double>(v.RawUInt());
}
}  // namespace

CompareResult Compare(const AnyValue& lhs, const AnyValue& rhs)
{
  if (IsScalarValue(lhs) && IsScalarValue(rhs))
  {
    bool ls = lhs.GetTypeCode() == TypeCode::String;
    bool rs = rhs.GetTypeCode() == TypeCode::String;
    if (ls != rs)
    {
      return CompareResult::Unordered;
    }
    if (ls)
    {
      return CompareT(lhs.RawString().compare(rhs.RawString()), 0);
    }
    return CompareT(Widen(lhs), Widen(rhs));  // 64 bit mantissa: exact for every operand
  }
  if (IsScalarValue(lhs) || IsScalarValue(rhs))
  {
    return CompareResult::Unordered;
  }
  return lhs == rhs ? CompareResult::Equivalent : CompareResult::Unordered;
}

namespace
{
bool Step(AnyValue& v, bool up)
{
  if (v.IsFloat())
  {
    AnyValue next{v.GetType()};
    if (!TryConvert(next, AnyValue(v.RawDouble() + (up ? 1.0 : -1.0))))
    {
      return false;
    }
    return TryConvert(v, next);
  }
  if (!v.IsInteger() || v.GetTypeCode() == TypeCode::Bool)
  {
    return false;
  }
  AnyValue next;
  if (v.IsSigned())
  {
    if (v.RawInt() == (up ? std::numeric_limits<int64>::max() : std::numeric_limits<int64>::min()))
    {
      return false;
    }
    next = AnyValue(v.RawInt() + (up ? 1 : -1));
  }
  else
  {
    if (v.RawUInt() == (up ? std::numeric_limits<uint64>::max() : 0))
    {
      return false;
    }
    next = AnyValue(up ? v.RawUInt() + 1 : v.RawUInt() - 1);
  }
  return TryConvert(v, next);
}
}  // namespace

bool Increment(AnyValue& v) { return Step(v, true); }
bool Decrement(AnyValue& v) { return Step(v, false); }

// --------------------------------------------------------------------------------------- registry

AnyTypeRegistry::AnyTypeRegistry() : m_types{}
{
  for (auto code : {TypeCode::Empty, TypeCode::Bool, TypeCode::Char8, TypeCode::Int8,
                    TypeCode::UInt8, TypeCode::Int16, TypeCode::UInt16, TypeCode::Int32,
                    TypeCode::UInt32, TypeCode::Int64, TypeCode::UInt64, TypeCode::Float32,
                    TypeCode::Float64, TypeCode::String})
  {
    m_types[ScalarName(code)] = AnyType{code};
  }
}
AnyTypeRegistry::~AnyTypeRegistry() = default;
void AnyTypeRegistry::RegisterType(AnyType type)
{
  auto name = type.GetTypeName();
  RegisterType(name, std::move(type));
}
void AnyTypeRegistry::RegisterType(const std::string& name, AnyType type)
{
  auto it = m_types.find(name);
  if (it != m_types.end())
  {
    if (it->second == type)
    {
      return;
    }
    throw InvalidOperationException("AnyTypeRegistry: other type already registered as [" + name
                                    + "]");
  }
  m_types[name] = std::move(type);
}
bool AnyTypeRegistry::HasType(const std::string& name) const
{
  return m_types.find(name) != m_types.end();
}
AnyType AnyTypeRegistry::GetType(const std::string& name) const
{
  auto it = m_types.find(name);
  if (it == m_types.end())
  {
    throw InvalidOperationException("AnyTypeRegistry: unknown type");
  }
  return it->second;
}

}  // namespace dto
}  // namespace sup
