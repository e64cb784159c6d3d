// Stand-in for sup-dto, which is not available offline: only what oac-tree and its unit tests use.
// Value semantics throughout, no shared state, so it introduces no data races of its own.
#ifndef STANDIN_SUP_DTO_ANYVALUE_H_
#define STANDIN_SUP_DTO_ANYVALUE_H_

#include <cstddef>
#include <cstdint>
#include <initializer_list>
#include <map>
#include <memory>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>

namespace sup
{
namespace dto
{
using boolean = bool;
using char8 = char;
using int8 = std::int8_t;
using uint8 = std::uint8_t;
using int16 = std::int16_t;
using uint16 = std::uint16_t;
using int32 = std::int32_t;
using uint32 = std::uint32_t;
using int64 = std::int64_t;
using uint64 = std::uint64_t;
using float32 = float;
using float64 = double;

enum class TypeCode : uint32
{
  Empty = 0, Bool, Char8, Int8, UInt8, Int16, UInt16, Int32, UInt32, Int64, UInt64,
  Float32, Float64, String, Struct, Array
};

class MessageException : public std::runtime_error
{
public:
  explicit MessageException(const std::string& m) : std::runtime_error{m} {}
};
#define STANDIN_EXCEPTION(NAME) \
  class NAME : public MessageException \
  { \
  public: \
    explicit NAME(const std::string& m) : MessageException{m} {} \
  };
STANDIN_EXCEPTION(InvalidOperationException)
STANDIN_EXCEPTION(InvalidConversionException)
STANDIN_EXCEPTION(SerializeException)
STANDIN_EXCEPTION(ParseException)
#undef STANDIN_EXCEPTION

class AnyType
{
public:
  AnyType();
  explicit AnyType(TypeCode code);
  AnyType(std::initializer_list<std::pair<std::string, AnyType>> members,
          const std::string& name = {});
  AnyType(std::size_t size, const AnyType& element, const std::string& name = {});
  AnyType(const AnyType& other);
  AnyType& operator=(const AnyType& other);
  AnyType(AnyType&& other) noexcept;
  AnyType& operator=(AnyType&& other) noexcept;
  ~AnyType();

  TypeCode GetTypeCode() const { return m_code; }
  std::string GetTypeName() const;
  AnyType& AddMember(const std::string& name, const AnyType& type);
  std::vector<std::string> MemberNames() const;
  std::size_t NumberOfMembers() const { return m_members.size(); }
  AnyType ElementType() const;
  std::size_t NumberOfElements() const { return m_size; }
  bool HasField(const std::string& name) const;
  AnyType operator[](const std::string& name) const;
  bool operator==(const AnyType& other) const;
  bool operator!=(const AnyType& other) const { return !(*this == other); }

  const std::vector<std::pair<std::string, AnyType>>& Members() const { return m_members; }
  static AnyType Struct(const std::string& name);

private:
  TypeCode m_code;
  std::string m_name;
  std::vector<std::pair<std::string, AnyType>> m_members;
  std::unique_ptr<AnyType> m_element;
  std::size_t m_size;
};

inline const AnyType EmptyType{TypeCode::Empty};
inline const AnyType BooleanType{TypeCode::Bool};
inline const AnyType Character8Type{TypeCode::Char8};
inline const AnyType SignedInteger8Type{TypeCode::Int8};
inline const AnyType UnsignedInteger8Type{TypeCode::UInt8};
inline const AnyType SignedInteger16Type{TypeCode::Int16};
inline const AnyType UnsignedInteger16Type{TypeCode::UInt16};
inline const AnyType SignedInteger32Type{TypeCode::Int32};
inline const AnyType UnsignedInteger32Type{TypeCode::UInt32};
inline const AnyType SignedInteger64Type{TypeCode::Int64};
inline const AnyType UnsignedInteger64Type{TypeCode::UInt64};
inline const AnyType Float32Type{TypeCode::Float32};
inline const AnyType Float64Type{TypeCode::Float64};
inline const AnyType StringType{TypeCode::String};

// A vector whose elements stay where they are (references to members survive later additions).
template <class T> class StableVector
{
public:
  StableVector() = default;
  StableVector(const StableVector& o) { for (auto& e : o.m_items) push_back(*e); }
  StableVector(StableVector&&) = default;
  StableVector& operator=(StableVector o) { m_items.swap(o.m_items); return *this; }
  struct iterator
  {
    typename std::vector<std::unique_ptr<T>>::const_iterator it;
    T& operator*() const { return **it; }
    iterator& operator++() { ++it; return *this; }
    bool operator!=(const iterator& o) const { return it != o.it; }
  };
  iterator begin() const { return {m_items.begin()}; }
  iterator end() const { return {m_items.end()}; }
  std::size_t size() const { return m_items.size(); }
  T& operator[](std::size_t i) { return *m_items[i]; }
  const T& operator[](std::size_t i) const { return *m_items[i]; }
  void push_back(T v) { m_items.push_back(std::make_unique<T>(std::move(v))); }
  void clear() { m_items.clear(); }
  void assign(std::size_t n, const T& v) { clear(); while (n-- > 0) push_back(v); }
  void swap(StableVector& o) { m_items.swap(o.m_items); }
  bool operator==(const StableVector& o) const
  {
    if (size() != o.size()) return false;
    for (std::size_t i = 0; i < size(); ++i)
      if (!(*m_items[i] == *o.m_items[i])) return false;
    return true;
  }

private:
  std::vector<std::unique_ptr<T>> m_items;
};

class AnyValue
{
public:
  AnyValue();
  explicit AnyValue(const AnyType& type);
  AnyValue(boolean v);
  AnyValue(char8 v);
  AnyValue(int8 v);
  AnyValue(uint8 v);
  AnyValue(int16 v);
  AnyValue(uint16 v);
  AnyValue(int32 v);
  AnyValue(uint32 v);
  AnyValue(int64 v);
  AnyValue(uint64 v);
  AnyValue(long long v) : AnyValue{static_cast<int64>(v)} {}
  AnyValue(unsigned long long v) : AnyValue{static_cast<uint64>(v)} {}
  AnyValue(float32 v);
  AnyValue(float64 v);
  AnyValue(const std::string& v);
  AnyValue(const char* v);
  AnyValue(const AnyType& type, const AnyValue& value);
  AnyValue(std::initializer_list<std::pair<std::string, AnyValue>> members,
           const std::string& name = {});
  AnyValue(std::size_t size, const AnyType& element, const std::string& name = {});
  AnyValue(const AnyValue& other);
  AnyValue(AnyValue&& other) noexcept;
  AnyValue& operator=(const AnyValue& other);
  ~AnyValue();

  AnyType GetType() const;
  TypeCode GetTypeCode() const { return m_code; }
  std::string GetTypeName() const;

  AnyValue& ConvertFrom(const AnyValue& other);

  AnyValue& AddMember(const std::string& name, const AnyValue& value);
  AnyValue& AddElement(const AnyValue& value);
  std::vector<std::string> MemberNames() const;
  std::size_t NumberOfMembers() const { return m_code == TypeCode::Struct ? m_names.size() : 0; }
  std::size_t NumberOfElements() const { return m_code == TypeCode::Array ? m_children.size() : 0; }
  bool HasField(const std::string& path) const;
  AnyValue& operator[](const std::string& path);
  const AnyValue& operator[](const std::string& path) const;
  AnyValue& operator[](std::size_t idx);
  const AnyValue& operator[](std::size_t idx) const;

  bool operator==(const AnyValue& other) const;
  bool operator!=(const AnyValue& other) const { return !(*this == other); }

  template <typename T> T As() const;
  template <typename T> bool As(T& v) const
  {
    try
    {
      v = As<T>();
      return true;
    }
    catch (const MessageException&)
    {
      return false;
    }
  }

  // Internal representation access for the stand-in's own helpers.
  bool IsInteger() const;
  bool IsSigned() const;
  bool IsFloat() const;
  int64 RawInt() const { return m_int; }
  uint64 RawUInt() const { return m_uint; }
  double RawDouble() const { return m_double; }
  const std::string& RawString() const { return m_string; }

private:
  void SetLock(bool locked);
  void ConvertImpl(const AnyValue& other);
  void CopyContent(const AnyValue& other);
  AnyValue* Find(const std::string& path);
  TypeCode m_code;
  bool m_locked;
  int64 m_int;    // Bool, Char8, signed integers
  uint64 m_uint;  // unsigned integers
  double m_double;
  std::string m_string;
  std::string m_name;
  std::vector<std::string> m_names;
  StableVector<AnyValue> m_children;
  AnyType m_element_type;
};

template <> boolean AnyValue::As<boolean>() const;
template <> char8 AnyValue::As<char8>() const;
template <> int8 AnyValue::As<int8>() const;
template <> uint8 AnyValue::As<uint8>() const;
template <> int16 AnyValue::As<int16>() const;
template <> uint16 AnyValue::As<uint16>() const;
template <> int32 AnyValue::As<int32>() const;
template <> uint32 AnyValue::As<uint32>() const;
template <> int64 AnyValue::As<int64>() const;
template <> uint64 AnyValue::As<uint64>() const;
template <> float32 AnyValue::As<float32>() const;
template <> float64 AnyValue::As<float64>() const;
template <> std::string AnyValue::As<std::string>() const;

AnyValue EmptyStruct(const std::string& name = {});
AnyType EmptyStructType(const std::string& name = {});
bool IsEmptyValue(const AnyValue& v);
bool IsScalarValue(const AnyValue& v);
bool IsArrayValue(const AnyValue& v);
bool IsStructValue(const AnyValue& v);
bool IsEmptyType(const AnyType& t);
bool IsScalarType(const AnyType& t);
bool IsStructType(const AnyType& t);
bool IsArrayType(const AnyType& t);
bool TryAssign(AnyValue& dest, const AnyValue& src) noexcept;
bool TryConvert(AnyValue& dest, const AnyValue& src) noexcept;
bool TryAssignIfEmptyOrConvert(AnyValue& dest, const AnyValue& src) noexcept;

enum class CompareResult
{
  Less, Equivalent, Greater, Unordered
};
CompareResult Compare(const AnyValue& lhs, const AnyValue& rhs);
bool Increment(AnyValue& v);
bool Decrement(AnyValue& v);

std::string ValuesToJSONString(const AnyValue& v, bool pretty = false);
std::string AnyTypeToJSONString(const AnyType& t, bool pretty = false);
std::string AnyValueToJSONString(const AnyValue& v, bool pretty = false);
std::string PrintAnyValue(const AnyValue& v);
void AnyValueToJSONFile(const AnyValue& v, const std::string& filename, bool pretty = false);

class AnyTypeRegistry
{
public:
  AnyTypeRegistry();
  ~AnyTypeRegistry();
  void RegisterType(AnyType type);
  void RegisterType(const std::string& name, AnyType type);
  bool HasType(const std::string& name) const;
  AnyType GetType(const std::string& name) const;

private:
  std::map<std::string, AnyType> m_types;
};

class JSONAnyValueParser
{
public:
  JSONAnyValueParser();
  ~JSONAnyValueParser();
  bool ParseString(const std::string& json, const AnyTypeRegistry* registry = nullptr);
  bool TypedParseString(const AnyType& type, const std::string& json);
  bool ParseFile(const std::string& filename, const AnyTypeRegistry* registry = nullptr);
  AnyValue MoveAnyValue();

private:
  std::unique_ptr<AnyValue> m_value;
};

class JSONAnyTypeParser
{
public:
  JSONAnyTypeParser();
  ~JSONAnyTypeParser();
  bool ParseString(const std::string& json, const AnyTypeRegistry* registry = nullptr);
  bool ParseFile(const std::string& filename, const AnyTypeRegistry* registry = nullptr);
  AnyType MoveAnyType();

private:
  std::unique_ptr<AnyType> m_type;
};

}  // namespace dto
}  // namespace sup

#endif
