#include <sup/dto/anyvalue.h>

#include <charconv>
#include <cmath>
#include <cstdio>
#include <cstring>
#include <fstream>
#include <limits>
#include <sstream>

namespace sup
{
namespace dto
{
namespace
{
struct Node
{
  enum Kind { kNull, kBool, kInt, kUInt, kDouble, kString, kArray, kObject } kind = kNull;
  bool b = false;
  int64 i = 0;
  uint64 u = 0;
  double d = 0;
  std::string s;
  std::vector<std::pair<std::string, Node>> kids;
  const Node* Get(const std::string& key) const
  {
    for (const auto& k : kids)
    {
      if (kind == kObject && k.first == key)
      {
        return &k.second;
      }
    }
    return nullptr;
  }
};

class Parser
{
public:
  explicit Parser(const std::string& s) : m_p{s.c_str()}, m_end{s.c_str() + s.size()} {}
  bool Document(Node& n)
  {
    if (!Value(n, 0))
    {
      return false;
    }
    Space();
    return m_p == m_end;
  }

private:
  const char* m_p;
  const char* m_end;
  void Space()
  {
    while (m_p < m_end && std::strchr(" \t\r\n", *m_p) && *m_p)
    {
      ++m_p;
    }
  }
  bool Literal(const char* word)
  {
    auto n = std::strlen(word);
    if (static_cast<std::size_t>(m_end - m_p) < n || std::strncmp(m_p, word, n) != 0)
    {
      return false;
    }
    m_p += n;
    return true;
  }
  bool String(std::string& out)
  {
    if (m_p >= m_end || *m_p != '"')
    {
      return false;
    }
    ++m_p;
    out.clear();
    while (m_p < m_end && *m_p != '"')
    {
      unsigned char c = static_cast<unsigned char>(*m_p++);
      if (c < 0x20)
      {
        return false;
      }
      if (c != '\\')
      {
        out.push_back(static_cast<char>(c));
        continue;
      }
      if (m_p >= m_end)
      {
        return false;
      }
      switch (*m_p++)
      {
      case '"': out.push_back('"'); break;
      case '\\': out.push_back('\\'); break;
      case '/': out.push_back('/'); break;
      case 'b': out.push_back('\b'); break;
      case 'f': out.push_back('\f'); break;
      case 'n': out.push_back('\n'); break;
      case 'r': out.push_back('\r'); break;
      case 't': out.push_back('\t'); break;
      case 'u':
      {
        unsigned v = 0;
        if (!Hex(v))
        {
          return false;
        }
        if (v >= 0xd800 && v < 0xdc00)
        {
          unsigned w = 0;
          if (!Literal("\\u") || !Hex(w) || w < 0xdc00 || w > 0xdfff)
          {
            return false;
          }
          v = 0x10000 + ((v - 0xd800) << 10) + (w - 0xdc00);
        }
        Utf8(out, v);
        break;
      }
      default: return false;
      }
    }
    if (m_p >= m_end)
    {
      return false;
    }
    ++m_p;
    return true;
  }
  bool Hex(unsigned& v)
  {
    if (m_end - m_p < 4)
    {
      return false;
    }
    for (int i = 0; i < 4; ++i)
    {
      char c = *m_p++;
      v <<= 4;
      if (c >= '0' && c <= '9') v |= static_cast<unsigned>(c - '0');
      else if (c >= 'a' && c <= 'f') v |= static_cast<unsigned>(c - 'a' + 10);
      else if (c >= 'A' && c <= 'F') v |= static_cast<unsigned>(c - 'A' + 10);
      else return false;
    }
    return true;
  }
  static void Utf8(std::string& out, unsigned v)
  {
    auto put = [&out](unsigned x) { out.push_back(static_cast<char>(x)); };
    if (v < 0x80) { put(v); }
    else if (v < 0x800) { put(0xc0 | v >> 6); put(0x80 | (v & 63)); }
    else if (v < 0x10000) { put(0xe0 | v >> 12); put(0x80 | (v >> 6 & 63)); put(0x80 | (v & 63)); }
    else
    {
      put(0xf0 | v >> 18); put(0x80 | (v >> 12 & 63)); put(0x80 | (v >> 6 & 63));
      put(0x80 | (v & 63));
    }
  }
  bool Number(Node& n)
  {
    auto start = m_p;
    bool integral = true;
    if (m_p < m_end && *m_p == '-') ++m_p;
    if (Literal("Infinity") || Literal("Inf"))
    {
      n.kind = Node::kDouble;
      n.d = *start == '-' ? -INFINITY : INFINITY;
      return true;
    }
    auto digits = [this]()
    {
      auto s = m_p;
      while (m_p < m_end && *m_p >= '0' && *m_p <= '9') ++m_p;
      return m_p - s;
    };
    auto first = m_p;
    auto count = digits();
    if (count == 0 || (count > 1 && *first == '0'))
    {
      return false;
    }
    if (m_p < m_end && *m_p == '.')
    {
      ++m_p;
      integral = false;
      if (digits() == 0) return false;
    }
    if (m_p < m_end && (*m_p == 'e' || *m_p == 'E'))
    {
      ++m_p;
      integral = false;
      if (m_p < m_end && (*m_p == '+' || *m_p == '-')) ++m_p;
      if (digits() == 0) return false;
    }
    if (integral)
    {
      if (*start == '-')
      {
        if (std::from_chars(start, m_p, n.i).ec == std::errc{})
        {
          n.kind = Node::kInt;
          return true;
        }
      }
      else if (std::from_chars(start, m_p, n.u).ec == std::errc{})
      {
        n.kind = Node::kUInt;
        return true;
      }
    }
    auto r = std::from_chars(start, m_p, n.d);
    if (r.ec != std::errc{})
    {
      return false;
    }
    n.kind = Node::kDouble;
    return true;
  }
  bool Value(Node& n, int depth)
  {
    Space();
    if (m_p >= m_end || depth > 200)
    {
      return false;
    }
    switch (*m_p)
    {
    case 'n': n.kind = Node::kNull; return Literal("null");
    case 't': n.kind = Node::kBool; n.b = true; return Literal("true");
    case 'f': n.kind = Node::kBool; n.b = false; return Literal("false");
    case 'N': n.kind = Node::kDouble; n.d = NAN; return Literal("NaN");
    case 'I': n.kind = Node::kDouble; n.d = INFINITY; return Literal("Infinity") || Literal("Inf");
    case '"': n.kind = Node::kString; return String(n.s);
    case '[':
      n.kind = Node::kArray;
      ++m_p;
      Space();
      if (m_p < m_end && *m_p == ']') { ++m_p; return true; }
      while (true)
      {
        n.kids.emplace_back();
        if (!Value(n.kids.back().second, depth + 1)) return false;
        Space();
        if (m_p >= m_end) return false;
        if (*m_p == ']') { ++m_p; return true; }
        if (*m_p++ != ',') return false;
      }
    case '{':
      n.kind = Node::kObject;
      ++m_p;
      Space();
      if (m_p < m_end && *m_p == '}') { ++m_p; return true; }
      while (true)
      {
        n.kids.emplace_back();
        Space();
        if (!String(n.kids.back().first)) return false;
        Space();
        if (m_p >= m_end || *m_p++ != ':') return false;
        if (!Value(n.kids.back().second, depth + 1)) return false;
        Space();
        if (m_p >= m_end) return false;
        if (*m_p == '}') { ++m_p; return true; }
        if (*m_p++ != ',') return false;
      }
    default: return Number(n);
    }
  }
};

constexpr uint64 kMaxElements = 1 << 16;

AnyType TypeFromNode(const Node& n, const AnyTypeRegistry& registry)
{
  auto type = n.Get("type");
  if (n.kind != Node::kObject || !type || type->kind != Node::kString)
  {
    throw ParseException("AnyType: JSON object with type expected");
  }
  if (auto attrs = n.Get("attributes"))
  {
    if (attrs->kind != Node::kArray || n.kids.size() != 2)
    {
      throw ParseException("AnyType: JSON array of attributes expected");
    }
    auto result = AnyType::Struct(type->s);
    for (const auto& k : attrs->kids)
    {
      if (k.second.kind != Node::kObject || k.second.kids.size() != 1)
      {
        throw ParseException("AnyType: attribute with single member expected");
      }
      result.AddMember(k.second.kids[0].first, TypeFromNode(k.second.kids[0].second, registry));
    }
    return result;
  }
  if (auto elem = n.Get("element"))
  {
    auto mult = n.Get("multiplicity");
    if (n.kids.size() != (mult ? 3u : 2u)
        || (mult && (mult->kind != Node::kUInt || mult->u > kMaxElements)))
    {
      throw ParseException("AnyType: multiplicity expected");
    }
    return AnyType(mult ? mult->u : 0, TypeFromNode(*elem, registry), type->s);
  }
  if (n.kids.size() != 1 || !registry.HasType(type->s))
  {
    throw ParseException("AnyType: unknown type [" + type->s + "]");
  }
  return registry.GetType(type->s);
}

AnyValue ValueFromNode(const Node& n, const AnyType& type)
{
  switch (type.GetTypeCode())
  {
  case TypeCode::Empty:
    if (n.kind != Node::kNull)
    {
      throw ParseException("AnyValue: null expected");
    }
    return AnyValue{};
  case TypeCode::Struct:
  {
    if (n.kind != Node::kObject)
    {
      throw ParseException("AnyValue: object expected");
    }
    AnyValue result{type};  // members that are not mentioned keep their default value
    for (const auto& k : n.kids)
    {
      if (!type.HasField(k.first))
      {
        throw ParseException("AnyValue: unexpected member");
      }
      result[k.first] = ValueFromNode(k.second, type[k.first]);
    }
    return result;
  }
  case TypeCode::Array:
  {
    auto element_type = type.ElementType();
    if (n.kind != Node::kArray
        || (type.NumberOfElements() != 0 && n.kids.size() != type.NumberOfElements()))
    {
      throw ParseException("AnyValue: array expected");
    }
    AnyValue result(n.kids.size(), element_type, type.GetTypeName());  // 0: unbounded
    for (std::size_t i = 0; i < n.kids.size(); ++i)
    {
      result[i] = ValueFromNode(n.kids[i].second, element_type);
    }
    return result;
  }
  case TypeCode::String:
    if (n.kind != Node::kString)
    {
      throw ParseException("AnyValue: string expected");
    }
    return AnyValue(n.s);
  case TypeCode::Bool:
    if (n.kind == Node::kBool)
    {
      return AnyValue(n.b);
    }
    break;
  default: break;
  }
  AnyValue result{type};
  switch (n.kind)
  {
  case Node::kInt: result.ConvertFrom(AnyValue(n.i)); break;
  case Node::kUInt: result.ConvertFrom(AnyValue(n.u)); break;
  case Node::kDouble: result.ConvertFrom(AnyValue(n.d)); break;
  default: throw ParseException("AnyValue: number expected");
  }
  return result;
}

AnyValue FullValueFromNode(const Node& n, const AnyTypeRegistry& registry)
{
  const Node* type = nullptr;
  const Node* instance = nullptr;
  if (n.kind == Node::kArray && n.kids.size() == 3)
  {
    type = n.kids[1].second.Get("datatype");
    instance = n.kids[2].second.Get("instance");
  }
  if (!type || !instance)
  {
    throw ParseException("AnyValue: datatype and instance expected");
  }
  return ValueFromNode(*instance, TypeFromNode(*type, registry));
}

bool ReadFile(const std::string& filename, std::string& out)
{
  std::ifstream f(filename);
  if (!f)
  {
    return false;
  }
  std::ostringstream oss;
  oss << f.rdbuf();
  out = oss.str();
  return !f.bad();
}

void Quote(std::string& out, const std::string& s)
{
  out += '"';
  for (unsigned char c : s)
  {
    switch (c)
    {
    case '"': out += "\\\""; break;
    case '\\': out += "\\\\"; break;
    case '\n': out += "\\n"; break;
    case '\r': out += "\\r"; break;
    case '\t': out += "\\t"; break;
    default:
      if (c < 0x20)
      {
        char buf[8];
        std::snprintf(buf, sizeof buf, "\\u%04x", c);
        out += buf;
      }
      else
      {
        out += static_cast<char>(c);
      }
    }
  }
  out += '"';
}

void WriteValue(std::string& out, const AnyValue& v, const std::string& nl)
{
  auto inner = nl.empty() ? nl : nl + "  ";
  switch (v.GetTypeCode())
  {
  case TypeCode::Empty: out += "null"; return;
  case TypeCode::Bool: out += v.RawInt() ? "true" : "false"; return;
  case TypeCode::String: Quote(out, v.RawString()); return;
  case TypeCode::Struct:
  {
    out += '{';
    bool first = true;
    for (const auto& name : v.MemberNames())
    {
      out += first ? "" : ",";
      first = false;
      out += inner;
      Quote(out, name);
      out += ':';
      WriteValue(out, v[name], inner);
    }
    out += nl + '}';
    return;
  }
  case TypeCode::Array:
    out += '[';
    for (std::size_t i = 0; i < v.NumberOfElements(); ++i)
    {
      out += i ? "," : "";
      out += inner;
      WriteValue(out, v[i], inner);
    }
    out += nl + ']';
    return;
  default: break;
  }
  if (v.IsFloat())
  {
    auto d = v.RawDouble();
    if (std::isnan(d)) { out += "NaN"; return; }
    if (std::isinf(d)) { out += d < 0 ? "-Infinity" : "Infinity"; return; }
    char buf[64];
    std::snprintf(buf, sizeof buf, "%.17g", d);
    auto shorter = std::to_chars(buf, buf + sizeof buf, d);
    std::string s(buf, shorter.ptr);
    if (s.find_first_of(".e") == std::string::npos)
    {
      s += ".0";
    }
    out += s;
    return;
  }
  out += v.IsSigned() ? std::to_string(v.RawInt()) : std::to_string(v.RawUInt());
}

void WriteType(std::string& out, const AnyType& t)
{
  out += "{\"type\":";
  Quote(out, t.GetTypeName());
  if (t.GetTypeCode() == TypeCode::Struct)
  {
    out += ",\"attributes\":[";
    bool first = true;
    for (const auto& m : t.Members())
    {
      out += first ? "{" : ",{";
      first = false;
      Quote(out, m.first);
      out += ':';
      WriteType(out, m.second);
      out += '}';
    }
    out += ']';
  }
  if (t.GetTypeCode() == TypeCode::Array)
  {
    out += ",\"multiplicity\":" + std::to_string(t.NumberOfElements()) + ",\"element\":";
    WriteType(out, t.ElementType());
  }
  out += '}';
}

template <typename F> bool Guarded(F f)
{
  try
  {
    return f();
  }
  catch (const MessageException&)
  {
    return false;
  }
}
}  // namespace

std::string ValuesToJSONString(const AnyValue& v, bool pretty)
{
  std::string out;
  WriteValue(out, v, pretty ? "\n" : "");
  return out;
}
std::string AnyTypeToJSONString(const AnyType& t, bool)
{
  std::string out;
  WriteType(out, t);
  return out;
}
std::string AnyValueToJSONString(const AnyValue& v, bool pretty)
{
  std::string nl = pretty ? "\n" : "";
  return "[" + nl + "{\"encoding\":\"sup-dto/v1.0/JSON\"}," + nl + "{\"datatype\":"
         + AnyTypeToJSONString(v.GetType()) + "}," + nl + "{\"instance\":"
         + ValuesToJSONString(v, pretty) + "}" + nl + "]";
}
std::string PrintAnyValue(const AnyValue& v)
{
  return v.GetTypeName() + " " + ValuesToJSONString(v);
}
void AnyValueToJSONFile(const AnyValue& v, const std::string& filename, bool pretty)
{
  std::ofstream f(filename);
  if (!f)
  {
    throw SerializeException("could not open file [" + filename + "]");
  }
  f << AnyValueToJSONString(v, pretty);
  f.close();
  if (!f)
  {
    throw SerializeException("could not write file [" + filename + "]");
  }
}

JSONAnyValueParser::JSONAnyValueParser() : m_value{} {}
JSONAnyValueParser::~JSONAnyValueParser() = default;
bool JSONAnyValueParser::ParseString(const std::string& json, const AnyTypeRegistry* registry)
{
  return Guarded([&]()
  {
    Node n;
    if (!Parser(json).Document(n))
    {
      return false;
    }
    AnyTypeRegistry local;
    m_value.reset(new AnyValue(FullValueFromNode(n, registry ? *registry : local)));
    return true;
  });
}
bool JSONAnyValueParser::TypedParseString(const AnyType& type, const std::string& json)
{
  return Guarded([&]()
  {
    Node n;
    if (!Parser(json).Document(n))
    {
      return false;
    }
    m_value.reset(new AnyValue(ValueFromNode(n, type)));
    return true;
  });
}
bool JSONAnyValueParser::ParseFile(const std::string& filename, const AnyTypeRegistry* registry)
{
  std::string content;
  return ReadFile(filename, content) && ParseString(content, registry);
}
AnyValue JSONAnyValueParser::MoveAnyValue()
{
  AnyValue result;
  if (m_value)
  {
    result = *m_value;
    m_value.reset();
  }
  return result;
}

JSONAnyTypeParser::JSONAnyTypeParser() : m_type{} {}
JSONAnyTypeParser::~JSONAnyTypeParser() = default;
bool JSONAnyTypeParser::ParseString(const std::string& json, const AnyTypeRegistry* registry)
{
  return Guarded([&]()
  {
    Node n;
    if (!Parser(json).Document(n))
    {
      return false;
    }
    AnyTypeRegistry local;
    m_type.reset(new AnyType(TypeFromNode(n, registry ? *registry : local)));
    return true;
  });
}
bool JSONAnyTypeParser::ParseFile(const std::string& filename, const AnyTypeRegistry* registry)
{
  std::string content;
  return ReadFile(filename, content) && ParseString(content, registry);
}
AnyType JSONAnyTypeParser::MoveAnyType()
{
  AnyType result;
  if (m_type)
  {
    result = *m_type;
    m_type.reset();
  }
  return result;
}

}  // namespace dto
}  // namespace sup
