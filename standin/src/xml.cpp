#include <sup/xml/exceptions.h>
#include <sup/xml/tree_data.h>
#include <sup/xml/tree_data_parser.h>
#include <sup/xml/tree_data_serialize.h>

#include <libxml/parser.h>
#include <libxml/tree.h>

#include <fstream>

namespace sup
{
namespace xml
{
TreeData::TreeData(const std::string& node_name) : m_name{node_name} {}
TreeData::~TreeData() = default;
TreeData::TreeData(const TreeData&) = default;
TreeData::TreeData(TreeData&&) noexcept = default;
TreeData& TreeData::operator=(const TreeData&) = default;
TreeData& TreeData::operator=(TreeData&&) noexcept = default;
std::string TreeData::GetNodeName() const { return m_name; }
const std::vector<std::pair<std::string, std::string>>& TreeData::Attributes() const
{
  return m_attributes;
}
std::size_t TreeData::GetNumberOfAttributes() const { return m_attributes.size(); }
bool TreeData::HasAttribute(const std::string& name) const
{
  for (const auto& a : m_attributes)
  {
    if (a.first == name)
    {
      return true;
    }
  }
  return false;
}
std::string TreeData::GetAttribute(const std::string& name) const
{
  for (const auto& a : m_attributes)
  {
    if (a.first == name)
    {
      return a.second;
    }
  }
  return {};
}
void TreeData::AddAttribute(const std::string& name, const std::string& value)
{
  if (HasAttribute(name))
  {
    throw KeyNotAllowedException("TreeData::AddAttribute: attribute exists");
  }
  m_attributes.emplace_back(name, value);
}
void TreeData::AddChild(const TreeData& child) { m_children.push_back(child); }
std::size_t TreeData::GetNumberOfChildren() const { return m_children.size(); }
const std::vector<TreeData>& TreeData::Children() const { return m_children; }
void TreeData::SetContent(const std::string& content) { m_content = content; }
std::string TreeData::GetContent() const { return m_content; }

namespace
{
std::string Str(const xmlChar* s) { return s ? reinterpret_cast<const char*>(s) : ""; }

std::string Trim(const std::string& s)
{
  const char* ws = " \t\r\n";
  auto b = s.find_first_not_of(ws);
  return b == std::string::npos ? "" : s.substr(b, s.find_last_not_of(ws) - b + 1);
}

TreeData FromNode(xmlDocPtr doc, xmlNodePtr node)
{
  TreeData result{Str(node->name)};
  for (auto a = node->properties; a; a = a->next)
  {
    auto value = xmlNodeListGetString(doc, a->children, 1);
    result.AddAttribute(Str(a->name), Str(value));
    xmlFree(value);
  }
  for (auto c = node->children; c; c = c->next)
  {
    if (c->type == XML_ELEMENT_NODE)
    {
      result.AddChild(FromNode(doc, c));
    }
    else if (c->type == XML_TEXT_NODE || c->type == XML_CDATA_SECTION_NODE)
    {
      auto content = Trim(Str(c->content));
      if (!content.empty())
      {
        result.SetContent(content);
      }
    }
  }
  return result;
}

std::unique_ptr<TreeData> FromDocument(xmlDocPtr doc)
{
  if (!doc)
  {
    throw ParseException("TreeData: could not parse XML");
  }
  std::unique_ptr<xmlDoc, void (*)(xmlDocPtr)> guard(doc, xmlFreeDoc);
  auto root = xmlDocGetRootElement(doc);
  if (!root)
  {
    throw ParseException("TreeData: no root element");
  }
  return std::make_unique<TreeData>(FromNode(doc, root));
}
constexpr int kOptions = XML_PARSE_NOERROR | XML_PARSE_NOWARNING | XML_PARSE_NONET;

void Escape(std::string& out, const std::string& s)
{
  for (char c : s)
  {
    switch (c)
    {
    case '<': out += "&lt;"; break;
    case '>': out += "&gt;"; break;
    case '&': out += "&amp;"; break;
    case '"': out += "&quot;"; break;
    case '\n': out += "&#10;"; break;
    case '\r': out += "&#13;"; break;
    case '\t': out += "&#9;"; break;
    default: out += c;
    }
  }
}
void Write(std::string& out, const TreeData& d, int indent)
{
  std::string pad(indent * 2, ' ');
  out += pad + "<" + d.GetNodeName();
  for (const auto& a : d.Attributes())
  {
    out += " " + a.first + "=\"";
    Escape(out, a.second);
    out += "\"";
  }
  if (d.Children().empty() && d.GetContent().empty())
  {
    out += "/>\n";
    return;
  }
  out += ">";
  Escape(out, d.GetContent());
  if (!d.Children().empty())
  {
    out += "\n";
    for (const auto& c : d.Children())
    {
      Write(out, c, indent + 1);
    }
    out += pad;
  }
  out += "</" + d.GetNodeName() + ">\n";
}
}  // namespace

std::unique_ptr<TreeData> TreeDataFromFile(const std::string& filename)
{
  return FromDocument(xmlReadFile(filename.c_str(), nullptr, kOptions));
}
std::unique_ptr<TreeData> TreeDataFromString(const std::string& xml)
{
  return FromDocument(
      xmlReadMemory(xml.data(), static_cast<int>(xml.size()), nullptr, nullptr, kOptions));
}
std::string TreeDataToString(const TreeData& data)
{
  std::string out = "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n";
  Write(out, data, 0);
  return out;
}
void TreeDataToFile(const std::string& filename, const TreeData& data)
{
  std::ofstream(filename) << TreeDataToString(data);
}
}  // namespace xml
}  // namespace sup
