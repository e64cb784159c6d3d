// Stand-in for sup-utils' sup::xml.
#pragma once
#include <memory>
#include <string>
#include <utility>
#include <vector>
namespace sup
{
namespace xml
{
class TreeData
{
public:
  explicit TreeData(const std::string& node_name);
  ~TreeData();
  TreeData(const TreeData&);
  TreeData(TreeData&&) noexcept;
  TreeData& operator=(const TreeData&);
  TreeData& operator=(TreeData&&) noexcept;
  std::string GetNodeName() const;
  const std::vector<std::pair<std::string, std::string>>& Attributes() const;
  std::size_t GetNumberOfAttributes() const;
  bool HasAttribute(const std::string& name) const;
  std::string GetAttribute(const std::string& name) const;
  void AddAttribute(const std::string& name, const std::string& value);
  void AddChild(const TreeData& child);
  std::size_t GetNumberOfChildren() const;
  const std::vector<TreeData>& Children() const;
  void SetContent(const std::string& content);
  std::string GetContent() const;

private:
  std::string m_name;
  std::string m_content;
  std::vector<std::pair<std::string, std::string>> m_attributes;
  std::vector<TreeData> m_children;
};
}  // namespace xml
}  // namespace sup
