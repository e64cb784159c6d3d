#pragma once
#include <sup/xml/tree_data.h>
namespace sup
{
namespace xml
{
std::unique_ptr<TreeData> TreeDataFromFile(const std::string& filename);
std::unique_ptr<TreeData> TreeDataFromString(const std::string& xml);
}  // namespace xml
}  // namespace sup
