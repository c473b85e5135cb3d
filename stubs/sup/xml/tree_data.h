#ifndef STUB_SUP_XML_TREE_DATA_H_
#define STUB_SUP_XML_TREE_DATA_H_
#include <string>
#include <utility>
#include <vector>
namespace sup
{
namespace xml
{
class TreeData
{
public:
  using Attribute = std::pair<std::string, std::string>;
  explicit TreeData(const std::string& node_name);
  std::string GetNodeName() const;
  std::string GetContent() const;
  void SetContent(const std::string& content);
  bool HasAttribute(const std::string& name) const;
  std::string GetAttribute(const std::string& name) const;
  void AddAttribute(const std::string& name, const std::string& value);
  const std::vector<Attribute>& Attributes() const;
  std::size_t GetNumberOfAttributes() const;
  std::size_t GetNumberOfChildren() const;
  void AddChild(const TreeData& child);
  const std::vector<TreeData>& Children() const;

private:
  std::string m_node_name;
  std::string m_content;
  std::vector<Attribute> m_attributes;
  std::vector<TreeData> m_children;
};
}  // namespace xml
}  // namespace sup
#endif
