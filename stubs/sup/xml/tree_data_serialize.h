#ifndef STUB_SUP_XML_TREE_DATA_SERIALIZE_H_
#define STUB_SUP_XML_TREE_DATA_SERIALIZE_H_
#include <sup/xml/tree_data.h>
namespace sup
{
namespace xml
{
std::string TreeDataToString(const TreeData& tree);
}  // namespace xml
}  // namespace sup
#endif
