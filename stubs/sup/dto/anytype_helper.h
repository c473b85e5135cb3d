#ifndef STUB_SUP_DTO_ANYTYPE_HELPER_H_
#define STUB_SUP_DTO_ANYTYPE_HELPER_H_
#include <sup/dto/anytype.h>
#include <sup/dto/anytype_registry.h>
namespace sup
{
namespace dto
{
std::string AnyTypeToJSONString(const AnyType& anytype, bool pretty = false);
}  // namespace dto
}  // namespace sup
#endif
