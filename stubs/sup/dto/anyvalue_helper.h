#ifndef STUB_SUP_DTO_ANYVALUE_HELPER_H_
#define STUB_SUP_DTO_ANYVALUE_HELPER_H_
#include <sup/dto/anyvalue.h>
namespace sup
{
namespace dto
{
std::string PrintAnyValue(const AnyValue& anyvalue);
std::string AnyValueToJSONString(const AnyValue& anyvalue, bool pretty = false);
std::string ValuesToJSONString(const AnyValue& anyvalue, bool pretty = false);
void AnyValueToJSONFile(const AnyValue& anyvalue, const std::string& filename, bool pretty = false);
bool TryAssign(AnyValue& dest, const AnyValue& src);
bool TryConvert(AnyValue& dest, const AnyValue& src);
bool TryAssignIfEmptyOrConvert(AnyValue& dest, const AnyValue& src);
}  // namespace dto
}  // namespace sup
#endif
