#ifndef STUB_SUP_DTO_ANYVALUE_OPERATIONS_H_
#define STUB_SUP_DTO_ANYVALUE_OPERATIONS_H_
#include <sup/dto/anyvalue.h>
namespace sup
{
namespace dto
{
enum class CompareResult { Equivalent, Less, Greater, Unordered };
CompareResult Compare(const AnyValue& lhs, const AnyValue& rhs);
bool Increment(AnyValue& value);
bool Decrement(AnyValue& value);
}  // namespace dto
}  // namespace sup
#endif
