// Stand-in for the sup-dto header of the same name (the dependency is not installed here).
#ifndef STUB_SUP_DTO_BASIC_SCALAR_TYPES_H_
#define STUB_SUP_DTO_BASIC_SCALAR_TYPES_H_
#include <cstdint>
namespace sup
{
namespace dto
{
using boolean = bool;
using char8 = char;
using int8 = std::int8_t;
using uint8 = std::uint8_t;
using int16 = std::int16_t;
using uint16 = std::uint16_t;
using int32 = std::int32_t;
using uint32 = std::uint32_t;
using int64 = std::int64_t;
using uint64 = std::uint64_t;
using float32 = float;
using float64 = double;
}  // namespace dto
}  // namespace sup
#endif
