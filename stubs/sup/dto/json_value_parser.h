#ifndef STUB_SUP_DTO_JSON_VALUE_PARSER_H_
#define STUB_SUP_DTO_JSON_VALUE_PARSER_H_
#include <sup/dto/anytype_registry.h>
#include <sup/dto/anyvalue.h>
namespace sup
{
namespace dto
{
class JSONAnyValueParser
{
public:
  JSONAnyValueParser();
  ~JSONAnyValueParser();
  bool ParseString(const std::string& json_str, const AnyTypeRegistry* anytype_registry = nullptr);
  bool ParseFile(const std::string& filename, const AnyTypeRegistry* anytype_registry = nullptr);
  bool TypedParseString(const AnyType& anytype, const std::string& json_str);
  bool TypedParseFile(const AnyType& anytype, const std::string& filename);
  AnyValue MoveAnyValue();

private:
  std::unique_ptr<AnyValue> m_anyvalue;
};
}  // namespace dto
}  // namespace sup
#endif
