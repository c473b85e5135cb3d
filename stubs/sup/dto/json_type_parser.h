#ifndef STUB_SUP_DTO_JSON_TYPE_PARSER_H_
#define STUB_SUP_DTO_JSON_TYPE_PARSER_H_
#include <sup/dto/anytype.h>
#include <sup/dto/anytype_registry.h>
namespace sup
{
namespace dto
{
class JSONAnyTypeParser
{
public:
  JSONAnyTypeParser();
  ~JSONAnyTypeParser();
  bool ParseString(const std::string& json_str, const AnyTypeRegistry* anytype_registry = nullptr);
  bool ParseFile(const std::string& filename, const AnyTypeRegistry* anytype_registry = nullptr);
  AnyType MoveAnyType();

private:
  std::unique_ptr<AnyType> m_anytype;
};
}  // namespace dto
}  // namespace sup
#endif
