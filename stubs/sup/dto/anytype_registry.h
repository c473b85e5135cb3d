#ifndef STUB_SUP_DTO_ANYTYPE_REGISTRY_H_
#define STUB_SUP_DTO_ANYTYPE_REGISTRY_H_
#include <sup/dto/anytype.h>
#include <map>
namespace sup
{
namespace dto
{
class AnyTypeRegistry
{
public:
  AnyTypeRegistry();
  ~AnyTypeRegistry();
  AnyTypeRegistry(const AnyTypeRegistry& other) = delete;
  AnyTypeRegistry& operator=(const AnyTypeRegistry& other) = delete;
  void RegisterType(const AnyType& anytype);
  bool HasType(const std::string& name) const;
  AnyType GetType(const std::string& name) const;

private:
  struct Impl;
  std::unique_ptr<Impl> m_impl;
};
}  // namespace dto
}  // namespace sup
#endif
