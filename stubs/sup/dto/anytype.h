#ifndef STUB_SUP_DTO_ANYTYPE_H_
#define STUB_SUP_DTO_ANYTYPE_H_
#include <sup/dto/anyvalue_exceptions.h>
#include <sup/dto/basic_scalar_types.h>
#include <cstddef>
#include <initializer_list>
#include <memory>
#include <string>
#include <utility>
#include <vector>
namespace sup
{
namespace dto
{
enum class TypeCode : uint32
{
  Empty = 0, Bool, Char8, Int8, UInt8, Int16, UInt16, Int32, UInt32, Int64, UInt64, Float32, Float64, String, Struct, Array
};
class AnyType
{
public:
  AnyType();
  AnyType(TypeCode code);
  AnyType(std::initializer_list<std::pair<std::string, AnyType>> members, const std::string& name = {});
  AnyType(std::size_t n, const AnyType& elem_type, const std::string& name = {});
  AnyType(const AnyType& other);
  AnyType(AnyType&& other);
  AnyType& operator=(const AnyType& other);
  AnyType& operator=(AnyType&& other);
  ~AnyType();

  TypeCode GetTypeCode() const;
  std::string GetTypeName() const;
  AnyType& AddMember(const std::string& name, const AnyType& type);
  std::vector<std::string> MemberNames() const;
  std::size_t NumberOfMembers() const;
  std::size_t NumberOfElements() const;
  AnyType ElementType() const;
  bool HasField(const std::string& fieldname) const;
  AnyType& operator[](const std::string& fieldname);
  const AnyType& operator[](const std::string& fieldname) const;
  bool operator==(const AnyType& other) const;
  bool operator!=(const AnyType& other) const;

  struct Impl;
  const Impl* GetImpl() const;
  Impl* GetImpl();

private:
  std::unique_ptr<Impl> m_impl;
};
const AnyType EmptyType{TypeCode::Empty};
const AnyType BooleanType{TypeCode::Bool};
const AnyType Character8Type{TypeCode::Char8};
const AnyType SignedInteger8Type{TypeCode::Int8};
const AnyType UnsignedInteger8Type{TypeCode::UInt8};
const AnyType SignedInteger16Type{TypeCode::Int16};
const AnyType UnsignedInteger16Type{TypeCode::UInt16};
const AnyType SignedInteger32Type{TypeCode::Int32};
const AnyType UnsignedInteger32Type{TypeCode::UInt32};
const AnyType SignedInteger64Type{TypeCode::Int64};
const AnyType UnsignedInteger64Type{TypeCode::UInt64};
const AnyType Float32Type{TypeCode::Float32};
const AnyType Float64Type{TypeCode::Float64};
const AnyType StringType{TypeCode::String};
AnyType EmptyStructType(const std::string& type_name = {});
bool IsEmptyType(const AnyType& anytype);
bool IsStructType(const AnyType& anytype);
bool IsArrayType(const AnyType& anytype);
bool IsScalarType(const AnyType& anytype);
}  // namespace dto
}  // namespace sup
#endif
