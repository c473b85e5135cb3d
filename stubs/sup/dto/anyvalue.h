#ifndef STUB_SUP_DTO_ANYVALUE_H_
#define STUB_SUP_DTO_ANYVALUE_H_
#include <sup/dto/anytype.h>
#include <sup/dto/anyvalue_exceptions.h>
#include <sup/dto/basic_scalar_types.h>
namespace sup
{
namespace dto
{
class AnyValue
{
public:
  AnyValue();
  AnyValue(boolean value);
  AnyValue(char8 value);
  AnyValue(int8 value);
  AnyValue(uint8 value);
  AnyValue(int16 value);
  AnyValue(uint16 value);
  AnyValue(int32 value);
  AnyValue(uint32 value);
  AnyValue(int64 value);
  AnyValue(uint64 value);
  AnyValue(float32 value);
  AnyValue(float64 value);
  AnyValue(const std::string& value);
  AnyValue(const char* value);
  explicit AnyValue(const AnyType& anytype);
  AnyValue(const AnyType& anytype, const AnyValue& anyvalue);
  AnyValue(std::initializer_list<std::pair<std::string, AnyValue>> members, const std::string& type_name = {});
  AnyValue(std::size_t n, const AnyType& elem_type, const std::string& name = {});
  AnyValue(const AnyValue& other);
  AnyValue(AnyValue&& other);
  AnyValue& operator=(const AnyValue& other);
  AnyValue& operator=(AnyValue&& other);
  ~AnyValue();

  TypeCode GetTypeCode() const;
  AnyType GetType() const;
  std::string GetTypeName() const;
  void ConvertFrom(const AnyValue& other);
  AnyValue& AddMember(const std::string& name, const AnyValue& value);
  std::vector<std::string> MemberNames() const;
  std::size_t NumberOfMembers() const;
  AnyValue& AddElement(const AnyValue& value);
  std::size_t NumberOfElements() const;
  std::vector<std::string> ChildNames() const;
  template <typename T> T As() const;
  template <typename T> bool As(T& value) const;
  bool HasField(const std::string& fieldname) const;
  AnyValue& operator[](const std::string& fieldname);
  const AnyValue& operator[](const std::string& fieldname) const;
  AnyValue& operator[](std::size_t idx);
  const AnyValue& operator[](std::size_t idx) const;
  bool operator==(const AnyValue& other) const;
  bool operator!=(const AnyValue& other) const;

  struct Impl;
  const Impl* GetImpl() const;
  Impl* GetImpl();

private:
  std::unique_ptr<Impl> m_impl;
};
template <> boolean AnyValue::As<boolean>() const;
template <> char8 AnyValue::As<char8>() const;
template <> int8 AnyValue::As<int8>() const;
template <> uint8 AnyValue::As<uint8>() const;
template <> int16 AnyValue::As<int16>() const;
template <> uint16 AnyValue::As<uint16>() const;
template <> int32 AnyValue::As<int32>() const;
template <> uint32 AnyValue::As<uint32>() const;
template <> int64 AnyValue::As<int64>() const;
template <> uint64 AnyValue::As<uint64>() const;
template <> float32 AnyValue::As<float32>() const;
template <> float64 AnyValue::As<float64>() const;
template <> std::string AnyValue::As<std::string>() const;
bool IsEmptyValue(const AnyValue& anyvalue);
bool IsStructValue(const AnyValue& anyvalue);
bool IsArrayValue(const AnyValue& anyvalue);
bool IsScalarValue(const AnyValue& anyvalue);
AnyValue EmptyStruct(const std::string& type_name = {});
AnyValue ArrayValue(std::initializer_list<AnyValue> elements, const std::string& name = {});
}  // namespace dto
}  // namespace sup
#endif
