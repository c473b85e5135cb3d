#ifndef STUB_SUP_DTO_ANYVALUE_EXCEPTIONS_H_
#define STUB_SUP_DTO_ANYVALUE_EXCEPTIONS_H_
#include <exception>
#include <string>
namespace sup
{
namespace dto
{
class MessageException : public std::exception
{
public:
  explicit MessageException(std::string message);
  const char* what() const noexcept override;

private:
  std::string m_message;
};
class InvalidOperationException : public MessageException
{
public:
  explicit InvalidOperationException(const std::string& message);
};
class InvalidConversionException : public MessageException
{
public:
  explicit InvalidConversionException(const std::string& message);
};
class SerializeException : public MessageException
{
public:
  explicit SerializeException(const std::string& message);
};
class ParseException : public MessageException
{
public:
  explicit ParseException(const std::string& message);
};
}  // namespace dto
}  // namespace sup
#endif
