#ifndef STUB_SUP_XML_EXCEPTIONS_H_
#define STUB_SUP_XML_EXCEPTIONS_H_
#include <exception>
#include <string>
namespace sup
{
namespace xml
{
class ParseException : public std::exception
{
public:
  explicit ParseException(const std::string& message);
  const char* what() const noexcept override;

private:
  std::string m_message;
};
class InvalidOperationException : public std::exception
{
public:
  explicit InvalidOperationException(const std::string& message);
  const char* what() const noexcept override;

private:
  std::string m_message;
};
}  // namespace xml
}  // namespace sup
#endif
