#pragma once
#include <stdexcept>
#include <string>
namespace sup
{
namespace xml
{
class MessageException : public std::runtime_error
{
public:
  explicit MessageException(const std::string& m) : std::runtime_error{m} {}
};
class ParseException : public MessageException
{
public:
  explicit ParseException(const std::string& m) : MessageException{m} {}
};
class KeyNotAllowedException : public MessageException
{
public:
  explicit KeyNotAllowedException(const std::string& m) : MessageException{m} {}
};
}  // namespace xml
}  // namespace sup
