#ifndef RCPPUTILS__ASSERTS_HPP_
#define RCPPUTILS__ASSERTS_HPP_
#include <cassert>
#include <stdexcept>
#include <string>
namespace rcpputils
{
class AssertionException : public std::exception
{
  std::string msg_;

public:
  explicit AssertionException(const char * msg) : msg_(msg) {}
  const char * what() const noexcept override {return msg_.c_str();}
};
class IllegalStateException : public std::exception
{
  std::string msg_;

public:
  explicit IllegalStateException(const char * msg) : msg_(msg) {}
  const char * what() const noexcept override {return msg_.c_str();}
};
inline void require_true(bool condition, const std::string & msg = "invalid argument passed")
{
  if (!condition) {throw std::invalid_argument{msg};}
}
inline void check_true(bool condition, const std::string & msg = "check reported invalid state")
{
  if (!condition) {throw IllegalStateException{msg.c_str()};}
}
inline void assert_true(bool condition, const std::string & msg = "assertion failed")
{
#ifndef NDEBUG
  if (!condition) {throw AssertionException{msg.c_str()};}
#else
  (void) condition;
  (void) msg;
#endif
}
}  // namespace rcpputils
#endif
