#ifndef RCPPUTILS__JOIN_HPP_
#define RCPPUTILS__JOIN_HPP_
#include <sstream>
#include <string>
namespace rcpputils
{
template<typename C>
std::string join(const C & c, const char * delim)
{
  std::ostringstream os;
  bool first = true;
  for (const auto & e : c) {
    if (!first) {os << delim;}
    os << e;
    first = false;
  }
  return os.str();
}
}  // namespace rcpputils
#endif
