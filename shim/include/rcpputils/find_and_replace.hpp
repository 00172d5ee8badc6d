#ifndef RCPPUTILS__FIND_AND_REPLACE_HPP_
#define RCPPUTILS__FIND_AND_REPLACE_HPP_
#include <string>
namespace rcpputils
{
template<class InputT, class FindT, class ReplaceT>
std::string find_and_replace(const InputT & input, const FindT & find, const ReplaceT & replace)
{
  std::string result(input), f(find), r(replace);
  if (f.empty()) {return result;}
  for (std::string::size_type p = 0; (p = result.find(f, p)) != std::string::npos; p += r.size()) {
    result.replace(p, f.size(), r);
  }
  return result;
}
}  // namespace rcpputils
#endif
