#ifndef RCPPUTILS__SPLIT_HPP_
#define RCPPUTILS__SPLIT_HPP_
#include <sstream>
#include <string>
#include <vector>
namespace rcpputils
{
inline std::vector<std::string> split(const std::string & input, char delim, bool skip_empty = false)
{
  std::vector<std::string> result;
  std::stringstream ss(input);
  std::string item;
  while (std::getline(ss, item, delim)) {
    if (skip_empty && item.empty()) {continue;}
    result.push_back(item);
  }
  return result;
}
}  // namespace rcpputils
#endif
