#ifndef OSRF_TESTING_TOOLS_CPP__SCOPE_EXIT_HPP_
#define OSRF_TESTING_TOOLS_CPP__SCOPE_EXIT_HPP_
#include "rcpputils/scope_exit.hpp"
#define OSRF_TESTING_TOOLS_CPP_SCOPE_EXIT(...) \
  auto RCUTILS_JOIN(osrf_scope_exit_, __LINE__) = rcpputils::make_scope_exit([&]() {__VA_ARGS__;})
#endif
