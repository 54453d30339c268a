#pragma once
#include <stdexcept>
namespace takatori::util {
[[noreturn]] inline void fail() { throw std::logic_error("takatori::util::fail"); }
template <class T>
[[noreturn]] inline void fail(T&&) { throw std::logic_error("takatori::util::fail"); }
}  // namespace takatori::util
