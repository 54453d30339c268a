// Stand-in for the header of the takatori library, which is not installed here (see DESIGN.md, "Stand-ins").
#pragma once
#include <exception>
#include <string>
#include <utility>
#include <boost/stacktrace.hpp>
namespace takatori::util {
template <class T>
[[noreturn]] void throw_exception(T&& e) {
    throw std::forward<T>(e);
}
inline boost::stacktrace::stacktrace const* find_trace(std::exception const&) { return nullptr; }
template <class T>
inline std::ostream& print_trace(std::ostream& out, T const& e) { return out << e.what(); }
}  // namespace takatori::util
