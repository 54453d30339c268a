#pragma once
#include <cassert>
#include <stdexcept>
namespace takatori::util {
template <class T>
void assertion(T const& c) { assert(c); }
}
