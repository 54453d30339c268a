// Stand-in written for /verif: only what jogasaki's sources use.
#pragma once
#include <deque>
namespace takatori::util {
// elements keep their addresses when others are added
template <class T>
class reference_vector : public std::deque<T> {
public:
    using std::deque<T>::deque;
    void reserve(std::size_t) noexcept {}
};
}  // namespace takatori::util
