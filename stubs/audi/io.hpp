#ifndef DCGP_VERIF_STUB_AUDI_IO_HPP
#define DCGP_VERIF_STUB_AUDI_IO_HPP
#include <iostream>
#include <string>
#include <vector>
namespace audi
{
template <typename... Args>
inline void stream(std::ostream &, const Args &...);
namespace detail
{
template <typename T>
inline void stream_impl(std::ostream &os, const T &x) { os << x; }
inline void stream_impl(std::ostream &os, const bool &b) { os << (b ? "true" : "false"); }
template <typename T>
inline void stream_impl(std::ostream &os, const std::vector<T> &v)
{
    os << '[';
    for (decltype(v.size()) i = 0u; i < v.size(); ++i) {
        if (i) {
            os << ", ";
        }
        stream_impl(os, v[i]);
    }
    os << ']';
}
} // namespace detail
template <typename... Args>
inline void stream(std::ostream &os, const Args &... args)
{
    (detail::stream_impl(os, args), ...);
}
template <typename... Args>
inline void print(const Args &... args)
{
    stream(std::cout, args...);
}
} // namespace audi
#endif
