#ifndef DCGP_FACTS_ARCHIVE_HPP
#define DCGP_FACTS_ARCHIVE_HPP
#include <boost/mpl/bool.hpp>
#include <boost/serialization/access.hpp>
namespace dcgp_facts
{
struct out_archive {
    using is_saving = boost::mpl::bool_<true>;
    using is_loading = boost::mpl::bool_<false>;
    template <typename T>
    out_archive &operator&(const T &);
    template <typename T>
    out_archive &operator<<(const T &);
};
struct in_archive {
    using is_saving = boost::mpl::bool_<false>;
    using is_loading = boost::mpl::bool_<true>;
    template <typename T>
    in_archive &operator&(T &);
    template <typename T>
    in_archive &operator&(T &&);
    template <typename T>
    in_archive &operator>>(T &);
    template <typename T>
    in_archive &operator>>(T &&);
};
struct access {
    template <typename A, typename T>
    static void call(A &a, T &x)
    {
        boost::serialization::access::serialize(a, x, 0u);
    }
};
} // namespace dcgp_facts
#endif
