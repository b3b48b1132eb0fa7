#ifndef DCGP_VERIF_STUB_AUDI_FUNCTIONS_HPP
#define DCGP_VERIF_STUB_AUDI_FUNCTIONS_HPP
#include <cmath>
#include <audi/gdual.hpp>
namespace audi
{
inline double exp(double x) { return std::exp(x); }
template <typename C, typename M>
inline gdual<C, M> exp(const gdual<C, M> &d) { return d.apply(static_cast<double (*)(double)>(&std::exp)); }
inline double log(double x) { return std::log(x); }
template <typename C, typename M>
inline gdual<C, M> log(const gdual<C, M> &d) { return d.apply(static_cast<double (*)(double)>(&std::log)); }
inline double sqrt(double x) { return std::sqrt(x); }
template <typename C, typename M>
inline gdual<C, M> sqrt(const gdual<C, M> &d) { return d.apply(static_cast<double (*)(double)>(&std::sqrt)); }
inline double sin(double x) { return std::sin(x); }
template <typename C, typename M>
inline gdual<C, M> sin(const gdual<C, M> &d) { return d.apply(static_cast<double (*)(double)>(&std::sin)); }
inline double cos(double x) { return std::cos(x); }
template <typename C, typename M>
inline gdual<C, M> cos(const gdual<C, M> &d) { return d.apply(static_cast<double (*)(double)>(&std::cos)); }
inline double tan(double x) { return std::tan(x); }
template <typename C, typename M>
inline gdual<C, M> tan(const gdual<C, M> &d) { return d.apply(static_cast<double (*)(double)>(&std::tan)); }
inline double sinh(double x) { return std::sinh(x); }
template <typename C, typename M>
inline gdual<C, M> sinh(const gdual<C, M> &d) { return d.apply(static_cast<double (*)(double)>(&std::sinh)); }
inline double cosh(double x) { return std::cosh(x); }
template <typename C, typename M>
inline gdual<C, M> cosh(const gdual<C, M> &d) { return d.apply(static_cast<double (*)(double)>(&std::cosh)); }
inline double tanh(double x) { return std::tanh(x); }
template <typename C, typename M>
inline gdual<C, M> tanh(const gdual<C, M> &d) { return d.apply(static_cast<double (*)(double)>(&std::tanh)); }
inline double asin(double x) { return std::asin(x); }
template <typename C, typename M>
inline gdual<C, M> asin(const gdual<C, M> &d) { return d.apply(static_cast<double (*)(double)>(&std::asin)); }
inline double acos(double x) { return std::acos(x); }
template <typename C, typename M>
inline gdual<C, M> acos(const gdual<C, M> &d) { return d.apply(static_cast<double (*)(double)>(&std::acos)); }
inline double atan(double x) { return std::atan(x); }
template <typename C, typename M>
inline gdual<C, M> atan(const gdual<C, M> &d) { return d.apply(static_cast<double (*)(double)>(&std::atan)); }
inline double asinh(double x) { return std::asinh(x); }
template <typename C, typename M>
inline gdual<C, M> asinh(const gdual<C, M> &d) { return d.apply(static_cast<double (*)(double)>(&std::asinh)); }
inline double acosh(double x) { return std::acosh(x); }
template <typename C, typename M>
inline gdual<C, M> acosh(const gdual<C, M> &d) { return d.apply(static_cast<double (*)(double)>(&std::acosh)); }
inline double atanh(double x) { return std::atanh(x); }
template <typename C, typename M>
inline gdual<C, M> atanh(const gdual<C, M> &d) { return d.apply(static_cast<double (*)(double)>(&std::atanh)); }
inline double erf(double x) { return std::erf(x); }
template <typename C, typename M>
inline gdual<C, M> erf(const gdual<C, M> &d) { return d.apply(static_cast<double (*)(double)>(&std::erf)); }
inline double cbrt(double x) { return std::cbrt(x); }
template <typename C, typename M>
inline gdual<C, M> cbrt(const gdual<C, M> &d) { return d.apply(static_cast<double (*)(double)>(&std::cbrt)); }
inline double abs(double x) { return std::abs(x); }
template <typename C, typename M>
inline gdual<C, M> abs(const gdual<C, M> &d) { return d.apply(static_cast<double (*)(double)>(&std::fabs)); }
inline double pow(double x, double y) { return std::pow(x, y); }
template <typename C, typename M>
inline gdual<C, M> pow(const gdual<C, M> &d, double y) { return audi::exp(gdual<C, M>(y) * audi::log(d)); }
inline double sigmoid(double x) { return 1. / (1. + std::exp(-x)); }
} // namespace audi
#endif
