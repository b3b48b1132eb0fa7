// The data sets of the gym, from their documentation and the papers it cites.
#pragma once
#include <cmath>
#include <random>
#include <vector>

#include <dcgp/gym.hpp>

namespace vspec
{
using table = std::vector<std::vector<double>>;
constexpr double pi = 3.141592653589793;
constexpr double e = 2.718281828459045;
#define VSPEC_PROBE(NAME)                                                                                              \
    inline table probe_points_##NAME(table p, table l)                                                                 \
    {                                                                                                                  \
        dcgp::gym::generate_##NAME(p, l);                                                                              \
        return p;                                                                                                      \
    }                                                                                                                  \
    inline table probe_labels_##NAME(table p, table l)                                                                 \
    {                                                                                                                  \
        dcgp::gym::generate_##NAME(p, l);                                                                              \
        return l;                                                                                                      \
    }
inline table ref_points_koza_quintic()
{
    table out;
    for (unsigned i = 0u; i < 10u; ++i) {
        const double x = -3. + (i * (3. - -3.)) / 9u;
        out.push_back({x});
    }
    return out;
}
inline table ref_labels_koza_quintic()
{
    table out;
    for (unsigned i = 0u; i < 10u; ++i) {
        const double x = -3. + (i * (3. - -3.)) / 9u;
        out.push_back({std::pow(x, 5) - 2. * std::pow(x, 3) + x});
    }
    return out;
}
VSPEC_PROBE(koza_quintic)
inline table ref_points_P1()
{
    table out;
    for (unsigned i = 0u; i < 10u; ++i) {
        const double x = 1. + (i * (3. - 1.)) / 9u;
        out.push_back({x});
    }
    return out;
}
inline table ref_labels_P1()
{
    table out;
    for (unsigned i = 0u; i < 10u; ++i) {
        const double x = 1. + (i * (3. - 1.)) / 9u;
        out.push_back({std::pow(x, 5) - pi * std::pow(x, 3) + x});
    }
    return out;
}
VSPEC_PROBE(P1)
inline table ref_points_P2()
{
    table out;
    for (unsigned i = 0u; i < 10u; ++i) {
        const double x = 0.1 + (i * (5. - 0.1)) / 9u;
        out.push_back({x});
    }
    return out;
}
inline table ref_labels_P2()
{
    table out;
    for (unsigned i = 0u; i < 10u; ++i) {
        const double x = 0.1 + (i * (5. - 0.1)) / 9u;
        out.push_back({std::pow(x, 5) - pi * std::pow(x, 3) + 2. * pi / x});
    }
    return out;
}
VSPEC_PROBE(P2)
inline table ref_points_P3()
{
    table out;
    for (unsigned i = 0u; i < 10u; ++i) {
        const double x = -0.9 + (i * (1. - -0.9)) / 9u;
        out.push_back({x});
    }
    return out;
}
inline table ref_labels_P3()
{
    table out;
    for (unsigned i = 0u; i < 10u; ++i) {
        const double x = -0.9 + (i * (1. - -0.9)) / 9u;
        out.push_back({(e * std::pow(x, 5) + std::pow(x, 3)) / (x + 1.)});
    }
    return out;
}
VSPEC_PROBE(P3)
inline table ref_points_P4()
{
    table out;
    for (unsigned i = 0u; i < 10u; ++i) {
        const double x = -1. + (i * (1. - -1.)) / 9u;
        out.push_back({x});
    }
    return out;
}
inline table ref_labels_P4()
{
    table out;
    for (unsigned i = 0u; i < 10u; ++i) {
        const double x = -1. + (i * (1. - -1.)) / 9u;
        out.push_back({std::sin(pi * x) + 1. / x});
    }
    return out;
}
VSPEC_PROBE(P4)
inline table ref_points_P5()
{
    table out;
    for (unsigned i = 0u; i < 10u; ++i) {
        const double x = 1. + (i * (3. - 1.)) / 9u;
        out.push_back({x});
    }
    return out;
}
inline table ref_labels_P5()
{
    table out;
    for (unsigned i = 0u; i < 10u; ++i) {
        const double x = 1. + (i * (3. - 1.)) / 9u;
        out.push_back({e * std::pow(x, 5) - pi * std::pow(x, 3) + x});
    }
    return out;
}
VSPEC_PROBE(P5)
inline table ref_points_P6()
{
    table out;
    for (unsigned i = 0u; i < 10u; ++i) {
        const double x = -2.1 + (i * (1. - -2.1)) / 9u;
        out.push_back({x});
    }
    return out;
}
inline table ref_labels_P6()
{
    table out;
    for (unsigned i = 0u; i < 10u; ++i) {
        const double x = -2.1 + (i * (1. - -2.1)) / 9u;
        out.push_back({(e * x * x - 1.) / (pi * (x + 2.))});
    }
    return out;
}
VSPEC_PROBE(P6)
inline table ref_points_P7()
{
    table out;
    for (unsigned i = 0u; i < 10u; ++i) {
        const double x = -1. + (i * (1. - -1.)) / 9u;
        out.push_back({x});
    }
    return out;
}
inline table ref_labels_P7()
{
    table out;
    for (unsigned i = 0u; i < 10u; ++i) {
        const double x = -1. + (i * (1. - -1.)) / 9u;
        out.push_back({std::cos(pi * x) + std::sin(e * x)});
    }
    return out;
}
VSPEC_PROBE(P7)
inline table ref_points_salutowicz()
{
    table out;
    for (unsigned i = 0u; i < 100u; ++i) {
        const double x = 0.05 + (i * (10. - 0.05)) / 99u;
        out.push_back({x});
    }
    return out;
}
inline table ref_labels_salutowicz()
{
    table out;
    for (unsigned i = 0u; i < 100u; ++i) {
        const double x = 0.05 + (i * (10. - 0.05)) / 99u;
        out.push_back({std::exp(-x) * x * x * x * std::cos(x) * std::sin(x) * (std::cos(x) * std::sin(x) * std::sin(x) - 1.)});
    }
    return out;
}
VSPEC_PROBE(salutowicz)
inline table ref_points_kotanchek()
{
    table out;
    std::mt19937 g(32);
    std::uniform_real_distribution<double> d(0.3, 4.);
    for (unsigned i = 0u; i < 100u; ++i) {
        const std::vector<double> x = {d(g), d(g)};
        out.push_back(x);
    }
    return out;
}
inline table ref_labels_kotanchek()
{
    table out;
    std::mt19937 g(32);
    std::uniform_real_distribution<double> d(0.3, 4.);
    for (unsigned i = 0u; i < 100u; ++i) {
        const std::vector<double> x = {d(g), d(g)};
        out.push_back({std::exp(-(x[0] - 1.) * (x[0] - 1.)) / (1.2 + (x[1] - 2.5) * (x[1] - 2.5))});
    }
    return out;
}
VSPEC_PROBE(kotanchek)
inline table ref_points_salutowicz2d()
{
    table out;
    std::mt19937 g(32);
    std::uniform_real_distribution<double> d(0.05, 10.);
    for (unsigned i = 0u; i < 601u; ++i) {
        const std::vector<double> x = {d(g), d(g)};
        out.push_back(x);
    }
    return out;
}
inline table ref_labels_salutowicz2d()
{
    table out;
    std::mt19937 g(32);
    std::uniform_real_distribution<double> d(0.05, 10.);
    for (unsigned i = 0u; i < 601u; ++i) {
        const std::vector<double> x = {d(g), d(g)};
        out.push_back({std::exp(-x[0]) * x[0] * x[0] * x[0] * std::cos(x[0]) * std::sin(x[0]) * (std::cos(x[0]) * std::sin(x[0]) * std::sin(x[0]) - 1.) * (x[1] - 5.)});
    }
    return out;
}
VSPEC_PROBE(salutowicz2d)
inline table ref_points_uball5d()
{
    table out;
    std::mt19937 g(32);
    std::uniform_real_distribution<double> d(0.05, 6.05);
    for (unsigned i = 0u; i < 1024u; ++i) {
        const std::vector<double> x = {d(g), d(g), d(g), d(g), d(g)};
        out.push_back(x);
    }
    return out;
}
inline table ref_labels_uball5d()
{
    table out;
    std::mt19937 g(32);
    std::uniform_real_distribution<double> d(0.05, 6.05);
    for (unsigned i = 0u; i < 1024u; ++i) {
        const std::vector<double> x = {d(g), d(g), d(g), d(g), d(g)};
        out.push_back({10. / (5. + std::pow(x[0] - 3., 2) + std::pow(x[1] - 3., 2) + std::pow(x[2] - 3., 2) + std::pow(x[3] - 3., 2) + std::pow(x[4] - 3., 2))});
    }
    return out;
}
VSPEC_PROBE(uball5d)
inline table ref_points_ratpol3d()
{
    table out;
    std::mt19937 g(32);
    std::uniform_real_distribution<double> d(0.05, 2.);
    std::uniform_real_distribution<double> h(1., 2.);
    for (unsigned i = 0u; i < 300u; ++i) {
        const std::vector<double> x = {d(g), h(g), d(g)};
        out.push_back(x);
    }
    return out;
}
inline table ref_labels_ratpol3d()
{
    table out;
    std::mt19937 g(32);
    std::uniform_real_distribution<double> d(0.05, 2.);
    std::uniform_real_distribution<double> h(1., 2.);
    for (unsigned i = 0u; i < 300u; ++i) {
        const std::vector<double> x = {d(g), h(g), d(g)};
        out.push_back({30. * (x[0] - 1.) * (x[2] - 1.) / (x[1] * x[1] * (x[0] - 10.))});
    }
    return out;
}
VSPEC_PROBE(ratpol3d)
inline table ref_points_sinecosine()
{
    table out;
    std::mt19937 g(32);
    std::uniform_real_distribution<double> d(0.1, 5.9);
    for (unsigned i = 0u; i < 30u; ++i) {
        const std::vector<double> x = {d(g), d(g)};
        out.push_back(x);
    }
    return out;
}
inline table ref_labels_sinecosine()
{
    table out;
    std::mt19937 g(32);
    std::uniform_real_distribution<double> d(0.1, 5.9);
    for (unsigned i = 0u; i < 30u; ++i) {
        const std::vector<double> x = {d(g), d(g)};
        out.push_back({6. * std::sin(x[0]) * std::cos(x[1])});
    }
    return out;
}
VSPEC_PROBE(sinecosine)
inline table ref_points_ripple()
{
    table out;
    std::mt19937 g(32);
    std::uniform_real_distribution<double> d(0.05, 6.05);
    for (unsigned i = 0u; i < 300u; ++i) {
        const std::vector<double> x = {d(g), d(g)};
        out.push_back(x);
    }
    return out;
}
inline table ref_labels_ripple()
{
    table out;
    std::mt19937 g(32);
    std::uniform_real_distribution<double> d(0.05, 6.05);
    for (unsigned i = 0u; i < 300u; ++i) {
        const std::vector<double> x = {d(g), d(g)};
        out.push_back({(x[0] - 3.) * (x[1] - 3.) + 2. * std::sin((x[0] - 4.) * (x[1] - 4.))});
    }
    return out;
}
VSPEC_PROBE(ripple)
inline table ref_points_ratpol2d()
{
    table out;
    std::mt19937 g(32);
    std::uniform_real_distribution<double> d(0.05, 6.05);
    for (unsigned i = 0u; i < 50u; ++i) {
        const std::vector<double> x = {d(g), d(g)};
        out.push_back(x);
    }
    return out;
}
inline table ref_labels_ratpol2d()
{
    table out;
    std::mt19937 g(32);
    std::uniform_real_distribution<double> d(0.05, 6.05);
    for (unsigned i = 0u; i < 50u; ++i) {
        const std::vector<double> x = {d(g), d(g)};
        out.push_back({(std::pow(x[0] - 3., 4) + std::pow(x[1] - 3., 3) - (x[1] - 3.)) / (std::pow(x[1] - 2., 4.) + 10.)});
    }
    return out;
}
VSPEC_PROBE(ratpol2d)
VSPEC_PROBE(chwirut1)
VSPEC_PROBE(chwirut2)
VSPEC_PROBE(daniel_wood)
VSPEC_PROBE(gauss1)
VSPEC_PROBE(kirby2)
VSPEC_PROBE(lanczos2)
VSPEC_PROBE(misra1b)
VSPEC_PROBE(luca1)
} // namespace vspec
