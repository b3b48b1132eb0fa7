// Minimal stand-in for AuDi's gdual types. AuDi is not installable in the sandbox; the analyser needs the
// *types and signatures* dcgp is written against so that every header can be parsed, instantiated and resolved.
// The arithmetic is that of truncated power series, so that demonstrations can be run.
#ifndef DCGP_VERIF_STUB_AUDI_GDUAL_HPP
#define DCGP_VERIF_STUB_AUDI_GDUAL_HPP

#include <algorithm>
#include <cmath>
#include <initializer_list>
#include <iostream>
#include <map>
#include <string>
#include <type_traits>
#include <unordered_map>
#include <vector>

#include <boost/serialization/access.hpp>
#include <boost/serialization/string.hpp>
#include <boost/serialization/vector.hpp>

namespace audi
{

template <typename T>
class vectorized
{
public:
    vectorized() : m_c(1, T(0)) {}
    vectorized(T v) : m_c(1, v) {}
    vectorized(const std::vector<T> &v) : m_c(v) {}
    vectorized(std::initializer_list<T> v) : m_c(v) {}
    typename std::vector<T>::size_type size() const { return m_c.size(); }
    typename std::vector<T>::const_iterator begin() const { return m_c.begin(); }
    typename std::vector<T>::const_iterator end() const { return m_c.end(); }
    typename std::vector<T>::iterator begin() { return m_c.begin(); }
    typename std::vector<T>::iterator end() { return m_c.end(); }
    const T &operator[](typename std::vector<T>::size_type i) const { return m_c.size() == 1u ? m_c[0] : m_c[i]; }
    T &operator[](typename std::vector<T>::size_type i) { return m_c[i]; }
    const std::vector<T> &get_v() const { return m_c; }
    template <typename F>
    static vectorized zip(const vectorized &a, const vectorized &b, F f)
    {
        vectorized r;
        r.m_c.resize(a.size() > b.size() ? a.size() : b.size());
        for (decltype(r.m_c.size()) i = 0u; i < r.m_c.size(); ++i) {
            r.m_c[i] = f(a[i], b[i]);
        }
        return r;
    }
    template <typename F>
    static vectorized map(const vectorized &a, F f)
    {
        vectorized r(a);
        for (auto &x : r.m_c) {
            x = f(x);
        }
        return r;
    }
    friend vectorized operator+(const vectorized &a, const vectorized &b) { return zip(a, b, [](T x, T y) { return x + y; }); }
    friend vectorized operator-(const vectorized &a, const vectorized &b) { return zip(a, b, [](T x, T y) { return x - y; }); }
    friend vectorized operator*(const vectorized &a, const vectorized &b) { return zip(a, b, [](T x, T y) { return x * y; }); }
    friend vectorized operator/(const vectorized &a, const vectorized &b) { return zip(a, b, [](T x, T y) { return x / y; }); }
    friend vectorized operator-(const vectorized &a) { return map(a, [](T x) { return -x; }); }
    friend bool operator==(const vectorized &a, const vectorized &b) { return a.m_c == b.m_c; }
    friend bool operator!=(const vectorized &a, const vectorized &b) { return !(a == b); }
    friend bool operator<(const vectorized &a, const vectorized &b) { return a.m_c < b.m_c; }
    friend bool operator>(const vectorized &a, const vectorized &b) { return a.m_c > b.m_c; }
    friend std::ostream &operator<<(std::ostream &os, const vectorized &a)
    {
        os << "[";
        for (auto x : a.m_c) {
            os << x << " ";
        }
        return os << "]";
    }
    template <typename Archive>
    void serialize(Archive &ar, unsigned)
    {
        ar &m_c;
    }

private:
    std::vector<T> m_c;
};

namespace detail
{
inline double map1(double a, double (*f)(double)) { return f(a); }
template <typename T>
inline vectorized<T> map1(const vectorized<T> &a, double (*f)(double))
{
    return vectorized<T>::map(a, [f](T x) { return f(x); });
}
} // namespace detail

// A truncated power series in named symbols: coefficients by exponents.
template <typename Cf, typename M = void>
class gdual
{
public:
    using cf_type = Cf;
    using mono = std::map<std::string, unsigned>;
    gdual() : m_c(0.) {}
    gdual(const Cf &v) : m_c(v) {}
    template <typename U, typename std::enable_if<std::is_arithmetic<U>::value && !std::is_same<U, Cf>::value, int>::type = 0>
    gdual(U v) : m_c(static_cast<double>(v))
    {
    }
    gdual(std::initializer_list<double> v) : m_c(v) {}
    explicit gdual(const Cf &v, const std::string &s, unsigned order) : m_c(v), m_s(1, "d" + s), m_order(order)
    {
        if (order > 0u) {
            m_t[mono{{"d" + s, 1u}}] = Cf(1.);
        }
    }
    Cf constant_cf() const { return m_c; }
    unsigned get_order() const { return m_order; }
    unsigned degree() const { return m_order; }
    void extend_symbol_set(const std::vector<std::string> &s) { m_s = s; }
    std::vector<std::string> get_symbol_set() const { return m_s; }
    unsigned get_symbol_set_size() const { return static_cast<unsigned>(m_s.size()); }
    Cf get_derivative(const std::vector<unsigned> &e) const
    {
        mono m;
        double f = 1.;
        for (decltype(e.size()) i = 0u; i < e.size(); ++i) {
            if (e[i] > 0u) {
                m[m_s[i]] = e[i];
            }
            for (unsigned k = 2u; k <= e[i]; ++k) {
                f *= k;
            }
        }
        if (m.empty()) {
            return m_c;
        }
        auto it = m_t.find(m);
        return it == m_t.end() ? Cf(0.) : it->second * Cf(f);
    }
    Cf get_derivative(const std::unordered_map<std::string, unsigned> &) const { return Cf(0.); }
    Cf find_cf(const std::vector<unsigned> &) const { return Cf(0.); }
    gdual subs(const std::string &, const Cf &) const { return *this; }
    gdual &operator+=(const gdual &o) { join(o); for (auto &p : o.m_t) { m_t[p.first] = m_t.count(p.first) ? m_t[p.first] + p.second : p.second; } m_c = m_c + o.m_c; return *this; }
    gdual &operator-=(const gdual &o) { return *this += -o; }
    gdual &operator*=(const gdual &o)
    {
        gdual r;
        r.m_s = m_s;
        r.m_order = m_order;
        r.join(o);
        r.m_c = m_c * o.m_c;
        for (auto &p : m_t) {
            r.put(p.first, p.second * o.m_c);
        }
        for (auto &q : o.m_t) {
            r.put(q.first, m_c * q.second);
        }
        for (auto &p : m_t) {
            for (auto &q : o.m_t) {
                mono m(p.first);
                unsigned d = 0u;
                for (auto &e : q.first) {
                    m[e.first] += e.second;
                }
                for (auto &e : m) {
                    d += e.second;
                }
                if (d <= r.m_order) {
                    r.put(m, p.second * q.second);
                }
            }
        }
        return *this = r;
    }
    gdual &operator/=(const gdual &o)
    {
        if (o.m_t.empty()) {
            for (auto &p : m_t) {
                p.second = p.second / o.m_c;
            }
            m_c = m_c / o.m_c;
            join(o);
            return *this;
        }
        // 1/(c + d) = 1/c - d/c^2 + d^2/c^3 - ..
        gdual d(o), t(Cf(1.) / o.m_c), s(t);
        d.m_c = Cf(0.);
        for (unsigned k = 0u; k < (m_order > o.m_order ? m_order : o.m_order); ++k) {
            t *= d;
            t *= gdual(Cf(-1.) / o.m_c);
            s += t;
        }
        return *this *= s;
    }
    friend gdual operator+(gdual a, const gdual &b) { a += b; return a; }
    friend gdual operator-(gdual a, const gdual &b) { a -= b; return a; }
    friend gdual operator*(gdual a, const gdual &b) { a *= b; return a; }
    friend gdual operator/(gdual a, const gdual &b) { a /= b; return a; }
    gdual operator-() const { gdual r(*this); r.m_c = -r.m_c; for (auto &p : r.m_t) { p.second = -p.second; } return r; }
    gdual operator+() const { return *this; }
    friend bool operator==(const gdual &a, const gdual &b) { return a.m_c == b.m_c; }
    friend bool operator!=(const gdual &a, const gdual &b) { return !(a == b); }
    // Needed by std::max_element in the cross-entropy loss.
    friend bool operator<(const gdual &a, const gdual &b) { return a.m_c < b.m_c; }
    friend bool operator>(const gdual &a, const gdual &b) { return a.m_c > b.m_c; }
    friend std::ostream &operator<<(std::ostream &os, const gdual &a) { return os << a.m_c; }
    // f of the series, with the derivatives of f by central differences
    gdual apply(double (*f)(double)) const
    {
        gdual r(detail::map1(m_c, f));
        r.join(*this);
        if (m_t.empty()) {
            return r;
        }
        const double h = 1e-4;
        Cf a = detail::map1(m_c + Cf(h), f), b = detail::map1(m_c - Cf(h), f);
        gdual d(*this);
        d.m_c = Cf(0.);
        r += d * gdual((a - b) / Cf(2. * h));
        if (m_order > 1u) {
            r += d * d * gdual((a + b - Cf(2.) * r.m_c) / Cf(2. * h * h));
        }
        return r;
    }
    template <typename Archive>
    void serialize(Archive &ar, unsigned)
    {
        ar &m_c;
        ar &m_s;
        ar &m_order;
    }

private:
    void join(const gdual &o)
    {
        m_order = m_order > o.m_order ? m_order : o.m_order;
        for (auto &s : o.m_s) {
            if (std::find(m_s.begin(), m_s.end(), s) == m_s.end()) {
                m_s.push_back(s);
            }
        }
    }
    void put(const mono &m, const Cf &c)
    {
        auto it = m_t.find(m);
        if (it == m_t.end()) {
            m_t[m] = c;
        } else {
            it->second = it->second + c;
        }
    }
    Cf m_c;
    std::map<mono, Cf> m_t;
    std::vector<std::string> m_s;
    unsigned m_order = 0u;
};

using gdual_d = gdual<double>;
using gdual_v = gdual<vectorized<double>>;
using vectorized_double = vectorized<double>;

template <typename T>
struct is_gdual : std::false_type {
};
template <typename T>
struct is_gdual<gdual<T>> : std::true_type {
};

} // namespace audi

#endif
