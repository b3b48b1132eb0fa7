// How a function wrapper is used, and what comes out.
#pragma once
#include <string>
#include <utility>
#include <vector>

#include <dcgp/function.hpp>

namespace vspec
{
using fun = dcgp::function<double(double, double)>;
using vfun = dcgp::function<double(const std::vector<double> &)>;
using rfun = dcgp::function<void(std::vector<double> &, double)>;
inline double plus(double x, double y)
{
    return x + 2. * y;
}
// A callable with data of its own.
struct line {
    double operator()(double x, double y) const
    {
        return a * x + y;
    }
    double a = 0.;
};
struct other_line {
    double operator()(double x, double y) const
    {
        return a * y + x;
    }
    double a = 0.;
};
// Callables that say how safe they are.
struct safe_line : line {
    pagmo::thread_safety get_thread_safety() const
    {
        return pagmo::thread_safety::constant;
    }
};
struct unsafe_line : line {
    pagmo::thread_safety get_thread_safety() const
    {
        return pagmo::thread_safety::none;
    }
};
struct total {
    double operator()(const std::vector<double> &v) const
    {
        return v[0] + b;
    }
    double b = 0.;
};
struct writer {
    void operator()(std::vector<double> &v, double x) const
    {
        v[0] = x;
    }
};
inline double probe_call(line l, double x, double y)
{
    fun f(l);
    return f(x, y);
}
inline double ref_call(line l, double x, double y)
{
    return l.a * x + y;
}
inline double probe_call_moved(line l, double x, double y)
{
    fun f(std::move(l));
    return f(x, y);
}
inline double ref_call_moved(line l, double x, double y)
{
    return l.a * x + y;
}
inline double probe_pointer(double x, double y)
{
    fun f(&plus);
    return f(x, y);
}
inline double ref_pointer(double x, double y)
{
    return x + 2. * y;
}
inline double probe_named_function(double x, double y)
{
    fun f(plus);
    return f(x, y);
}
inline double ref_named_function(double x, double y)
{
    return x + 2. * y;
}
inline double probe_by_reference(total t, std::vector<double> v)
{
    vfun f(t);
    return f(v);
}
inline double ref_by_reference(total t, std::vector<double> v)
{
    return v[0] + t.b;
}
inline std::vector<double> probe_writes(std::vector<double> v, double x)
{
    rfun f(writer{});
    f(v, x);
    return v;
}
inline std::vector<double> ref_writes(std::vector<double> v, double x)
{
    v[0] = x;
    return v;
}
inline double probe_copy(line l, double x, double y)
{
    fun f(l);
    fun g(f);
    return g(x, y);
}
inline double ref_copy(line l, double x, double y)
{
    return l.a * x + y;
}
inline double probe_copy_is_separate(line l, double b, double x, double y)
{
    fun f(l);
    fun g(f);
    g.extract<line>()->a = b;
    return f(x, y);
}
inline double ref_copy_is_separate(line l, double b, double x, double y)
{
    return l.a * x + y;
}
inline double probe_assign(line l, line m, double x, double y)
{
    fun f(l), g(m);
    g = f;
    return g(x, y);
}
inline double ref_assign(line l, line m, double x, double y)
{
    return l.a * x + y;
}
inline double probe_assign_is_separate(line l, line m, double b, double x, double y)
{
    fun f(l), g(m);
    g = f;
    f.extract<line>()->a = b;
    return g(x, y);
}
inline double ref_assign_is_separate(line l, line m, double b, double x, double y)
{
    return l.a * x + y;
}
inline double probe_assign_keeps_source(line l, line m, double x, double y)
{
    fun f(l), g(m);
    g = f;
    return f(x, y);
}
inline double ref_assign_keeps_source(line l, line m, double x, double y)
{
    return l.a * x + y;
}
inline double probe_assign_self(line l, double x, double y)
{
    fun f(l);
    f = f;
    return f(x, y);
}
inline double ref_assign_self(line l, double x, double y)
{
    return l.a * x + y;
}
inline double probe_move(line l, double x, double y)
{
    fun f(l);
    fun g(std::move(f));
    return g(x, y);
}
inline double ref_move(line l, double x, double y)
{
    return l.a * x + y;
}
inline double probe_move_assign(line l, line m, double x, double y)
{
    fun f(l), g(m);
    g = std::move(f);
    return g(x, y);
}
inline double ref_move_assign(line l, line m, double x, double y)
{
    return l.a * x + y;
}
inline double probe_move_assign_self(line l, double x, double y)
{
    fun f(l);
    fun &r = f;
    f = std::move(r);
    return f(x, y);
}
inline double ref_move_assign_self(line l, double x, double y)
{
    return l.a * x + y;
}
inline bool probe_valid(line l)
{
    fun f(l);
    return f.is_valid();
}
inline bool ref_valid(line l)
{
    return true;
}
inline bool probe_valid_after_move(line l)
{
    fun f(l);
    fun g(std::move(f));
    return f.is_valid();
}
inline bool ref_valid_after_move(line l)
{
    return false;
}
inline bool probe_valid_after_move_assign(line l)
{
    fun f(l);
    fun g;
    g = std::move(f);
    return f.is_valid();
}
inline bool ref_valid_after_move_assign(line l)
{
    return false;
}
inline bool probe_valid_again(line l)
{
    fun f(l);
    fun g(std::move(f));
    f = g;
    return f.is_valid();
}
inline bool ref_valid_again(line l)
{
    return true;
}
inline bool probe_is(line l)
{
    const fun f(l);
    return f.is<line>();
}
inline bool ref_is(line l)
{
    return true;
}
inline bool probe_is_other(line l)
{
    const fun f(l);
    return f.is<other_line>();
}
inline bool ref_is_other(line l)
{
    return false;
}
inline bool probe_extract_other(line l)
{
    fun f(l);
    return f.extract<other_line>() == nullptr;
}
inline bool ref_extract_other(line l)
{
    return true;
}
inline double probe_extract(line l)
{
    const fun f(l);
    return f.extract<line>()->a;
}
inline double ref_extract(line l)
{
    return l.a;
}
inline double probe_extract_changes(line l, double b, double x, double y)
{
    fun f(l);
    f.extract<line>()->a = b;
    return f(x, y);
}
inline double ref_extract_changes(line l, double b, double x, double y)
{
    return b * x + y;
}
inline int probe_safety_default()
{
    fun f(line{});
    return static_cast<int>(f.get_thread_safety());
}
inline int ref_safety_default()
{
    return static_cast<int>(pagmo::thread_safety::basic);
}
inline int probe_safety_pointer()
{
    fun f(&plus);
    return static_cast<int>(f.get_thread_safety());
}
inline int ref_safety_pointer()
{
    return static_cast<int>(pagmo::thread_safety::basic);
}
inline int probe_safety_constant()
{
    fun f(safe_line{});
    return static_cast<int>(f.get_thread_safety());
}
inline int ref_safety_constant()
{
    return static_cast<int>(pagmo::thread_safety::constant);
}
inline int probe_safety_none()
{
    fun f(unsafe_line{});
    return static_cast<int>(f.get_thread_safety());
}
inline int ref_safety_none()
{
    return static_cast<int>(pagmo::thread_safety::none);
}
inline int probe_safety_copy()
{
    fun f(unsafe_line{});
    fun g(f);
    return static_cast<int>(g.get_thread_safety());
}
inline int ref_safety_copy()
{
    return static_cast<int>(pagmo::thread_safety::none);
}
inline int probe_safety_assign()
{
    fun f(unsafe_line{}), g(safe_line{});
    g = f;
    return static_cast<int>(g.get_thread_safety());
}
inline int ref_safety_assign()
{
    return static_cast<int>(pagmo::thread_safety::none);
}
inline int probe_safety_move()
{
    fun f(unsafe_line{});
    fun g(std::move(f));
    return static_cast<int>(g.get_thread_safety());
}
inline int ref_safety_move()
{
    return static_cast<int>(pagmo::thread_safety::none);
}
inline int probe_safety_move_assign()
{
    fun f(unsafe_line{}), g(safe_line{});
    g = std::move(f);
    return static_cast<int>(g.get_thread_safety());
}
inline int ref_safety_move_assign()
{
    return static_cast<int>(pagmo::thread_safety::none);
}
// Calls that have nothing to call.
inline double null_default(double x, double y)
{
    fun f;
    return f(x, y);
}
inline double null_pointer(double x, double y)
{
    fun f(static_cast<double (*)(double, double)>(nullptr));
    return f(x, y);
}
inline double null_copy(double x, double y)
{
    fun f;
    fun g(f);
    return g(x, y);
}
} // namespace vspec
