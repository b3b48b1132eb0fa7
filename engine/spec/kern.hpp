// Reference definitions of the kernels, and probes that apply a kernel obtained by its name.
namespace vspec
{
template <typename T>
T probe_value(const std::string &name, const std::vector<T> &in)
{
    dcgp::kernel_set<T> s;
    s.push_back(name);
    return s()[0](in);
}
template <typename T>
std::string probe_text(const std::string &name, const svec &in)
{
    dcgp::kernel_set<T> s;
    s.push_back(name);
    return s()[0](in);
}
template <typename T>
std::string probe_name(const std::string &name)
{
    dcgp::kernel_set<T> s;
    s.push_back(name);
    return s()[0].get_name();
}
// the whole set, built from a list of names
template <typename T>
T probe_list(const std::string &a, const std::string &b, const std::vector<T> &in, unsigned i)
{
    dcgp::kernel_set<T> s(svec{a, b});
    return i == 0u ? s[0](in) : s()[1](in);
}
template <typename T>
double probe_count(const std::string &a, const std::string &b)
{
    dcgp::kernel_set<T> s(svec{a, b});
    double one = static_cast<double>(s().size());
    s.clear();
    double none = static_cast<double>(s().size());
    return one + 10. * none;
}
template <typename T>
T probe_pushed(const std::string &a, const std::string &b, const std::vector<T> &in)
{
    dcgp::kernel_set<T> s(svec{a});
    dcgp::kernel_set<T> q(svec{b});
    s.push_back(q[0]);
    return s[1](in);
}
template <typename T>
std::string probe_pushed_name(const std::string &a, const std::string &b)
{
    dcgp::kernel_set<T> s(svec{a});
    dcgp::kernel_set<T> q(svec{b});
    s.push_back(q[0]);
    return s[1].get_name();
}
template <typename T, typename F>
T probe_kernel(const F &f, const std::string &name, const std::vector<T> &in)
{
    dcgp::kernel<T> k(f, dcgp::print_my_sum, name);
    return k(in);
}

inline double lead(double x)
{
    return x;
}
template <typename T>
auto lead(const T &x) -> decltype(x.constant_cf())
{
    return x.constant_cf();
}
template <typename T>
T total(const std::vector<T> &in)
{
    T s(in[0]);
    for (unsigned i = 1u; i < in.size(); ++i) {
        s += in[i];
    }
    return s;
}
template <typename T>
T ref_value(const std::string &name, const std::vector<T> &in)
{
    if (name == "diff") {
        T s(in[0]);
        for (unsigned i = 1u; i < in.size(); ++i) {
            s -= in[i];
        }
        return s;
    }
    if (name == "mul") {
        T s(in[0]);
        for (unsigned i = 1u; i < in.size(); ++i) {
            s *= in[i];
        }
        return s;
    }
    if (name == "div") {
        T s(in[0]);
        for (unsigned i = 1u; i < in.size(); ++i) {
            s /= in[i];
        }
        return s;
    }
    if (name == "sin") {
        return audi::sin(in[0]);
    }
    if (name == "cos") {
        return audi::cos(in[0]);
    }
    if (name == "log") {
        return audi::log(in[0]);
    }
    if (name == "exp") {
        return audi::exp(in[0]);
    }
    if (name == "gaussian") {
        return audi::exp(-in[0] * in[0]);
    }
    if (name == "sqrt") {
        return audi::sqrt(in[0]);
    }
    if (name == "psqrt") {
        return audi::sqrt(audi::abs(in[0]));
    }
    T s(in[0]);
    for (unsigned i = 1u; i < in.size(); ++i) {
        s += in[i];
    }
    if (name == "sum") {
        return s;
    }
    if (name == "inv_sum") {
        return -s;
    }
    if (name == "abs") {
        return audi::abs(s);
    }
    if (name == "sig") {
        return 1. / (1. + audi::exp(-s));
    }
    if (name == "tanh") {
        return audi::tanh(s);
    }
    if (name == "sin_nu") {
        return audi::sin(s);
    }
    if (name == "cos_nu") {
        return audi::cos(s);
    }
    if (name == "gaussian_nu") {
        return audi::exp(-s * s);
    }
    if (name == "ISRU") {
        return s / audi::sqrt(1. + s * s);
    }
    if (name == "ReLu") {
        if (lead(s) < lead(T(0.))) {
            s = T(0.);
        }
        return s;
    }
    if (name == "ELU") {
        if (lead(s) < lead(T(0.))) {
            s = audi::exp(s) - T(1.);
        }
        return s;
    }
    if (name == "step") {
        if (lead(s) < lead(T(0.))) {
            s = T(0.);
        } else {
            s = T(1.);
        }
        return s;
    }
    throw std::invalid_argument("no such kernel");
}
// the protected division is for plain numbers only
inline double ref_pdiv(const std::vector<double> &in)
{
    double d(1.);
    for (unsigned i = 1u; i < in.size(); ++i) {
        d *= in[i];
    }
    double q = in[0] / d;
    return std::isfinite(q) ? q : 1.;
}
inline std::string joined(const svec &in, const std::string &op)
{
    std::string s(in[0]);
    for (unsigned i = 1u; i < in.size(); ++i) {
        s += op + in[i];
    }
    return s;
}
inline std::string ref_text(const std::string &name, const svec &in)
{
    if (name == "sum") {
        return "(" + joined(in, "+") + ")";
    }
    if (name == "diff") {
        return "(" + joined(in, "-") + ")";
    }
    if (name == "mul") {
        return "(" + joined(in, "*") + ")";
    }
    if (name == "div" || name == "pdiv") {
        return "(" + joined(in, "/") + ")";
    }
    if (name == "gaussian") {
        return "exp(-(" + in[0] + ")**2)";
    }
    if (name == "psqrt") {
        return "sqrt(abs(" + in[0] + "))";
    }
    if (name == "sin" || name == "cos" || name == "log" || name == "exp" || name == "sqrt") {
        return name + "(" + in[0] + ")";
    }
    if (name == "inv_sum") {
        return "-(" + joined(in, "+") + ")";
    }
    if (name == "gaussian_nu") {
        return "exp(-(" + joined(in, "+") + ")**2)";
    }
    if (name == "sin_nu") {
        return "sin(" + joined(in, "+") + ")";
    }
    if (name == "cos_nu") {
        return "cos(" + joined(in, "+") + ")";
    }
    return name + "(" + joined(in, "+") + ")";
}
} // namespace vspec
