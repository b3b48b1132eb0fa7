#ifndef DCGP_VERIF_STUB_SYMENGINE_EXPRESSION_H
#define DCGP_VERIF_STUB_SYMENGINE_EXPRESSION_H
#include <iostream>
#include <string>
namespace SymEngine
{
class Expression
{
public:
    Expression() = default;
    Expression(const std::string &s) : m_s(s) {}
    Expression(int n) : m_s(std::to_string(n)) {}
    friend std::ostream &operator<<(std::ostream &os, const Expression &e) { return os << e.m_s; }
    friend bool operator==(const Expression &a, const Expression &b) { return a.m_s == b.m_s; }
private:
    std::string m_s;
};
inline Expression expand(const Expression &e) { return e; }
} // namespace SymEngine
#endif
