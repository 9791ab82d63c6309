#include "c11.h"

#define C11_X(o, N) reflectTypeImpl(c11::One##N) { reflectOperators(); }
C11_ONES(C11_X)
reflectTypeImpl(c11::OneNone) { reflectOperators(); }
reflectTypeImpl(c11::BothInc) { reflectOperators(); }

reflectTypeImpl(c11::Mixed)
{
    using namespace c11;
    reflectPlumbing();
    reflectCustom(operator+) (const T_& a, int64_t b) { note("+int", &a, nullptr, a.v, b); return T_(f("+int", a.v, b)); };
    reflectCustom(operator+) (const T_& a, const std::string& b) { note("+str", &a, &b, a.v, b.size()); return a.s + b; };
    reflectCustom(operator+) (const T_& a, const T_& b) { note("+mixed", &a, &b, a.v, b.v); return T_(f("+mixed", a.v, b.v)); };
    reflectCustom(operator+=) (T_& a, const std::string& b) -> T_& { note("+=str", &a, &b, a.v, b.size()); a.s += b; return a; };
    reflectCustom(operator[]) (T_& a, size_t b) -> int64_t& { note("[]mut", &a, nullptr, a.v, b); return a.v; };
    reflectCustom(operator[]) (const T_& a, size_t b) -> const int64_t& { note("[]const", &a, nullptr, a.v, b); return a.v; };
    reflectCustom(operator==) (const T_& a, int64_t b) { note("==int", &a, nullptr, a.v, b); return a.v == b; };
    reflectCustom(operator==) (const T_& a, const T_& b) { note("==mixed", &a, &b, a.v, b.v); return a.v == b.v; };
    reflectCustom(operator()) (const T_& a) { note("()0", &a, nullptr, a.v, 0); return 10; };
    reflectCustom(operator()) (const T_& a, int64_t b) { note("()1", &a, nullptr, a.v, b); return 11; };
    reflectCustom(operator()) (const T_& a, int64_t b, int64_t c) { note("()2", &a, nullptr, b, c); return 12; };
}
