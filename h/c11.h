// Operand types of C11.
#pragma once

#include "types.h"

#define C11_ASSIGN(X) X(+=, PlusAssign) X(-=, MinusAssign) X(*=, MultAssign) X(/=, DivAssign) X(%=, ModAssign) \
    X(&=, AndAssign) X(|=, OrAssign) X(^=, XorAssign) X(<<=, LAssign) X(>>=, RAssign)
#define C11_BINARY(X) X(+, Plus) X(-, Minus) X(*, Mult) X(/, Div) X(%, Mod) X(&, And) X(|, Or) X(^, Xor) X(<<, L) X(>>, R)
#define C11_LOGIC(X) X(&&, LAnd) X(||, LOr)
#define C11_COMPARE(X) X(==, Eq) X(!=, Ne) X(<, Lt) X(>, Gt) X(<=, Le) X(>=, Ge)

namespace c11 {

struct Entry { std::string op; const void* self; const void* arg; int64_t a, b; };
std::vector<Entry>& log();

inline int64_t f(const char* op, int64_t a, int64_t b) { return int64_t((vf::hash(op) ^ uint64_t(a) * 31 ^ uint64_t(b) * 1000003) % 100003); }
inline void note(const char* op, const void* self, const void* arg, int64_t a, int64_t b) { log().push_back(Entry{ op, self, arg, a, b }); }

struct Num
{
    int64_t v;
    explicit Num(int64_t v = 0) : v(v) {}

#define C11_X(o, N) Num& operator o (const Num& x) { note(#o, this, &x, v, x.v); v = f(#o, v, x.v); return *this; }
    C11_ASSIGN(C11_X)
#undef C11_X
#define C11_X(o, N) Num operator o (const Num& x) const { note(#o, this, &x, v, x.v); return Num(f(#o, v, x.v)); }
    C11_BINARY(C11_X)
#undef C11_X
#define C11_X(o, N) bool operator o (const Num& x) const { note(#o, this, &x, v, x.v); return f(#o, v, x.v) & 1; }
    C11_LOGIC(C11_X)
    C11_COMPARE(C11_X)
#undef C11_X
    Num& operator++() { note("++", this, nullptr, v, 0); v += 3; return *this; }
    Num& operator--() { note("--", this, nullptr, v, 0); v -= 5; return *this; }
    Num operator++(int x) { note("p++", this, nullptr, v, x); Num old(*this); v += 7 + x; return old; }
    Num operator--(int x) { note("p--", this, nullptr, v, x); Num old(*this); v -= 11 + x; return old; }
    Num operator~() const { note("~", this, nullptr, v, 0); return Num(f("~", v, 0)); }
    bool operator!() const { note("!", this, nullptr, v, 0); return f("!", v, 0) & 1; }
    int64_t operator()(int64_t a, std::string b) { note("()", this, nullptr, a, b.size()); v += a; return f("()", a, b.size()); }
    int64_t& operator[](size_t i) { note("[]", this, nullptr, v, i); return v; }
    explicit operator bool() const { note("bool", this, nullptr, v, 0); return v & 1; }
};
// Unary * apart: a type that has both has them overloaded.
struct Deref
{
    Num n;
    explicit Deref(int64_t v = 0) : n(v) {}
    Num& operator*() { note("unary*", this, nullptr, n.v, 0); return n; }
    explicit operator bool() const { note("bool", this, nullptr, n.v, 0); return n.v & 1; }
};
// Inherits everything.
struct Child : public Num { int64_t w; explicit Child(int64_t v = 0) : Num(v), w(v) {} };

// Operators by hand, with overloads.
struct Mixed { int64_t v; std::string s; explicit Mixed(int64_t v = 0) : v(v), s("m") {} };

// One operator each.
#define C11_X(o, N) struct One##N { int v; One##N& operator o (int x) { return *this; } };
C11_ASSIGN(C11_X)
#undef C11_X
#define C11_X(o, N) struct One##N { int v; int operator o (int x) const { return x; } };
C11_BINARY(C11_X)
#undef C11_X
#define C11_X(o, N) struct One##N { int v; bool operator o (int x) const { return x; } };
C11_LOGIC(C11_X)
C11_COMPARE(C11_X)
#undef C11_X
struct OneInc { int v; OneInc& operator++() { return *this; } };
struct OneDec { int v; OneDec& operator--() { return *this; } };
struct OnePInc { int v; OnePInc operator++(int) { return *this; } };
struct OnePDec { int v; OnePDec operator--(int) { return *this; } };
struct OneNot { int v; int operator~() const { return 1; } };
struct OneBang { int v; bool operator!() const { return true; } };
struct OneCall { int v; int operator()(int x) const { return x; } };
struct OneIndex { int v; int operator[](int x) const { return x; } };
struct OneStar { int v; int operator*() const { return 1; } };
struct OneNone { int v; };
struct BothInc { int v; BothInc& operator++() { return *this; } BothInc operator++(int) { return *this; } };

#define C11_ONES(Y) \
    C11_ASSIGN(Y) C11_BINARY(Y) C11_LOGIC(Y) C11_COMPARE(Y) \
    Y(++, Inc) Y(--, Dec) Y(++, PInc) Y(--, PDec) Y(~, Not) Y(!, Bang) Y((), Call) Y([], Index) Y(*, Star)

} // namespace c11

reflectTypeDecl(c11::Num)
reflectTypeDecl(c11::Deref)
reflectTypeDecl(c11::Child)
reflectTypeDecl(c11::Mixed)
#define C11_X(o, N) reflectTypeDecl(c11::One##N)
C11_ONES(C11_X)
#undef C11_X
reflectTypeDecl(c11::OneNone)
reflectTypeDecl(c11::BothInc)
