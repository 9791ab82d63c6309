// Reference model of argument matching, written from the C++ rules of parameter passing.
#pragma once

#include "types.h"

namespace vm {

using reflect::RefType;
using reflect::Match;

enum TypeNo
{
    TVoid, TValue, TBool, TInt, TLong, TDouble, TString,
    TA, TB, TC, TU, TCv, TCvB, TNC, TNM,
    TPInt, TPA, TPB, TPC, TPPA, TPPB, TSA, TSB, TUA, TUB, TVecInt,
    TypeCount
};

template<typename T> struct No;
#define VM_NO(T, N) template<> struct No<T> { static const TypeNo value = N; };
VM_NO(void, TVoid) VM_NO(reflect::Value, TValue) VM_NO(bool, TBool) VM_NO(int, TInt) VM_NO(long, TLong)
VM_NO(double, TDouble) VM_NO(std::string, TString)
VM_NO(vt::A, TA) VM_NO(vt::B, TB) VM_NO(vt::C, TC) VM_NO(vt::U, TU) VM_NO(vt::Cv, TCv) VM_NO(vt::CvB, TCvB)
VM_NO(vt::NC, TNC) VM_NO(vt::NM, TNM)
VM_NO(int*, TPInt) VM_NO(vt::A*, TPA) VM_NO(vt::B*, TPB) VM_NO(vt::C*, TPC) VM_NO(vt::A**, TPPA) VM_NO(vt::B**, TPPB)
VM_NO(std::shared_ptr<vt::A>, TSA) VM_NO(std::shared_ptr<vt::B>, TSB)
VM_NO(std::unique_ptr<vt::A>, TUA) VM_NO(std::unique_ptr<vt::B>, TUB)
VM_NO(std::vector<int>, TVecInt)

const reflect::Type* desc(int t);
const char* name(int t);

// c is derived from p (or the same), or both are pointers of the same kind to such.
bool isBase(int p, int c);
// from is described as converting to to.
bool convertible(int from, int to);
// from converts to to by a user defined conversion.
bool converts(int from, int to);

struct Arg
{
    int t;
    RefType r;
    bool c;
    Arg(int t = TVoid, RefType r = RefType::Copy, bool c = false) : t(t), r(r), c(c) {}
    reflect::Argument real() const { return reflect::Argument(desc(t), r, c); }
    std::string print() const;
    bool operator==(const Arg& o) const { return t == o.t && r == o.r && c == o.c; }
};

// What Argument::make<T>() describes.
template<typename T> Arg declared()
{
    typedef typename std::remove_reference<T>::type NoRef;
    Arg a;
    a.t = No<typename std::remove_cv<NoRef>::type>::value;
    a.r = std::is_lvalue_reference<T>::value ? RefType::LValue
        : std::is_rvalue_reference<T>::value ? RefType::RValue : RefType::Copy;
    a.c = std::is_const<NoRef>::value;
    return a;
}

// The argument that an opaque value stands for.
int noOf(const reflect::Type* t);
inline Arg of(const reflect::Value& v) { return Arg(noOf(v.type()), v.refType(), v.isConst()); }

Match passing(const Arg& from, const Arg& to);       // argument -> parameter
Match returning(const Arg& wanted, const Arg& ret);  // requested result, declared result
Match worst(Match a, Match b);

struct Sig
{
    Arg ret;
    std::vector<Arg> args;
    std::string print() const;
};
// Calling something of signature fn as if it had signature as.
Match calling(const Sig& as, const Sig& fn);

template<typename Fn> struct SigOf;
template<typename R, typename... P> struct SigOf<R(P...)>
{
    static Sig make() { return Sig{ declared<R>(), { declared<P>()... } }; }
};

} // namespace vm
