// Instrumented types shared by the harnesses of the reflection core.
#pragma once

#include "common.h"
#include "types/primitives.h"
#include "types/std/string.h"
#include "types/std/vector.h"
#include "types/std/map.h"
#include "types/std/smart_ptr.h"
#include "types/reflect/value.h"
#include "types/reflect/type.h"

namespace vt {

/******************************************************************************/
/* TRACK                                                                      */
/******************************************************************************/

// Counts every construction, copy, move and destruction of the objects that contain it, keeps a ledger of
// those alive, and owns memory so that stale accesses are visible to AddressSanitizer.
struct Track
{
    struct Counts { long ctor = 0, copy = 0, move = 0, dtor = 0, copyAssign = 0, moveAssign = 0; };
    static Counts counts;
    static std::map<const Track*, int>& ledger();
    static long live() { return ledger().size(); }

    Track();
    Track(const Track& o);
    Track(Track&& o);
    Track& operator=(const Track& o);
    Track& operator=(Track&& o);
    ~Track();

    bool moved() const { return !*mem; }
    void check() const; // alive and owned.

private:
    bool* mem; // points to false once moved from.
    void enter();
};

/******************************************************************************/
/* CALL LOG                                                                   */
/******************************************************************************/

// What user code was run, in order.
std::vector<std::string>& calls();
inline void called(const std::string& s) { calls().push_back(s); }

/******************************************************************************/
/* CLASSES                                                                    */
/******************************************************************************/

struct A
{
    Track t;
    int v;
    std::string s;

    A() : v(0) {}
    explicit A(int v) : v(v), s("s" + std::to_string(v)) {}
    A(int v, std::string s) : v(v), s(std::move(s)) {}

    int get() const { t.check(); called("A::get"); return v; }
    void set(int x) { t.check(); called("A::set"); v = x; }
    int& ref() { t.check(); called("A::ref"); return v; }
    const int& cref() const { t.check(); called("A::cref"); return v; }
    A& self() { called("A::self"); return *this; }
    const A& cself() const { called("A::cself"); return *this; }
    int add(int a, int b) const { called("A::add"); return v + 3 * a + 7 * b; }
    bool operator==(const A& o) const { return v == o.v && s == o.s; }
};

struct B : public A
{
    int w;
    B() : w(0) {}
    explicit B(int v) : A(v), w(v * 2) {}
    int getw() const { called("B::getw"); return w; }
};

struct C : public B
{
    int x;
    C() : x(0) {}
    explicit C(int v) : B(v), x(v * 3) {}
};

struct U
{
    Track t;
    int v;
    U() : v(0) {}
    explicit U(int v) : v(v) {}
    void set(int x) { called("U::set"); v = x; }
};

// Converts to A, int and its own child.
struct CvB;
struct Cv
{
    Track t;
    int v;
    Cv() : v(0) {}
    explicit Cv(int v) : v(v) {}
    operator A() const { called("Cv::A"); return A(v); }
    operator int() const { called("Cv::int"); return v; }
    operator CvB() const;
};

// Inherits the conversions, among them one to itself, and is described as converting to its parent.
struct CvB : public Cv
{
    CvB() {}
    explicit CvB(int v) : Cv(v) {}
    Cv up() const { called("Cv::Cv"); return Cv(v + 1000); }
};
inline Cv::operator CvB() const { called("Cv::CvB"); return CvB(v); }

// Can be moved, can't be copied.
struct NC
{
    Track t;
    int v;
    NC() : v(0) {}
    explicit NC(int v) : v(v) {}
    NC(NC&&) = default;
    NC& operator=(NC&&) = default;
    NC(const NC&) = delete;
    NC& operator=(const NC&) = delete;
};

// Neither copied nor moved.
struct NM
{
    Track t;
    int v;
    NM() : v(0) {}
    explicit NM(int v) : v(v) {}
    NM(const NM&) = delete;
    NM& operator=(const NM&) = delete;
    void set(int x) { called("NM::set"); v = x; }
};

} // namespace vt

reflectTypeDecl(vt::A)
reflectTypeDecl(vt::B)
reflectTypeDecl(vt::C)
reflectTypeDecl(vt::U)
reflectTypeDecl(vt::Cv)
reflectTypeDecl(vt::CvB)
reflectTypeDecl(vt::NC)
reflectTypeDecl(vt::NM)
