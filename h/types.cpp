#include "types.h"

namespace vt {

Track::Counts Track::counts;
std::map<const Track*, int>& Track::ledger()
{
    static auto* l = new std::map<const Track*, int>;
    return *l;
}
std::vector<std::string>& calls()
{
    static auto* l = new std::vector<std::string>;
    return *l;
}

void Track::enter()
{
    mem = new bool(true);
    if (!ledger().emplace(this, 1).second)
        vf::fail("ledger", "object constructed over a live one", false);
}
Track::Track() { enter(); counts.ctor++; }
Track::Track(const Track& o) { o.check(); enter(); *mem = *o.mem; counts.copy++; }
Track::Track(Track&& o) { o.check(); enter(); *mem = *o.mem; *o.mem = false; counts.move++; }
Track& Track::operator=(const Track& o) { check(); o.check(); *mem = *o.mem; counts.copyAssign++; return *this; }
Track& Track::operator=(Track&& o)
{
    check(); o.check();
    bool m = *o.mem; *o.mem = false; *mem = m;
    counts.moveAssign++;
    return *this;
}
Track::~Track()
{
    counts.dtor++;
    if (!ledger().erase(this)) { vf::fail("ledger", "destroyed an object that isn't alive", false); return; }
    delete mem;
    mem = nullptr;
}
void Track::check() const
{
    if (!ledger().count(this)) vf::fail("ledger", "used an object that isn't alive");
}

} // namespace vt

reflectTypeImpl(vt::A)
{
    reflectPlumbing();
    reflectAllocPlumbing();
    reflectCons(int);
    reflectCons(int, std::string);
    reflectField(v);
    reflectField(s);
    reflectFn(get);
    reflectFn(set);
    reflectFn(ref);
    reflectFn(cref);
    reflectFn(self);
    reflectFn(cself);
    reflectFn(add);
}
reflectTypeImpl(vt::B)
{
    reflectParent(vt::A);
    reflectPlumbing();
    reflectAllocPlumbing();
    reflectCons(int);
    reflectField(w);
    reflectFn(getw);
}
reflectTypeImpl(vt::C)
{
    reflectParent(vt::B);
    reflectPlumbing();
    reflectAllocPlumbing();
    reflectCons(int);
    reflectField(x);
}
reflectTypeImpl(vt::U)
{
    reflectPlumbing();
    reflectCons(int);
    reflectField(v);
    reflectFn(set);
}
// Without constructor from int: an object that also converts to int would be ambiguous with its own copy.
reflectTypeImpl(vt::Cv)
{
    reflectPlumbing();
    reflectField(v);
    reflectOpCast(vt::A);
    reflectOpCast(int);
    reflectOpCast(vt::CvB);
}
reflectTypeImpl(vt::CvB)
{
    reflectParent(vt::Cv);
    reflectPlumbing();
    type_->addFunction("operator vt::Cv()", &vt::CvB::up);
}
reflectTypeImpl(vt::NC)
{
    reflectPlumbing();
    reflectCons(int);
    reflectField(v);
}
reflectTypeImpl(vt::NM)
{
    reflectPlumbing();
    reflectField(v);
    reflectFn(set);
}
