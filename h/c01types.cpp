#include "c01types.h"
#include <thread>
#include <chrono>

using reflect::Type;

namespace c01 {
Count counts[TypeCount];
std::atomic<int> slow;
void stall()
{
    int n = slow.load(std::memory_order_relaxed);
    if (n == 1) std::this_thread::yield();
    else if (n > 1) std::this_thread::sleep_for(std::chrono::microseconds(n));
}
}

#define C01_BEGIN() c01::Describing d(type_); c01::stall()

reflectTypeImpl(c01::Plain) { C01_BEGIN(); reflectPlumbing(); reflectField(x); c01::stall(); reflectField(y); reflectFn(get); }
reflectTypeImpl(c01::Base) { C01_BEGIN(); reflectPlumbing(); c01::stall(); reflectField(b); reflectFn(base); }
reflectTypeImpl(c01::Mid) { C01_BEGIN(); reflectParent(c01::Base); reflectPlumbing(); c01::stall(); reflectField(m); }
reflectTypeImpl(c01::Leaf) { C01_BEGIN(); reflectPlumbing(); reflectParent(c01::Mid); reflectField(s); c01::stall(); reflectField(l); }
reflectTypeImpl(c01::CycA) { C01_BEGIN(); reflectPlumbing(); reflectField(b); c01::stall(); reflectField(kids); reflectField(v); }
reflectTypeImpl(c01::CycB) { C01_BEGIN(); reflectPlumbing(); reflectField(a); c01::stall(); reflectField(byName); reflectField(back); reflectField(v); }
reflectTypeImpl(c01::Self) { C01_BEGIN(); reflectPlumbing(); reflectField(next); c01::stall(); reflectField(all); reflectField(shared); }
reflectTypeImpl(c01::Lone) { C01_BEGIN(); reflectPlumbing(); c01::stall(); reflectField(v); }
reflectTypeImpl(c01::Func) { C01_BEGIN(); reflectFn(make); c01::stall(); reflectFn(take); }
reflectTypeImpl(c01::Conv) { C01_BEGIN(); reflectPlumbing(); c01::stall(); reflectOpCast(c01::Lone); reflectField(v); }
// Described in terms of itself.
reflectTypeImpl(c01::Over)
{
    C01_BEGIN();
    reflectField(v);
    reflectCustom(same) (T_& a, const T_& b) { return a.v == b.v; };
    c01::stall();
    reflectCustom(same) (T_& a, int b) { return a.v == b; };
    reflectCustom(box) (c01::Box<c01::Lone>& b) { return b.v.v; };
}
reflectTypeImpl(c01::inner::deep::Nested) { C01_BEGIN(); reflectPlumbing(); reflectField(p); c01::stall(); reflectField(m); }

namespace {
struct Aliases
{
    Aliases()
    {
        using reflect::Registry;
        Registry::alias<c01::Plain>("c01::PlainAlias");
        Registry::alias<c01::Plain>("other::Plain");
        Registry::alias<c01::CycA>("Cyclic");
        Registry::alias<c01::Box<c01::Plain> >("PlainBox");
        Registry::alias<c01::Leaf>("std::vector<leaf>");
        Registry::alias<c01::inner::deep::Nested>("c01::Nested");
    }
} aliases;
}

namespace c01 {

const std::vector<Expected>& expected()
{
    typedef std::vector<std::string> S;
    static const std::vector<Expected> all = {
        { "c01::Plain", false, S{ "x", "y" }, S{ "c01::Plain", "get", "operator=" }, S{}, S{ "c01::PlainAlias", "other::Plain" } },
        { "c01::Base", false, S{ "b" }, S{ "base", "c01::Base", "operator=" }, S{}, S{} },
        { "c01::Mid", false, S{ "b", "m" }, S{ "base", "c01::Base", "c01::Mid", "operator=" }, S{ "c01::Base" }, S{} },
        { "c01::Leaf", false, S{ "b", "l", "m", "s" }, S{ "base", "c01::Base", "c01::Leaf", "c01::Mid", "operator=" }, S{ "c01::Mid" }, S{ "std::vector<leaf>" } },
        { "c01::CycA", false, S{ "b", "kids", "v" }, S{ "c01::CycA", "operator=" }, S{ "c01::CycB" }, S{ "Cyclic" } },
        { "c01::CycB", false, S{ "a", "back", "byName", "v" }, S{ "c01::CycB", "operator=" }, S{ "c01::CycA" }, S{} },
        { "c01::Self", false, S{ "all", "next", "shared" }, S{ "c01::Self", "operator=" }, S{}, S{} },
        { "c01::Func", false, S{}, S{ "make", "take" }, S{ "c01::Lone", "c01::Plain", "c01::Leaf" }, S{} },
        { "c01::Lone", false, S{ "v" }, S{ "c01::Lone", "operator=" }, S{}, S{} },
        { "c01::Conv", false, S{ "v" }, S{ "c01::Conv", "operator c01::Lone()", "operator=" }, S{ "c01::Lone" }, S{} },
        { "c01::Over", false, S{ "v" }, S{ "box", "same" }, S{ "c01::Box<c01::Lone>" }, S{} },
        { "c01::Box<c01::Plain>", true, S{ "v" }, S{ "c01::Box<c01::Plain>", "get", "operator=" }, S{ "c01::Plain" }, S{ "PlainBox" } },
        { "c01::Box<c01::Box<c01::Lone>>", true, S{ "v" }, S{ "c01::Box<c01::Box<c01::Lone>>", "get", "operator=" }, S{ "c01::Box<c01::Lone>" }, S{} },
        { "c01::Box<c01::CycA>", true, S{ "v" }, S{ "c01::Box<c01::CycA>", "get", "operator=" }, S{ "c01::CycA" }, S{} },
        { "c01::Box<c01::Lone>", true, S{ "v" }, S{ "c01::Box<c01::Lone>", "get", "operator=" }, S{ "c01::Lone" }, S{} },
        { "c01::inner::deep::Nested", false, S{ "m", "p" }, S{ "c01::inner::deep::Nested", "operator=" }, S{ "c01::Plain", "c01::Leaf" }, S{ "c01::Nested" } },
    };
    return all;
}

int indexOf(const std::string& id)
{
    auto& all = expected();
    for (size_t i = 0; i < all.size(); ++i) if (id == all[i].id) return i;
    return -1;
}

namespace {

template<typename T> const Type* of(int i, int way, bool& byName)
{
    const Expected& e = expected()[i];
    byName = way >= 10;
    switch (way) {
    case 0: return reflect::type<T>();
    case 1: return reflect::type<const T>();
    case 2: return reflect::type<T&>();
    case 3: return reflect::type<const T&>();
    case 4: return reflect::type<T&&>();
    case 5: return reflect::Registry::get<T>();
    case 6: return reflect::Argument::make<const T&>().type();
    case 7: return reflect::type<T*>()->pointee();
    case 8: return reflect::type<std::vector<T> >()->template getValue<const Type*>("valueType");
    case 9: return reflect::type<std::shared_ptr<T> >()->pointee();
    case 10: return reflect::type(e.id);
    case 11: return reflect::Registry::get(reflect::typeId<const T&>());
    case 12: return reflect::Registry::globalScope()->type(e.id);
    case 13: {
        auto split = reflect::Scope::tail(e.id);
        return reflect::scope(split.second)->type(split.first);
    }
    case 14: {
        auto split = reflect::Scope::head(e.id);
        return reflect::scope(split.first)->type(split.second);
    }
    default: return e.aliases.empty() ? reflect::type(e.id) : reflect::type(e.aliases[size_t(way + i) % e.aliases.size()]);
    }
}

} // namespace

const Type* lookup(int i, int way, bool& byName)
{
    switch (i) {
    case TPlain: return of<Plain>(i, way, byName);
    case TBase: return of<Base>(i, way, byName);
    case TMid: return of<Mid>(i, way, byName);
    case TLeaf: return of<Leaf>(i, way, byName);
    case TCycA: return of<CycA>(i, way, byName);
    case TCycB: return of<CycB>(i, way, byName);
    case TSelf: return of<Self>(i, way, byName);
    case TFunc: return of<Func>(i, way, byName);
    case TLone: return of<Lone>(i, way, byName);
    case TConv: return of<Conv>(i, way, byName);
    case TOver: return of<Over>(i, way, byName);
    case TBoxPlain: return of<Box<Plain> >(i, way, byName);
    case TBoxBoxLone: return of<Box<Box<Lone> > >(i, way, byName);
    case TBoxCycA: return of<Box<CycA> >(i, way, byName);
    case TBoxLone: return of<Box<Lone> >(i, way, byName);
    default: return of<inner::deep::Nested>(i, way, byName);
    }
}

} // namespace c01
