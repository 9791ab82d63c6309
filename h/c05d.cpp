// C05: results of every kind, asked for in every way.
#include "c05.h"
namespace v5 {
namespace {

// What the callee returned a reference to, and how often it ran.
struct Home
{
    int i = 5; std::string s; A a; B b; A* p = nullptr; std::shared_ptr<A> sp;
    int ran = 0;
};
Home home;

template<typename R> struct Src;
template<> struct Src<int> { static int& get() { return home.i; } };
template<> struct Src<std::string> { static std::string& get() { return home.s; } };
template<> struct Src<A> { static A& get() { return home.a; } };
template<> struct Src<B> { static B& get() { return home.b; } };
template<> struct Src<A*> { static A*& get() { return home.p; } };
template<> struct Src<std::shared_ptr<A> > { static std::shared_ptr<A>& get() { return home.sp; } };

template<typename R> R give() { home.ran++; return Src<typename std::decay<R>::type>::get(); }

template<typename T> T& Home_get() { return Src<T>::get(); }

// Requests a result as Want from a function returning R.
// A shared pointee is shared.
template<typename T> void restore(T&) {}
void restore(std::shared_ptr<A>& p) { p->v -= 1000; }

template<typename R, typename Want> struct Ask
{
    typedef typename std::decay<R>::type T;
    typedef typename std::decay<Want>::type W;

    static void go(const Function& f)
    {
        Arg wanted = declared<Want>(), ret = declared<R>();
        describe("asking for " + wanted.print() + " from a function returning " + ret.print());
        Match m = returning(wanted, ret);
        home.ran = 0;
        calls().clear();
        T& obj = Src<T>::get();
        long id = K<T>::val(obj);
        Track::Counts before = Track::counts;
        std::string what;
        bool raised = raises([&] { check(f, obj, id, before, std::is_lvalue_reference<Want>()); }, &what);
        event(raised ? "results refused" : "results checked");
        if (m == Match::None) { trivial(); VF_CHECK(raised && !home.ran, "result", "accepted, ran " << home.ran << " times"); }
        else { distinct(describeKey()); VF_CHECK(!raised, "result", "refused: " << what); VF_EQ(home.ran, 1, "runs", "times the callee ran"); }
        VF_CHECK(!K<T>::moved(obj) && K<T>::val(obj) == id, "result", "the callee's object was changed");
    }
    static std::string describeKey() { return "res" + declared<Want>().print() + declared<R>().print(); }

    static void check(const Function& f, T& obj, long id, const Track::Counts& before, std::true_type)
    {
        Want w = f.call<Want>();
        VF_CHECK((const void*) &w == (const void*) &obj, "identity", "the reference denotes another object");
        VF_EQ(Track::counts.copy + Track::counts.move, before.copy + before.move, "copies", "objects made to return a reference");
        VF_EQ(K<W>::val(w), id, "result", "value of the reference");
    }
    static void check(const Function& f, T& obj, long id, const Track::Counts&, std::false_type)
    {
        W w = f.call<Want>();
        VF_CHECK((const void*) &w != (const void*) &obj, "identity", "a value result is the callee's object");
        VF_EQ(K<W>::val(w), id, "result", "value of the result");
        K<W>::bump(w);
        restore(w);
        VF_EQ(K<T>::val(obj), id, "result", "callee's object after changing the result");
    }
};
template<typename R> struct Ask<R, void>
{
    static void go(const Function& f)
    {
        describe("asking for nothing from a function returning " + declared<R>().print());
        home.ran = 0;
        f.call<void>();
        event("results checked");
        distinct("void" + declared<R>().print());
        VF_EQ(home.ran, 1, "runs", "times the callee ran");
    }
};
template<typename R> struct Ask<R, Value>
{
    static void go(const Function& f)
    {
        typedef typename std::decay<R>::type T;
        describe("asking for an opaque value from a function returning " + declared<R>().print());
        home.ran = 0;
        T& obj = Src<T>::get();
        long id = K<T>::val(obj);
        Value v = f.call<Value>();
        event("results checked");
        distinct("value" + declared<R>().print());
        VF_EQ(home.ran, 1, "runs", "times the callee ran");
        VF_CHECK(v.type() == reflect::type<T>(), "result", "type of the result is " << v.typeId());
        VF_EQ(K<T>::val(v.get<T>()), id, "result", "value");
        bool ref = std::is_reference<R>::value;
        VF_EQ(v.isStored(), !ref, "result", "is owned");
        VF_EQ(v.value() == (void*) &obj, ref, "identity", "is the callee's object");
        VF_EQ(v.isConst(), ref && std::is_const<typename std::remove_reference<R>::type>::value, "result", "is const");
        VF_CHECK(v.refType() == RefType::LValue, "result", "isn't an lvalue");
    }
};

template<typename R, typename... W> struct AskAll { static void go(const Function&) {} };
template<typename R, typename W, typename... N> struct AskAll<R, W, N...>
{
    static void go(const Function& f) { Ask<R, W>::go(f); AskAll<R, N...>::go(f); }
};

template<typename R> void ask(Rng& r)
{
    typedef typename std::decay<R>::type T;
    R (*fp)() = &give<R>;
    Function f = r.chance(50) ? Function("give", fp) : Function("give", [fp] () -> R { return fp(); });
    AskAll<R, void, Value, T, T&, const T&>::go(f);
    if (!std::is_same<T, std::string>::value) AskAll<R, std::string, const std::string&, std::string&>::go(f);
}

// Results that C++ extracts as a parent.
template<typename R> void askParent(Rng&)
{
    Function f("give", &give<R>);
    AskAll<R, A, A&, const A&>::go(f);
}

} // namespace


void results(Rng& r)
{
    home.i = r.below(100000);
    home.s = K<std::string>::make(r.below(1000));
    home.a = A(r.below(1000));
    home.b = B(r.below(1000));
    home.p = K<A*>::make(1 + r.below(50));
    home.sp = std::make_shared<A>(r.below(1000));

    switch (r.below(9)) {
    case 0: ask<int>(r); ask<int&>(r); ask<const int&>(r); break;
    case 1: ask<std::string>(r); ask<std::string&>(r); ask<const std::string&>(r); break;
    case 2: ask<A>(r); ask<A&>(r); ask<const A&>(r); break;
    case 3: ask<B>(r); ask<B&>(r); ask<const B&>(r); break;
    case 4: ask<A*>(r); ask<A*&>(r); ask<A* const&>(r); break;
    case 5: ask<std::shared_ptr<A> >(r); ask<std::shared_ptr<A>&>(r); ask<const std::shared_ptr<A>&>(r); break;
    case 6: askParent<B>(r); askParent<B&>(r); askParent<const B&>(r); break;
    default: {
        // opaque results are handed through as they are.
        static Value given;
        static int ran;
        describe("opaque results");
        Function f("val", +[] () -> Value { ran++; return given; });
        Function n("nothing", +[] { ran++; });
        ran = 0;
        A a(r.below(1000));
        given = Value(a);
        Value v = f.call<Value>();
        VF_CHECK(v.value() == &a && !v.isStored() && !v.isConst(), "opaque-result", "referring value");
        VF_CHECK(&f.call<A&>() == &a, "opaque-result", "reference extracted");
        VF_CHECK(raises([&] { f.call<const A&>(); }), "opaque-result", "const reference to a temporary");
        VF_CHECK(f.call<A>() == a, "opaque-result", "copy extracted");
        given = Value(A(a.v));
        v = f.call<Value>();
        VF_CHECK(v.value() == given.value() && v.isStored(), "opaque-result", "owning value");
        VF_CHECK(f.call<A>() == a, "opaque-result", "copy extracted from an owning value");
        VF_CHECK(&f.call<A&>() == given.value(), "opaque-result", "reference to a shared object");
        given = given.toConst();
        VF_CHECK(f.call<Value>().isConst(), "opaque-result", "const value");
        VF_CHECK(raises([&] { f.call<A&>(); }), "opaque-result", "mutable reference to a const object");
        VF_CHECK(raises([&] { f.call<std::string>(); }), "opaque-result", "wrong type");
        VF_EQ(ran, 9, "runs", "times the callee ran");
        given = Value();
        VF_CHECK(f.call<Value>().isVoid(), "opaque-result", "void value");
        VF_CHECK(n.call<Value>().isVoid(), "opaque-result", "void result");
        n.call<void>();
        VF_EQ(ran, 12, "runs", "times the callee ran");
        VF_CHECK(raises([&] { n.call<int>(); }), "opaque-result", "result of a void function");
        VF_EQ(ran, 12, "runs", "times the callee ran");
        event("results checked", 12);
        distinct("opaque result " + std::to_string(a.v));
        break;
    } }
}

} // namespace v5
