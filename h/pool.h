// A pool of functions of many signatures, none of which may run unless a case says so.
#pragma once

#include "model.h"

namespace vp {

// Runs are only logged: which function, nothing else.
template<typename R> struct Result
{
    typedef typename std::decay<R>::type T;
    static R get() { static T* t = new T(); return static_cast<R>(*t); }
};
template<> struct Result<void> { static void get() {} };
template<typename T> struct Result< T* > { static T* get() { return nullptr; } };
template<typename T> struct Result< std::unique_ptr<T> > { static std::unique_ptr<T> get() { return std::unique_ptr<T>(); } };
template<> struct Result<vt::NC> { static vt::NC get() { return vt::NC(); } };

template<typename Fn> struct Body;
template<typename R, typename... P> struct Body<R(P...)>
{
    static R run(P...) { vt::called(vm::SigOf<R(P...)>::make().print()); return Result<R>::get(); }
};

struct Entry
{
    vm::Sig sig;
    std::string text;
    reflect::Function (*make)(const std::string& name);
    reflect::Match (*testOn)(const reflect::Function& fn);     // fn.test<Sig>()
    bool (*overloadsTest)(const reflect::Overloads& fns);      // fns.test<Sig>()
    const reflect::Function& (*overloadsGet)(const reflect::Overloads& fns);
};

template<typename Fn> struct MakeEntry
{
    static reflect::Function make(const std::string& name) { return reflect::Function(name, &Body<Fn>::run); }
    static reflect::Match testOn(const reflect::Function& fn) { return fn.test<Fn>(); }
    static bool overloadsTest(const reflect::Overloads& fns) { return fns.test<Fn>(); }
    static const reflect::Function& overloadsGet(const reflect::Overloads& fns) { return fns.get<Fn>(); }
    static Entry entry()
    {
        Entry e;
        e.sig = vm::SigOf<Fn>::make();
        e.text = e.sig.print();
        e.make = &make;
        e.testOn = &testOn;
        e.overloadsTest = &overloadsTest;
        e.overloadsGet = &overloadsGet;
        return e;
    }
};

template<typename T> void addRefs(std::vector<Entry>& out)
{
    out.push_back(MakeEntry<void(T)>::entry());
    out.push_back(MakeEntry<void(T&)>::entry());
    out.push_back(MakeEntry<void(const T&)>::entry());
    out.push_back(MakeEntry<void(T&&)>::entry());
}
template<typename T> void addRets(std::vector<Entry>& out)
{
    out.push_back(MakeEntry<T()>::entry());
    out.push_back(MakeEntry<T&()>::entry());
    out.push_back(MakeEntry<const T&()>::entry());
    out.push_back(MakeEntry<T&&()>::entry());
}

void addPool1(std::vector<Entry>& out);
void addPool2(std::vector<Entry>& out);
void addPool3(std::vector<Entry>& out);

inline const std::vector<Entry>& pool()
{
    static const std::vector<Entry>* p = [] {
        auto* v = new std::vector<Entry>;
        addPool1(*v);
        addPool2(*v);
        addPool3(*v);
        return v;
    }();
    return *p;
}

} // namespace vp
