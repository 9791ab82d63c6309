// Operations on JSON all of which follows from a seed, over the types of jt.h and some more.
#pragma once

#include "jtm.h"
#include "threads.h"
#include "dsl/all.h"

using namespace vf;

// Types that take their time to be described.
namespace jt {
std::atomic<int> slow(0);
void stall()
{
    int n = slow.load(std::memory_order_relaxed);
    if (n == 1) std::this_thread::yield();
    else if (n > 1) std::this_thread::sleep_for(std::chrono::microseconds(n));
}

struct P { int64_t x = 0; double y = 0; std::string renamed; };
struct Q { std::string s; std::vector<P> ps; std::shared_ptr<P> p; };
struct R { std::shared_ptr<R> next; std::map<std::string, R> kids; std::vector<Q> qs; bool b = false; };
struct S : public Q { std::unordered_map<std::string, R> rs; std::string optional; };
template<typename T> struct W { T v; std::vector<T> l; W() : v(T()) {} };
template<typename F> void fields(P& o, F& f) { f("x", o.x); f("y", o.y); f("re", o.renamed); }
template<typename F> void fields(Q& o, F& f) { f("s", o.s); f("ps", o.ps); f("p", o.p); }
template<typename F> void fields(R& o, F& f) { f("next", o.next); f("kids", o.kids); f("qs", o.qs); f("b", o.b); }
template<typename F> void fields(S& o, F& f) { fields(static_cast<Q&>(o), f); f("rs", o.rs); f.optional("optional", o.optional); }
template<typename T, typename F> void fields(W<T>& o, F& f) { f("v", o.v); f("l", o.l); }
template<> struct M<P> : MObj<P> {};
template<> struct M<Q> : MObj<Q> {};
template<> struct M<R> : MObj<R> {};
template<> struct M<S> : MObj<S> {};
template<typename T> struct M<W<T> > : MObj<W<T> > {};

// As [x], by functions of its own, which use the readers and writers of others.
struct Own
{
    int64_t x = 0; P p;
    void readIt(Reader& reader) { reflect::json::parseArray(reader, [&] (size_t i) { if (i) reflect::json::parse(reader, p); else x = reflect::json::parseInt(reader); }); }
    void printIt(Writer& writer) const { reflect::json::printArray(writer, 2, [&] (size_t i) { if (i) reflect::json::print(writer, p); else reflect::json::printInt(writer, x); }); }
};
template<> struct M<Own>
{
    static void gen(Own& c, Rng& r, int d) { c.x = randomInt(r); M<P>::gen(c.p, r, d); }
    static bool apply(Own&, const Dom&) { return false; }
    static Dom dom(const Own& c, bool k) { Dom d(Dom::Array); d.items.push_back(Dom::integer(c.x)); d.items.push_back(M<P>::dom(c.p, k)); return d; }
    static bool empty(const Own&) { return false; }
    static bool equal(const Own& a, const Own& b) { return a.x == b.x && M<P>::equal(a.p, b.p); }
    static void copy(Own& a, const Own& b) { a = b; }
    static Dom suited(Rng& r, int n) { Dom d(Dom::Array); d.items.push_back(Dom::integer(randomInt(r))); d.items.push_back(M<P>::suited(r, n)); return d; }
    template<typename F> static void each(Own& c, F& f) { M<P>::each(c.p, f); }
};

reflect::json::Traits traits(bool skipEmpty, std::string alias, std::string parser = "", std::string printer = "")
{
    reflect::json::Traits t;
    t.skip = false; t.skipEmpty = skipEmpty; t.alias = alias; t.parser = parser; t.printer = printer;
    return t;
}
}

reflectTypeDecl(jt::P)
reflectTypeDecl(jt::Q)
reflectTypeDecl(jt::R)
reflectTypeDecl(jt::S)
reflectTypeDecl(jt::Own)
reflectTemplate(jt::W, T) { jt::stall(); reflectPlumbing(); reflectField(v); jt::stall(); reflectField(l); }
reflectTypeImpl(jt::P) { reflectPlumbing(); reflectAllocPlumbing(); reflectField(x); jt::stall(); reflectField(y); reflectField(renamed); jt::stall(); reflectFieldValue(renamed, json, jt::traits(false, "re")); }
reflectTypeImpl(jt::Q) { jt::stall(); reflectPlumbing(); reflectAllocPlumbing(); reflectField(s); reflectField(ps); jt::stall(); reflectField(p); }
reflectTypeImpl(jt::R) { reflectPlumbing(); reflectAllocPlumbing(); reflectField(next); jt::stall(); reflectField(kids); reflectField(qs); jt::stall(); reflectField(b); }
reflectTypeImpl(jt::S) { reflectPlumbing(); reflectAllocPlumbing(); jt::stall(); reflectParent(jt::Q); reflectField(rs); reflectField(optional); jt::stall(); reflectFieldValue(optional, json, jt::traits(true, "")); }
reflectTypeImpl(jt::Own) { reflectPlumbing(); reflectField(x); reflectFn(readIt); jt::stall(); reflectFn(printIt); jt::stall(); reflectTypeValue(json, jt::traits(false, "", "readIt", "printIt")); }

namespace {

using namespace jt;

size_t count() { return targetCount() + 12; }
std::unique_ptr<Target> make(size_t i)
{
    typedef std::unique_ptr<Target> T;
    if (i < targetCount()) return makeTarget(i);
    switch (i - targetCount()) {
    case 0: return T(new TargetT<jt::P>("P"));
    case 1: return T(new TargetT<jt::Q>("Q"));
    case 2: return T(new TargetT<jt::R>("R"));
    case 3: return T(new TargetT<jt::S>("S"));
    case 4: return T(new TargetT<Own>("Own"));
    case 5: return T(new TargetT<W<int64_t> >("W<int64_t>"));
    case 6: return T(new TargetT<W<W<std::string> > >("W<W<string>>"));
    case 7: return T(new TargetT<W<jt::P> >("W<P>"));
    case 8: return T(new TargetT<std::vector<Own> >("vector<Own>"));
    case 9: return T(new TargetT<std::map<std::string, W<double> > >("map<string,W<double>>"));
    case 10: return T(new TargetT<std::shared_ptr<jt::S> >("shared_ptr<S>"));
    default: return T(new TargetT<std::vector<std::shared_ptr<jt::R> > >("vector<shared_ptr<R>>"));
    }
}

enum Kind { ReadSuited, ReadMutated, ReadStream, Print, Both, Convenience, Tokens, Kinds };

// One operation; all it does follows from its seed.
struct Op { int kind; size_t target; uint64_t seed; };

std::string state(const Reader& r) { return VF_STR(" " << r.line() << ":" << r.pos() << " " << (r.error() ? r.error().what() : "ok")); }

std::string perform(const Op& op)
{
    Rng r(op.seed);
    std::unique_ptr<Target> t = make(op.target);
    unsigned opts = r.below(8), wopts = r.below(16);
    Style style;
    style.comments = opts & Reader::AllowComments;
    style.unicodeEscapes = opts & Reader::UnescapeUnicode;
    std::string out;
    auto print = [&] {
        if (!t->printable()) return;
        std::ostringstream ss;
        Writer w(ss, Writer::Options(wopts));
        t->print(w);
        out += "[" + ss.str() + "]" + (w.error() ? w.error().what() : "");
    };
    auto read = [&] (const std::string& s, int times) {
        std::istringstream ss(s);
        Reader reader(ss, Reader::Options(opts));
        for (int i = 0; i < times && !reader.error(); ++i) t->read(reader);
        out += state(reader);
        if (t->printable()) out += t->dom(false).text();
    };
    switch (op.kind) {
    case ReadSuited: read(render(t->suited(r, 3), r, style), 1); break;
    case ReadMutated: if (r.chance(40)) t->gen(r, 2); read(mutate(render(t->suited(r, 3), r, style), r), 1); break;
    case ReadStream: { std::string s; for (int i = 0; i < 3; ++i) s += render(t->suited(r, 2), r, style) + " "; read(s, 3); break; }
    case Print: t->gen(r, 3); print(); break;
    case Both: read(render(t->suited(r, 3), r, style), 1); print(); break;
    case Convenience: {
        if (!t->printable()) break;
        t->gen(r, 3);
        auto p = t->printText();
        auto u = t->fresh();
        auto e = u->readText(p.first);
        out += p.first + (p.second ? p.second.what() : "") + (e ? e.what() : "") + u->dom(false).text();
        break;
    }
    default: {
        std::istringstream ss(r.chance(50) ? soup(r) : render(randomDom(r, 3), r, style));
        Reader reader(ss, Reader::Options(opts));
        if (r.chance(50)) reflect::json::skip(reader);
        else for (int i = 0; i < 50 && reader; ++i) out += reader.nextToken().print() + " ";
        out += state(reader);
    }
    }
    t.reset();
    Leaf::sweep();
    return out;
}

} // namespace
