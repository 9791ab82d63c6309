// C12: containers through reflection against native ones, the same history applied to both.
#pragma once

#include "types.h"
#include <climits>

namespace c12 {

using namespace vf;
using reflect::Value;
using reflect::Type;

// ------------------------------------------------------------------ elements

template<typename T> struct El;
template<> struct El<int>
{
    static int make(Rng& r)
    {
        static const int edges[] = { 0, 0, 0, 1, -1, INT_MIN, INT_MAX };
        return r.chance(15) ? edges[r.below(7)] : r.range(-1000, 1000);
    }
    static std::string show(int x) { return std::to_string(x); }
};
template<> struct El<std::string>
{
    static std::string make(Rng& r)
    {
        if (r.chance(10)) return "";
        std::string s = std::to_string(r.below(40));
        if (r.chance(30)) s += std::string(r.below(60), 'x');
        if (r.chance(5)) s += std::string(1, '\0') + "after nul";
        return s;
    }
    static std::string show(const std::string& s) { return quote(s); }
};
template<> struct El<vt::A>
{
    static vt::A make(Rng& r) { return r.chance(10) ? vt::A() : vt::A(r.range(-1000, 1000)); }
    static std::string show(const vt::A& a) { a.t.check(); return a.t.moved() ? "moved" : VF_STR("A" << a.v << a.s); }
};
template<> struct El<double>
{
    static double make(Rng& r) { return r.chance(10) ? 0 : r.range(-1000, 1000) / 8.0; }
    static std::string show(double a) { return VF_STR(a); }
};
template<typename T> struct El<std::vector<T> >
{
    static std::vector<T> make(Rng& r) { std::vector<T> v; for (size_t n = r.below(4); n; --n) v.push_back(El<T>::make(r)); return v; }
    static std::string show(const std::vector<T>& v) { std::string s = "["; for (auto& x : v) s += El<T>::show(x) + ","; return s + "]"; }
};
template<typename K, typename V> struct El<std::map<K, V> >
{
    typedef std::map<K, V> M;
    static M make(Rng& r) { M m; for (size_t n = r.below(4); n; --n) m[El<K>::make(r)] = El<V>::make(r); return m; }
    static std::string show(const M& m) { std::string s = "{"; for (auto& x : m) s += El<K>::show(x.first) + ":" + El<V>::show(x.second) + ","; return s + "}"; }
};
template<typename K, typename V> struct El<std::unordered_map<K, V> >
{
    typedef std::unordered_map<K, V> M;
    static M make(Rng& r) { M m; for (size_t n = r.below(4); n; --n) m[El<K>::make(r)] = El<V>::make(r); return m; }
    static std::string show(const M& u) { std::map<K, V> m(u.begin(), u.end()); return El<std::map<K, V> >::show(m); }
};
// Shared between the native containers and the ones under test: the same object is the same.
template<typename T> struct El<std::shared_ptr<T> >
{
    static std::shared_ptr<T> make(Rng& r)
    {
        static std::vector<std::shared_ptr<T> > all;
        if (all.empty()) for (int i = 0; i < 8; ++i) all.emplace_back(new T(i));
        return r.chance(15) ? nullptr : all[r.below(all.size())];
    }
    static std::string show(const std::shared_ptr<T>& p) { return p ? El<T>::show(*p) : "null"; }
};

// ------------------------------------------------------------------ arguments

enum { ArgKinds = 7 };
// Calls fn with x passed in one of many ways. An rvalue is always a copy.
template<typename T, typename Fn> void withArg(int kind, T x, const Fn& fn)
{
    const T& c = x;
    switch (kind) {
    case 0: fn(x); break;
    case 1: fn(c); break;
    case 2: fn(T(x)); return;
    case 3: fn(Value(x)); break;
    case 4: fn(Value(c)); break;
    case 5: { Value v{ T(x) }; fn(v); VF_EQ(El<T>::show(v.template get<T>()), El<T>::show(x), "argument", "argument afterwards"); } break;
    default: fn(Value(T(x)).rvalue()); return;
    }
}

// Result extracted by value.
template<typename T> T out(const Value& v) { return v.template get<T>(); }

// ------------------------------------------------------------------ the container under test

enum View { Mutable, Owned, Const, MadeConst };

template<typename T> struct Under
{
    std::unique_ptr<T> native;  // null if owned.
    T model;
    Value v;
    View view;
    T* real;

    Under(T init, Rng& r) : model(init)
    {
        view = View(r.below(10) < 5 ? Mutable : r.below(10) < 6 ? Owned : r.below(2) ? Const : MadeConst);
        if (view == Owned) { v = Value(std::move(init)); real = static_cast<T*>(v.value()); return; }
        native.reset(new T(std::move(init)));
        real = native.get();
        v = view == Const ? Value(static_cast<const T&>(*real)) : Value(*real);
        if (view == MadeConst) v = v.toConst();
    }
    bool mut() const { return view == Mutable || view == Owned; }
    void same(const char* after) const
    {
        VF_EQ(El<T>::show(*real), El<T>::show(model), "content", VF_STR("content after " << after));
        VF_EQ((void*) real, v.value(), "identity", VF_STR("address after " << after));
    }
};

inline const char* viewName(View v) { static const char* n[] = { "mutable", "owned", "const", "made const" }; return n[v]; }

// Copying, assigning and moving, common to all. Returns false if op isn't one of these.
enum { PlumbingOps = 8 };
template<typename T> void plumbing(Under<T>& u, int op, Rng& r)
{
    const Type* type = reflect::type<T>();
    switch (op) {
    case 0: { // copies.
        Value c = type->construct(u.v);
        if (u.mut() || true) VF_EQ(El<T>::show(c.template get<T>()), El<T>::show(u.model), "copy", "copy constructed");
        VF_CHECK(c.value() != u.v.value(), "copy", "the copy is the original");
        event("copies");
        break;
    }
    case 1: {
        Value c = u.v.copy();
        VF_EQ(El<T>::show(c.template get<T>()), El<T>::show(u.model), "copy", "copied");
        VF_CHECK(c.value() != u.v.value(), "copy", "the copy is the original");
        if (r.chance(50)) c.assign(El<T>::make(r)); // independent.
        event("copies");
        break;
    }
    case 2: case 3: { // assignment.
        T x = El<T>::make(r);
        T before = x;
        withArg(r.below(ArgKinds), x, [&] (auto&& a) {
            bool raised = raises([&] { u.v.assign(std::forward<decltype(a)>(a)); });
            VF_EQ(raised, !u.mut(), "assign", "refused");
        });
        if (u.mut()) u.model = before;
        event("assignments");
        break;
    }
    case 4: { // itself.
        bool raised = raises([&] { u.v.assign(u.v); });
        VF_EQ(raised, !u.mut(), "assign", "self assignment refused");
        break;
    }
    case 5: { // taken.
        if (!u.mut()) break;
        Value c = type->construct(u.v.rvalue());
        T moved = std::move(u.model);
        VF_EQ(El<T>::show(c.template get<T>()), El<T>::show(moved), "move", "moved out");
        u.model = T(); // strings and containers are empty once moved from.
        u.same("moved out");
        u.v.assign(c);
        u.model = std::move(moved);
        event("moves");
        break;
    }
    case 6: { // fresh.
        Value c = type->construct();
        VF_EQ(El<T>::show(c.template get<T>()), El<T>::show(T()), "default", "default constructed");
        break;
    }
    default: { // results.
        T c = u.v.template get<T>();
        VF_EQ(El<T>::show(c), El<T>::show(u.model), "copy", "copied out");
        size_t s = type->template getValue<size_t>("sizeof");
        VF_EQ(s, sizeof(T), "sizeof", "size");
    }
    }
}

void vectors1(Rng& r);
void vectors2(Rng& r);
void maps1(Rng& r);
void maps2(Rng& r);
void maps3(Rng& r);
void pointers(Rng& r);

// ------------------------------------------------------------------ vectors

template<typename T> void vectors(Rng& r)
{
    typedef std::vector<T> V;
    const Type* type = reflect::type<V>();
    VF_CHECK(type->is("list") && !type->is("map") && !type->is("smartPtr"), "traits", "of " << type->id());
    VF_EQ(type->template getValue<const Type*>("valueType"), reflect::type<T>(), "traits", "value type");

    Under<V> u(El<V>::make(r), r);
    describe(VF_STR(viewName(u.view) << " " << type->id()));
    uint64_t path = hash(type->id(), u.view);
    size_t changes = 0;
    for (int n = r.range(4, 30); n; --n) {
        int op = r.below(20);
        path = mix(path, op);
        std::string what = VF_STR("operation " << op);
        switch (op) {
        case 0: case 1: case 2: case 3: {
            T x = El<T>::make(r);
            int kind = r.below(ArgKinds);
            what = VF_STR("push_back " << kind);
            withArg(kind, x, [&] (auto&& a) {
                bool raised = raises([&] { u.v.template call<void>("push_back", std::forward<decltype(a)>(a)); });
                VF_EQ(raised, !u.mut(), "refused", "push_back refused");
            });
            if (u.mut()) { u.model.push_back(x); ++changes; event("elements pushed"); }
            break;
        }
        case 4: { // one of its own.
            if (!u.mut() || u.model.empty()) break;
            size_t i = r.below(u.model.size());
            Value e = u.v[i];
            switch (r.below(3)) {
            case 0: u.v.template call<void>("push_back", e); break;
            case 1: u.v.template call<void>("push_back", u.v.template call<Value>("at", i)); break;
            default: u.v.template call<void>("push_back", e.template get<T>()); break;
            }
            u.model.push_back(T(u.model[i]));
            event("own elements pushed");
            break;
        }
        case 5: case 6: {
            VF_EQ(u.v.template call<size_t>("size"), u.model.size(), "result", "size");
            Value s = u.v.template call<Value>("size");
            VF_EQ(s.template get<size_t>(), u.model.size(), "result", "size as a value");
            break;
        }
        case 7: {
            if (!r.chance(30)) break;
            bool raised = raises([&] { u.v.template call<void>("clear"); });
            VF_EQ(raised, !u.mut(), "refused", "clear refused");
            if (u.mut()) u.model.clear();
            break;
        }
        case 8: {
            size_t s = r.below(8);
            bool raised = raises([&] { if (r.chance(50)) u.v.template call<void>("resize", s); else u.v.template call<void>("resize", Value(size_t(s))); });
            VF_EQ(raised, !u.mut(), "refused", "resize refused");
            if (u.mut()) u.model.resize(s);
            break;
        }
        case 9: case 10: case 11: { // elements denoted.
            if (u.model.empty()) break;
            size_t i = r.below(u.model.size());
            Value e;
            bool raised = raises([&] { e = u.v[i]; });
            VF_EQ(raised, !u.mut(), "refused", "mutable element refused");
            if (raised) break;
            VF_EQ(e.value(), (void*) &(*u.real)[i], "alias", "element denoted");
            VF_CHECK(!e.isConst() && !e.isStored(), "alias", "kind of the element");
            VF_EQ(e.type(), reflect::type<T>(), "alias", "type of the element");
            T x = El<T>::make(r);
            (*u.real)[i] = x; // seen through the reference.
            VF_EQ(El<T>::show(e.template get<T>()), El<T>::show(x), "alias", "element seen");
            T y = El<T>::make(r);
            withArg(r.below(ArgKinds), y, [&] (auto&& a) { e.assign(std::forward<decltype(a)>(a)); });
            u.model[i] = y;
            T& ref = u.v.template call<T&>("operator[]", i);
            VF_EQ((void*) &ref, (void*) &(*u.real)[i], "alias", "element referred to");
            event("element references");
            break;
        }
        case 12: case 13: case 14: { // checked.
            size_t i = r.chance(60) ? r.below(u.model.size() + 1) : r.chance(50) ? r.below(100) : size_t(-1) - r.below(3);
            Value e;
            std::string msg;
            bool raised = raises([&] { e = u.v.template call<Value>("at", i); }, &msg);
            VF_EQ(raised, i >= u.model.size(), "checked", VF_STR("at(" << i << ") of " << u.model.size() << " refused"));
            if (raised) {
                VF_CHECK(msg.find(std::to_string(i)) != std::string::npos && msg.find(std::to_string(u.model.size())) != std::string::npos, "message", msg);
                VF_CHECK(e.isVoid(), "checked", "got something");
                event("out of range");
                break;
            }
            VF_EQ(e.value(), (void*) &(*u.real)[i], "alias", "element denoted by at");
            VF_CHECK(e.isConst() && !e.isStored(), "alias", "kind of the element of at");
            VF_CHECK(raises([&] { e.assign(El<T>::make(r)); }), "checked", "changed through at");
            VF_EQ(El<T>::show(u.v.template call<T>("at", i)), El<T>::show(u.model[i]), "result", "element by value");
            const T& ref = u.v.template call<const T&>("at", i);
            VF_EQ((const void*) &ref, (const void*) &(*u.real)[i], "alias", "element referred to by at");
            event("elements checked");
            break;
        }
        default: plumbing(u, op - 15 + (r.below(2) ? 3 : 0), r); break;
        }
        u.same(what.c_str());
        event("steps");
    }
    if (changes) distinct(path);
}

// ------------------------------------------------------------------ maps

template<typename M> void maps(Rng& r)
{
    typedef typename M::key_type K;
    typedef typename M::mapped_type T;
    const Type* type = reflect::type<M>();
    VF_CHECK(type->is("map") && !type->is("list") && !type->is("smartPtr"), "traits", "of " << type->id());
    VF_EQ(type->template getValue<const Type*>("valueType"), reflect::type<T>(), "traits", "value type");
    VF_EQ(type->template getValue<const Type*>("keyType"), reflect::type<K>(), "traits", "key type");

    Under<M> u(El<M>::make(r), r);
    describe(VF_STR(viewName(u.view) << " " << type->id()));
    uint64_t path = hash(type->id(), u.view);
    std::map<K, Value> refs;        // references kept: those of maps stay good.
    auto anyKey = [&] () -> K {
        if (u.model.empty() || r.chance(40)) return El<K>::make(r);
        auto it = u.model.begin();
        std::advance(it, r.below(u.model.size()));
        return it->first;
    };
    size_t changes = 0;
    for (int n = r.range(4, 30); n; --n) {
        int op = r.below(20);
        path = mix(path, op);
        std::string what = VF_STR("operation " << op);
        switch (op) {
        case 0: case 1: case 2: case 3: case 4: {
            K k = anyKey();
            int kind = r.below(ArgKinds);
            what = VF_STR("operator[] " << El<K>::show(k));
            bool known = u.model.count(k);
            Value e;
            withArg(kind, k, [&] (auto&& a) {
                bool raised = raises([&] { e = u.v[std::forward<decltype(a)>(a)]; });
                VF_EQ(raised, !u.mut(), "refused", "mutable element refused");
            });
            if (!u.mut()) break;
            if (!known) event("keys created");
            u.model[k];
            u.same(what.c_str());
            VF_EQ(e.value(), (void*) &(*u.real)[k], "alias", "element denoted");
            VF_CHECK(!e.isConst() && !e.isStored(), "alias", "kind of the element");
            VF_EQ(e.type(), reflect::type<T>(), "alias", "type of the element");
            if (r.chance(50)) refs[k] = e;
            if (r.chance(60)) {
                T y = El<T>::make(r);
                withArg(r.below(ArgKinds), y, [&] (auto&& a) { e.assign(std::forward<decltype(a)>(a)); });
                u.model[k] = y;
                ++changes;
            }
            event("element references");
            break;
        }
        case 5: {
            VF_EQ(u.v.template call<size_t>("size"), u.model.size(), "result", "size");
            break;
        }
        case 6: case 7: {
            K k = anyKey();
            withArg(r.below(ArgKinds), k, [&] (auto&& a) {
                VF_EQ(u.v.template call<size_t>("count", std::forward<decltype(a)>(a)), u.model.count(k), "result", "count");
            });
            event(u.model.count(k) ? "keys found" : "keys missing");
            break;
        }
        case 8: case 9: case 10: {
            K k = anyKey();
            Value e;
            bool raised = false;
            withArg(r.below(ArgKinds), k, [&] (auto&& a) {
                raised = raises([&] { e = u.v.template call<Value>("at", std::forward<decltype(a)>(a)); });
            });
            VF_EQ(raised, !u.model.count(k), "checked", VF_STR("at(" << El<K>::show(k) << ") refused"));
            if (raised) { VF_CHECK(e.isVoid(), "checked", "got something"); event("missing keys"); break; }
            VF_EQ(e.value(), (void*) &u.real->at(k), "alias", "element denoted by at");
            VF_CHECK(e.isConst() && !e.isStored(), "alias", "kind of the element of at");
            VF_CHECK(raises([&] { e.assign(El<T>::make(r)); }), "checked", "changed through at");
            VF_EQ(El<T>::show(u.v.template call<T>("at", k)), El<T>::show(u.model.at(k)), "result", "element by value");
            event("elements checked");
            break;
        }
        case 11: case 12: {
            auto keys = u.v.template call<std::vector<K> >("keys");
            std::vector<K> want;
            for (auto& x : *u.real) want.push_back(x.first);
            VF_EQ(El<std::vector<K> >::show(keys), El<std::vector<K> >::show(want), "result", "keys");
            Value vk = u.v.template call<Value>("keys");
            VF_EQ(vk.template call<size_t>("size"), u.model.size(), "result", "number of keys");
            if (u.mut()) for (size_t i = 0; i < keys.size(); ++i) { // looked up again by their own key.
                Value e = u.v[vk.template call<Value>("at", i)];
                VF_EQ(e.value(), (void*) &(*u.real)[want[i]], "alias", "element of a listed key");
            }
            break;
        }
        case 13: { // kept references.
            for (auto& x : refs) {
                if (!u.model.count(x.first)) continue;
                VF_EQ(El<T>::show(x.second.template get<T>()), El<T>::show(u.model.at(x.first)), "alias", "reference kept");
                if (r.chance(50)) { T y = El<T>::make(r); x.second.assign(y); u.model[x.first] = y; event("references kept"); }
            }
            break;
        }
        case 14: { // a key that's also an element of its own map.
            K k = anyKey();
            if (!u.mut() || !u.model.count(k)) break;
            auto it = u.real->find(k);
            Value e = u.v[it->first];
            VF_EQ(e.value(), (void*) &it->second, "alias", "element of its own key");
            break;
        }
        default: refs.clear(); plumbing(u, op - 15 + (r.below(2) ? 3 : 0), r); break; // these drop the elements.
        }
        u.same(what.c_str());
        event("steps");
    }
    if (changes) distinct(path);
}

} // namespace c12
