// C08: fields against the bytes of the objects they belong to.
#include "types.h"

using namespace vf;
using reflect::Value;
using reflect::Field;
using reflect::Type;
using reflect::Argument;
using reflect::RefType;

// ------------------------------------------------------------------ static types

namespace c8 {

struct Inner
{
    char a; int b; const short k; double d; std::string s; unsigned char e;
    Inner(int x = 0) : a(x), b(x * 3), k(x + 1), d(x / 2.0), s("i" + std::to_string(x)), e(x) {}
    std::string print() const { return VF_STR(int(a) << "," << b << "," << k << "," << d << "," << s << "," << int(e)); }
};

struct Base
{
    int shared; long long big; bool flag; std::string name; Inner in;
    Base(int x = 0) : shared(x), big(x * 1000000007LL), flag(x & 1), name("base" + std::to_string(x)), in(x) {}
};
// Hides two members of its parent, one by another type.
struct Derived : public Base
{
    double shared; float f; Inner name; int* ptr; std::vector<int> vec; unsigned short us;
    const Inner cin;
    Derived(int x = 0) : Base(x), shared(x + 0.5), f(x * 0.25f), name(x + 1), ptr(nullptr), vec(3, x), us(x), cin(x + 9) {}
};
// Hides again.
struct Most : public Derived
{
    std::string big; signed char f; std::shared_ptr<Inner> sp; char last;
    Most(int x = 0) : Derived(x), big("most" + std::to_string(x)), f(x), sp(new Inner(x + 3)), last('z') {}
    std::string print() const
    {
        return VF_STR(Base::shared << "|" << Base::big << "|" << flag << "|" << Base::name << "|" << Base::in.print() << "|"
                << Derived::shared << "|" << Derived::f << "|" << Derived::name.print() << "|" << ptr << "|" << vec[0] << "," << vec[1] << "," << vec[2]
                << "|" << us << "|" << cin.print() << "|" << big << "|" << int(f) << "|" << sp->print() << "|" << last);
    }
};

struct Arrays { int before; alignas(8) int arr[4]; int after; };
struct Front { long front[2]; };
struct Offset : public Front, public Base { int own; Offset() : Base(3), own(4) { front[0] = front[1] = -1; } };

} // namespace c8

using namespace c8;

reflectType(c8::Inner) { reflectPlumbing(); reflectField(a); reflectField(b); reflectField(k); reflectField(d); reflectField(s); reflectField(e); }
reflectType(c8::Base) { reflectPlumbing(); reflectField(shared); reflectField(big); reflectField(flag); reflectField(name); reflectField(in); }
reflectType(c8::Derived)
{
    reflectParent(c8::Base); reflectField(shared); reflectField(f); reflectField(name); reflectField(ptr); reflectField(vec); reflectField(us); reflectField(cin);
}
reflectType(c8::Most) { reflectParent(c8::Derived); reflectField(big); reflectField(f); reflectField(sp); reflectField(last); }
reflectType(c8::Arrays) { reflectField(before); reflectField(arr); reflectField(after); }
reflectType(c8::Offset) { reflectParent(c8::Base); reflectField(own); }

// ------------------------------------------------------------------ types made at run time

enum { BlobSize = 512 };
struct Blob { alignas(16) unsigned char bytes[BlobSize]; };
Type* blobType = nullptr;
reflectTypeDecl(Blob)
reflectTypeImpl(Blob) { blobType = type_; reflectPlumbing(); }

namespace {

// ------------------------------------------------------------------ members of the static types

struct Member
{
    const char* name;
    const Type* type;
    bool c;
    size_t offset;
    void* addr;          // in the object
};
// The members that an object has by name when seen as a class. Inner ones first.
std::vector<Member> innerMembers(Inner& o)
{
    char* p = (char*) &o;
#define M(T, f, c) Member{ #f, reflect::type<T>(), c, size_t((char*) &o.f - p), (void*) &o.f }
    return { M(char, a, false), M(int, b, false), M(short, k, true), M(double, d, false), M(std::string, s, false), M(unsigned char, e, false) };
#undef M
}
std::vector<Member> membersOf(Most& o, int level, int as)
{
    char* p = (char*) &o;
    std::vector<Member> m;
    auto add = [&] (const char* name, const Type* t, bool c, const void* a) {
        for (auto& x : m) if (!strcmp(x.name, name)) return; // hidden
        m.push_back(Member{ name, t, c, size_t((char*) a - p), (void*) a });
    };
    (void) level;
    if (as >= 2) {
        add("big", reflect::type<std::string>(), false, &o.big); add("f", reflect::type<signed char>(), false, &o.f);
        add("sp", reflect::type<std::shared_ptr<Inner> >(), false, &o.sp); add("last", reflect::type<char>(), false, &o.last);
    }
    if (as >= 1) {
        add("shared", reflect::type<double>(), false, &o.Derived::shared); add("f", reflect::type<float>(), false, &o.Derived::f);
        add("name", reflect::type<Inner>(), false, &o.Derived::name); add("ptr", reflect::type<int*>(), false, &o.ptr);
        add("vec", reflect::type<std::vector<int> >(), false, &o.vec); add("us", reflect::type<unsigned short>(), false, &o.us);
        add("cin", reflect::type<Inner>(), true, &o.cin);
    }
    add("shared", reflect::type<int>(), false, &o.Base::shared); add("big", reflect::type<long long>(), false, &o.Base::big);
    add("flag", reflect::type<bool>(), false, &o.flag); add("name", reflect::type<std::string>(), false, &o.Base::name);
    add("in", reflect::type<Inner>(), false, &o.in);
    return m;
}

template<typename T> std::string str(const T& x) { return VF_STR(x); }
std::string str(const char& x) { return VF_STR(int(x)); }
std::string str(const signed char& x) { return VF_STR(int(x)); }
std::string str(const unsigned char& x) { return VF_STR(int(x)); }

// Reads and writes a member of a known type through the object's value, by name.
template<typename T>
bool access(Value& obj, const Member& m, bool c, T fresh, Rng& r, const std::function<std::string()>& snapshot)
{
    if (m.type != reflect::type<T>()) return false;
    T& native = *static_cast<T*>(m.addr);
    std::string before = snapshot();
    // reads
    {
        const T& byRef = obj.field<const T&>(m.name);
        VF_CHECK(&byRef == &native, "identity", m.name << " is elsewhere");
        T copy = obj.field<T>(m.name);
        VF_CHECK(str(copy) == str(native), "read", m.name << " read as " << str(copy) << ", is " << str(native));
        Value v = obj.field(m.name);
        VF_CHECK(str(v.get<T>()) == str(native), "read", m.name << " read as " << str(v.get<T>()));
        VF_CHECK(snapshot() == before, "read-writes", "reading " << m.name << " changed the object");
        event("fields read");
    }
    // writes
    T old = native;
    const bool may = !c && !m.c;
    bool refused = false;
    switch (r.below(4)) {
    case 0: refused = raises([&] { obj.field(m.name).assign(fresh); }); break;
    case 1: refused = raises([&] { obj.field<T&>(m.name) = fresh; }); break;
    case 2: refused = raises([&] { Value v = obj.field<Value>(m.name); v.assign(Value(fresh)); }); break;
    default: {
        // a reference kept before the member changes natively shows the change
        if (m.c) return true;
        Value kept = obj.field(m.name);
        native = fresh;
        VF_CHECK(str(kept.get<T>()) == str(fresh), "stale", m.name << " read as " << str(kept.get<T>()) << " after it became " << str(fresh));
        VF_CHECK(str(obj.field<T>(m.name)) == str(fresh), "stale", m.name << " read anew");
        native = old;
        VF_CHECK(snapshot() == before, "write", "put back");
        return true;
    }
    }
    VF_EQ(refused, !may, "write", "writing " << m.name << " refused");
    if (refused) VF_CHECK(snapshot() == before, "write", "writing " << m.name << " was refused but changed the object");
    else {
        VF_CHECK(str(native) == str(fresh), "write", m.name << " became " << str(native) << ", expected " << str(fresh));
        native = old; // everything else has to be as before
        VF_CHECK(snapshot() == before, "write-others", "writing " << m.name << " changed other members");
        native = fresh;
        event("fields written");
    }
    return true;
}

void metadata(const Type* t, const Member& m)
{
    VF_CHECK(t->hasField(m.name), "missing", t->id() << " has no field " << m.name);
    const Field& f = t->field(m.name);
    VF_EQ(f.name(), std::string(m.name), "metadata", "name");
    VF_EQ(f.offset(), m.offset, "metadata", "offset of " << m.name);
    VF_EQ(f.type(), m.type, "metadata", "type of " << m.name);
    VF_EQ(f.argument().isConst(), m.c, "metadata", "constness of " << m.name);
    VF_CHECK(f.argument().refType() == RefType::Copy, "metadata", "kind of " << m.name);
    event("descriptions checked");
}

bool accessAny(Value& obj, const Member& m, bool c, Rng& r, const std::function<std::string()>& snap)
{
    int x = r.range(-100, 100);
    return access<char>(obj, m, c, char(x), r, snap) || access<signed char>(obj, m, c, (signed char) x, r, snap) ||
        access<unsigned char>(obj, m, c, (unsigned char) x, r, snap) || access<bool>(obj, m, c, x & 1, r, snap) ||
        access<short>(obj, m, c, short(x * 99), r, snap) || access<unsigned short>(obj, m, c, (unsigned short)(x * 77), r, snap) ||
        access<int>(obj, m, c, x * 1000003, r, snap) || access<long long>(obj, m, c, x * 10000000007LL, r, snap) ||
        access<float>(obj, m, c, x * 0.5f, r, snap) || access<double>(obj, m, c, x * 0.125, r, snap) ||
        access<std::string>(obj, m, c, "text " + std::to_string(x) + (x & 1 ? " on the heap because it is long" : ""), r, snap) ||
        access<int*>(obj, m, c, reinterpret_cast<int*>(intptr_t(x) * 8), r, snap);
}

void unknown(Value& obj, const Type* t, Rng& r, const std::vector<Member>& ms)
{
    static const char* names[] = { "", "nope", "Shared", "shared ", "in.b", "::shared", "operator=", "sharedX", "c8::Base" };
    std::string n = names[r.below(9)];
    if (r.chance(30) && !ms.empty()) { n = ms[r.below(ms.size())].name; n = n.substr(0, r.below(n.size())); }
    for (auto& m : ms) if (n == m.name) return;
    VF_CHECK(!t->hasField(n), "unknown", "has a field " << n);
    VF_CHECK(raises([&] { obj.field(n); }), "unknown", "gave a field " << n);
    VF_CHECK(raises([&] { t->field(n); }), "unknown", "described a field " << n);
    event("unknown fields");
}

void staticTypes(Rng& r)
{
    static const Type* types[3] = { reflect::type<Base>(), reflect::type<Derived>(), reflect::type<Most>() };
    std::unique_ptr<Most> o(new Most(r.range(0, 60)));
    std::unique_ptr<Most> other(new Most(r.range(0, 60)));
    std::string otherBefore = other->print();
    auto snap = [&] { return o->print(); };

    for (int k = 0; k < 12; ++k) {
        int as = r.below(3);
        bool c = r.chance(25);
        Value v = as == 0 ? Value(static_cast<Base&>(*o)) : as == 1 ? Value(static_cast<Derived&>(*o)) : Value(*o);
        if (c) v = v.toConst();
        std::vector<Member> ms = membersOf(*o, 2, as);
        const Member& m = ms[r.below(ms.size())];
        describe(VF_STR(types[as]->id() << (c ? " const" : "") << "." << m.name));
        metadata(types[as], m);
        distinct(hash(m.name, as * 2 + c));
        if (as) {   // hidden or not, the parent's is still the parent's.
            std::vector<Member> up = membersOf(*o, 2, as - 1);
            metadata(types[as - 1], up[r.below(up.size())]);
            metadata(types[as]->parent(), up[r.below(up.size())]);
        }
        unknown(v, types[as], r, ms);
        if (accessAny(v, m, c, r, snap)) continue;
        if (m.type == reflect::type<Inner>()) {
            Value in = v.field(m.name);
            VF_EQ(in.value(), m.addr, "identity", "address of " << m.name);
            VF_EQ(in.isConst(), c || m.c, "constness", "constness of " << m.name);
            std::vector<Member> inner = innerMembers(*static_cast<Inner*>(m.addr));
            const Member& im = inner[r.below(inner.size())];
            metadata(reflect::type<Inner>(), im);
            distinct(hash(im.name, hash(m.name, as * 2 + c)));
            VF_CHECK(accessAny(in, im, c || m.c, r, snap), "harness", "unhandled type");
            event("nested fields");
        }
        else if (m.type == reflect::type<std::vector<int> >()) {
            Value vec = v.field(m.name);
            VF_EQ(vec.value(), m.addr, "identity", "address of " << m.name);
            VF_CHECK(&vec.call<const int&>("at", size_t(1)) == &o->vec[1], "identity", "element of " << m.name);
        }
        else {
            Value sp = v.field(m.name);
            VF_EQ(sp.value(), m.addr, "identity", "address of " << m.name);
            Value in = *sp;
            VF_EQ(in.value(), (void*) o->sp.get(), "identity", "what " << m.name << " points to");
            std::vector<Member> inner = innerMembers(*o->sp);
            VF_CHECK(accessAny(in, inner[r.below(inner.size())], false, r, snap), "harness", "unhandled type");
            event("nested fields");
        }
    }
    VF_CHECK(other->print() == otherBefore, "other-object", "another object changed");
}

// ------------------------------------------------------------------ types made at run time

struct RField { std::string name; int prim; int sub; bool c; size_t offset; };
struct RType
{
    std::unique_ptr<Type> type;
    int parent = -1;
    size_t size = 0;
    std::vector<RField> fields;
};
// Descriptors outlive their case: the blob's fields name them.
std::vector<RType>& allTypes() { static auto* v = new std::vector<RType>; return *v; }

struct Prim
{
    size_t size;
    const Type* (*type)();
    void (*write)(Value v, uint64_t x);
    uint64_t (*read)(Value v);
    uint64_t (*native)(const void*);
};
template<typename T> const Type* primType() { return reflect::type<T>(); }
template<typename T> void primWrite(Value v, uint64_t x) { T t; memcpy(&t, &x, sizeof t); v.assign(t); }
template<typename T> uint64_t primRead(Value v) { T t = reflect::cast<T>(v); uint64_t x = 0; memcpy(&x, &t, sizeof t); return x; }
template<typename T> uint64_t primNative(const void* p) { uint64_t x = 0; memcpy(&x, p, sizeof(T)); return x; }
template<typename T> Prim prim() { return Prim{ sizeof(T), &primType<T>, &primWrite<T>, &primRead<T>, &primNative<T> }; }
std::vector<Prim>& prims()
{
    static auto* v = new std::vector<Prim>{ prim<char>(), prim<unsigned char>(), prim<short>(), prim<unsigned short>(), prim<int>(), prim<unsigned>(), prim<long>(), prim<unsigned long long>() };
    return *v;
}
uint64_t maskTo(uint64_t x, size_t size) { return size == 8 ? x : x & ((1ULL << (size * 8)) - 1); }

const RField* find(const std::vector<RType>& ts, int t, const std::string& name)
{
    for (; t >= 0; t = ts[t].parent)
        for (auto& f : ts[t].fields) if (f.name == name) return &f;
    return nullptr;
}

void runtimeTypes(uint64_t idx, Rng& r)
{
    reflect::type<Blob>();
    std::vector<RType>& ts = allTypes();
    size_t first = ts.size();
    int n = r.range(1, 4);
    for (int i = 0; i < n; ++i) {
        RType t;
        t.type.reset(new Type("rt" + std::to_string(ts.size())));
        size_t at = 0;
        if (i && r.chance(50)) {
            t.parent = first + r.below(i);
            t.type->parent(ts[t.parent].type.get());
            at = ts[t.parent].size;
        }
        for (int k = r.range(1, 6); k > 0; --k) {
            RField f;
            f.name = std::string(1, 'a' + r.below(8));
            if (r.chance(20)) f.name += std::to_string(r.below(3));
            bool dup = false;
            for (auto& o : t.fields) dup = dup || o.name == f.name;
            f.sub = i && r.chance(35) ? int(first + r.below(i)) : -1;
            if (f.sub >= 0 && !ts[f.sub].size) f.sub = -1;
            f.prim = r.below(prims().size());
            f.c = r.chance(20);
            size_t size = f.sub >= 0 ? ts[f.sub].size : prims()[f.prim].size, align = f.sub >= 0 ? 8 : size;
            at = (at + align - 1) / align * align;
            f.offset = at;
            if (at + size > 400 / (n - i)) break;
            const Type* ft = f.sub >= 0 ? ts[f.sub].type.get() : prims()[f.prim].type();
            bool raised = raises([&] {
                if (f.sub < 0 && !f.c && f.prim == 4 && r.chance(50)) t.type->addField<int>(f.name, f.offset);
                else t.type->addField(f.name, Field(f.name, Argument(ft, RefType::Copy, f.c), f.offset));
            });
            VF_EQ(raised, dup, "add", "adding field " << f.name << " raised");
            if (dup) continue;
            at += size;
            t.fields.push_back(f);
        }
        t.size = (at + 7) / 8 * 8;
        ts.push_back(std::move(t));
    }

    const int root = ts.size() - 1;
    const std::string rootName = "root" + std::to_string(idx);
    const size_t rootAt = r.below(8) * 8;
    blobType->addField(rootName, Field(rootName, Argument(ts[root].type.get(), RefType::Copy, false), rootAt));

    Blob blob;
    for (auto& b : blob.bytes) b = r.next();
    Blob shadow = blob;
    auto same = [&] (const std::string& what) {
        if (!memcmp(&blob, &shadow, sizeof blob)) return;
        size_t i = 0;
        while (blob.bytes[i] == shadow.bytes[i]) ++i;
        fail("bytes", VF_STR(what << ": byte " << i << " is " << int(blob.bytes[i]) << ", expected " << int(shadow.bytes[i])));
    };

    std::string shape;
    for (int i = first; i <= root; ++i) {
        shape += VF_STR(ts[i].type->id() << (ts[i].parent >= 0 ? ":" + ts[ts[i].parent].type->id() : "") << "{");
        for (auto& f : ts[i].fields) shape += VF_STR(f.name << (f.c ? " const" : "") << (f.sub >= 0 ? " " + ts[f.sub].type->id() : VF_STR(" p" << f.prim)) << "@" << f.offset << ";");
        shape += "}";
    }

    Value held(blob);
    for (int k = 0; k < 15; ++k) {
        Value v = held.field(rootName);
        int t = root;
        size_t off = rootAt;
        bool c = false;
        std::string path = rootName;
        for (;;) {
            VF_EQ(v.value(), (void*)(blob.bytes + off), "identity", path << " in " << shape);
            VF_EQ(v.isConst(), c, "constness", path << " in " << shape);
            VF_EQ(v.type(), (const Type*) ts[t].type.get(), "type", path << " in " << shape);
            std::string name(1, 'a' + r.below(8));
            if (r.chance(10)) name += std::to_string(r.below(3));
            // mostly names that exist somewhere
            if (r.chance(60)) { int u = t; if (ts[u].parent >= 0 && r.chance(50)) u = ts[u].parent; if (!ts[u].fields.empty()) name = r.pick(ts[u].fields).name; }
            const RField* f = find(ts, t, name);
            describe(path + "." + name + " in " + shape);
            VF_EQ(ts[t].type->hasField(name), f != nullptr, "has", "hasField");
            if (!f) {
                VF_CHECK(raises([&] { v.field(name); }), "unknown", "gave a field that isn't there");
                event("unknown fields");
                break;
            }
            const Field& d = static_cast<const Type&>(*ts[t].type).field(name);
            VF_EQ(d.offset(), f->offset, "metadata", "offset");
            VF_EQ(d.argument().isConst(), f->c, "metadata", "constness");
            VF_EQ(d.type(), f->sub >= 0 ? (const Type*) ts[f->sub].type.get() : prims()[f->prim].type(), "metadata", "type");
            path += "." + name;
            off += f->offset;
            c = c || f->c;
            if (r.chance(5)) { v = v.toConst(); c = true; }
            v = v.field(name);
            if (f->sub >= 0) { t = f->sub; event("nested fields"); continue; }

            const Prim& p = prims()[f->prim];
            distinct(shape + path);
            VF_EQ(v.value(), (void*)(blob.bytes + off), "identity", "address");
            VF_EQ(v.isConst(), c, "constness", "constness");
            VF_EQ(p.read(v), p.native(shadow.bytes + off), "read", "value read");
            event("fields read");
            uint64_t x = r.next();
            bool refused = raises([&] { p.write(v, x); });
            VF_EQ(refused, c, "write", "write refused");
            if (!refused) { memcpy(shadow.bytes + off, &x, p.size); event("fields written"); }
            same(path);
            if (!refused) VF_EQ(p.read(v), maskTo(x, p.size), "read", "value read back");
            // changed natively
            x = r.next();
            memcpy(blob.bytes + off, &x, p.size); memcpy(shadow.bytes + off, &x, p.size);
            VF_EQ(p.read(v), maskTo(x, p.size), "stale", "value read after a native change");
            break;
        }
    }
    // fields and functions share names
    RType& last = ts[root];
    if (!last.fields.empty()) {
        std::string name = r.pick(last.fields).name;
        VF_CHECK(raises([&] { last.type->addFunction(name, [] {}); }), "add", "a function took the name of a field");
        VF_CHECK(last.type->hasField(name), "add", "field lost");
        last.type->addFunction("fn", [] {});
        VF_CHECK(raises([&] { last.type->addField<int>("fn", 0); }), "add", "a field took the name of a function");
        VF_CHECK(!last.type->hasField("fn"), "add", "field added in spite of an error");
    }
    event("run time types", n);
}

void offsetParent()
{
    Offset o;
    Value v(o);
    VF_EQ(v.field<int>("own"), 4, "read", "own field of a type whose parent isn't first");
    const void* got = v.field("shared").value();
    if (got != (void*) &o.Base::shared)
        fail(got == (char*) &o + ((char*) &o.Base::shared - (char*) static_cast<Base*>(&o)) ? "base-offset" : "identity",
                "the field of a parent at an offset is read elsewhere", false);
    event("parents at an offset");
}

void arrayField()
{
    Arrays o = { 1, { 2, 3, 4, 5 }, 6 };
    Value v(o);
    VF_EQ(v.field<int>("before"), 1, "read", "field before an array");
    VF_EQ(v.field<int>("after"), 6, "read", "field after an array");
    // Either refused or the array's elements.
    int* got = o.arr;
    bool raised = raises([&] { got = v.field<int*>("arr"); });
    event(raised ? "array fields refused" : "array fields read");
    int* bytes;
    std::memcpy(&bytes, o.arr, sizeof bytes);
    if (!raised && got != o.arr)
        fail(got == bytes ? "array-field" : "identity", "a field of array type is read as if its elements were a pointer", false);
}

void run(uint64_t idx, Rng& r)
{
    if (idx % 1000 == 0) { offsetParent(); arrayField(); }
    if (idx % 4 == 0) runtimeTypes(idx, r);
    else staticTypes(r);
}

} // namespace

const vf::Harness harness = { "c08", &run, nullptr, nullptr };
