// C07: constness along random paths through reflected objects, against a model of what is const.
#include "types.h"

using namespace vf;
using reflect::Value;
using reflect::RefType;

namespace c7 {

struct Leaf
{
    int a;
    const int k;
    std::string s;
    Leaf(int a = 0, int k = 0) : a(a), k(k), s("s" + std::to_string(a)) {}
    Leaf(const Leaf& o) : a(o.a), k(o.k), s(o.s) {}
    Leaf& operator=(const Leaf& o) { a = o.a; s = o.s; return *this; }

    void set(int x) { a = x; }
    int get() const { return a; }
    int& ref() { return a; }
    const int& cref() const { return a; }
    Leaf& self() { return *this; }
    const Leaf& cself() const { return *this; }
    Leaf copy() const { return *this; }
    Leaf& operator+=(int x) { a += x; return *this; }
    Leaf& operator++() { ++a; return *this; }
    int operator+(int x) const { return a + x; }
    bool operator==(const Leaf& o) const { return a == o.a; }
};

// Inherited members have to follow the same rules.
struct Node : public Leaf
{
    Leaf in;
    const Leaf cin;
    std::vector<Leaf> vec;
    std::map<int, Leaf> map;
    std::shared_ptr<Leaf> sp;
    Leaf* raw;
    Leaf* const craw;
    std::string str;

    explicit Node(int v = 0) :
        Leaf(v, v + 1), in(v + 2, v + 3), cin(v + 4, v + 5), vec{ Leaf(v + 6, 1), Leaf(v + 7, 2) },
        sp(new Leaf(v + 10, 4)), raw(sp.get()), craw(sp.get()), str("node")
    {
        map.insert(std::make_pair(0, Leaf(v + 8, 3))); map.insert(std::make_pair(1, Leaf(v + 9, 3)));
    }
    Node(const Node& o) : Leaf(o), in(o.in), cin(o.cin), vec(o.vec), map(o.map), sp(new Leaf(*o.sp)), raw(sp.get()), craw(sp.get()), str(o.str) {}
    Node& operator=(const Node& o) { Leaf::operator=(o); in = o.in; vec = o.vec; str = o.str; return *this; }

    Leaf& mut() { return in; }
    const Leaf& look() const { return in; }
    const Leaf& peek() { return in; }        // const result of a mutating method.
    Leaf make() const { return in; }
    const Value view() const { return Value(in); }
    Value open() { return Value(in); }
    std::string print() const
    {
        auto leaf = [] (const Leaf& l) { return "(" + std::to_string(l.a) + "," + std::to_string(l.k) + "," + l.s + ")"; };
        std::string r = leaf(*this) + leaf(in) + leaf(cin) + "[";
        for (auto& l : vec) r += leaf(l);
        r += "]{";
        for (auto& l : map) r += std::to_string(l.first) + leaf(l.second);
        return r + "}" + leaf(*sp) + str;
    }
};

struct Tree
{
    Node left;
    const Node right;
    std::vector<Node> nodes;
    std::shared_ptr<Node> shared;
    explicit Tree(int v) : left(v), right(v + 100), shared(new Node(v + 300)) { nodes.push_back(Node(v + 200)); nodes.push_back(Node(v + 220)); }
    Node& l() { return left; }
    const Node& r() const { return right; }
    std::string print() const
    {
        return left.print() + right.print() + nodes[0].print() + nodes[1].print() + shared->print();
    }
};

} // namespace c7

using namespace c7;

reflectType(c7::Leaf)
{
    reflectPlumbing();
    reflectField(a); reflectField(k); reflectField(s);
    reflectFn(set); reflectFn(get); reflectFn(ref); reflectFn(cref); reflectFn(self); reflectFn(cself); reflectFn(copy);
    reflectOpAssign(); reflectOpIncDec(); reflectOpArithmetic(); reflectOpComparaison();
}
reflectType(c7::Node)
{
    reflectParent(c7::Leaf);
    reflectPlumbing();
    reflectField(in); reflectField(cin); reflectField(vec); reflectField(map); reflectField(sp);
    reflectField(raw); reflectField(craw); reflectField(str);
    reflectFn(mut); reflectFn(look); reflectFn(peek); reflectFn(make);
}
reflectType(c7::Tree)
{
    reflectField(left); reflectField(right); reflectField(nodes); reflectField(shared);
    reflectFn(l); reflectFn(r);
}

namespace {

typedef std::vector<Leaf> VL;
typedef std::vector<Node> VN;
typedef std::map<int, Leaf> ML;
typedef std::shared_ptr<Leaf> SL;
typedef std::shared_ptr<Node> SN;

enum Kind { KInt, KString, KLeaf, KNode, KTree, KVL, KVN, KML, KSL, KSN, KPL };

// Where a path has led: the value, the object it stands for and whether it may be changed through it.
struct At
{
    Value v;
    Kind k;
    void* p;
    bool c;               // const
    RefType ref;
    std::string path;
    bool alive;           // p is part of the root (or kept alive by v)
};

int gInt; std::string gStr;
int runs = 0;
reflect::Overloads pick, strictMut, viaValue;

template<typename T> void addPick()
{
    pick.add(reflect::Function("pick", [] (T&) { ++runs; return 1; }));
    pick.add(reflect::Function("pick", [] (const T&) { ++runs; return 2; }));
    strictMut.add(reflect::Function("strict", [] (T&) { ++runs; }));
}
void init()
{
    addPick<int>(); addPick<std::string>(); addPick<Leaf>(); addPick<Tree>();
    addPick<VL>(); addPick<VN>(); addPick<ML>(); addPick<SL>(); addPick<Leaf*>();
    // values handed on as they are
    viaValue.add(reflect::Function("via", [] (Value v, int x) { v.assign(x); }));
}

template<typename T> T& at(const At& a) { return *static_cast<T*>(a.p); }

// One more step of the path. Returns false if there is none of that kind; raises nothing that isn't expected.
bool step(At& a, Rng& r)
{
    const bool mutableLRef = !a.c && a.ref == RefType::LValue;
    auto go = [&] (Value v, Kind k, void* p, bool c, const std::string& name) {
        a.v = v; a.k = k; a.p = p; a.c = c; a.ref = RefType::LValue; a.path += name;
        event("steps");
        return true;
    };
    auto field = [&] (const char* name, Kind k, void* p, bool constField) {
        return go(a.v.field(name), k, p, a.c || constField, std::string(".") + name);
    };
    // A method that needs a mutable object must be refused on a const one.
    auto mutating = [&] (const std::function<Value()>& fn, Kind k, void* p, bool resultConst, const std::string& name) {
        Value v;
        bool raised = raises([&] { v = fn(); });
        VF_CHECK(raised == !mutableLRef, "method", a.path << name << (raised ? " refused on a mutable path" : " ran on a const path"));
        event(raised ? "mutating methods refused" : "mutating methods");
        if (raised) return false;
        return go(v, k, p, resultConst, name);
    };

    if (r.chance(6)) { a.v = a.v.toConst(); a.c = true; a.ref = RefType::RValue; a.path += ".toConst()"; return true; }
    if (r.chance(4)) { a.v = a.v.rvalue(); a.ref = RefType::RValue; a.path += ".rvalue()"; return true; }
    if (r.chance(6)) { Value copy(a.v); Value other; other = copy; a.v = std::move(other); a.path += "'"; }

    switch (a.k) {
    case KTree: {
        Tree& t = at<Tree>(a);
        switch (r.below(6)) {
        case 0: return field("left", KNode, &t.left, false);
        case 1: return field("right", KNode, (void*) &t.right, true);
        case 2: return field("nodes", KVN, &t.nodes, false);
        case 3: return field("shared", KSN, &t.shared, false);
        case 4: { Value v = a.v; return mutating([v] { return v.call<Value>("l"); }, KNode, &t.left, false, ".l()"); }
        default: return go(a.v.call<Value>("r"), KNode, (void*) &t.right, true, ".r()");
        }
    }
    case KNode: case KLeaf: {
        if (a.k == KNode && r.chance(75)) {
            Node& n = at<Node>(a);
            Value v = a.v;
            switch (r.below(11)) {
            case 0: return field("in", KLeaf, &n.in, false);
            case 1: return field("cin", KLeaf, (void*) &n.cin, true);
            case 2: return field("vec", KVL, &n.vec, false);
            case 3: return field("map", KML, &n.map, false);
            case 4: return field("sp", KSL, &n.sp, false);
            case 5: return field("raw", KPL, &n.raw, false);
            case 6: return field("craw", KPL, (void*) &n.craw, true);
            case 7: return field("str", KString, &n.str, false);
            case 8: return mutating([v] { return v.call<Value>("mut"); }, KLeaf, &n.in, false, ".mut()");
            case 9: return go(v.call<Value>("look"), KLeaf, &n.in, true, ".look()");
            default: return mutating([v] { return v.call<Value>("peek"); }, KLeaf, &n.in, true, ".peek()");
            }
        }
        Leaf& l = at<Leaf>(a);
        Value v = a.v;
        switch (r.below(7)) {
        case 0: return field("a", KInt, &l.a, false);
        case 1: return field("k", KInt, (void*) &l.k, true);
        case 2: return field("s", KString, &l.s, false);
        case 3: return mutating([v] { return v.call<Value>("ref"); }, KInt, &l.a, false, ".ref()");
        case 4: return go(v.call<Value>("cref"), KInt, &l.a, true, ".cref()");
        case 5: return mutating([v] { return v.call<Value>("self"); }, KLeaf, &l, false, ".self()");
        default: return go(v.call<Value>("cself"), KLeaf, &l, true, ".cself()");
        }
    }
    case KVL: case KVN: {
        size_t i = r.below(2);
        Value v = a.v;
        void* p = a.k == KVL ? (void*) &at<VL>(a)[i] : (void*) &at<VN>(a)[i];
        Kind k = a.k == KVL ? KLeaf : KNode;
        if (r.chance(50)) return go(v.call<Value>("at", i), k, p, true, ".at(" + std::to_string(i) + ")");
        return mutating([v, i] { return v[i]; }, k, p, false, "[" + std::to_string(i) + "]");
    }
    case KML: {
        int i = r.below(2);
        Value v = a.v;
        void* p = &at<ML>(a).find(i)->second;
        if (r.chance(50)) return go(v.call<Value>("at", i), KLeaf, p, true, ".at(" + std::to_string(i) + ")");
        return mutating([v, i] { return v[i]; }, KLeaf, p, false, "[" + std::to_string(i) + "]");
    }
    // What a pointer points to isn't const because the pointer is; a raw pointer's operator* follows the pointer's constness.
    case KSL: return go(*a.v, KLeaf, at<SL>(a).get(), false, ".*");
    case KSN: return go(*a.v, KNode, at<SN>(a).get(), false, ".*");
    case KPL: return go(*a.v, KLeaf, at<Leaf*>(a), !mutableLRef, ".*");
    default: return false;
    }
}

template<typename T> void attemptRef(const At& a)
{
    const bool may = !a.c && a.ref == RefType::LValue;
    T* got = nullptr;
    Value v = a.v;
    bool raised = raises([&] { got = &reflect::cast<T&>(v); });
    VF_CHECK(raised == !may, "cast", (raised ? "refused" : "gave") << " a mutable reference");
    if (!raised) VF_EQ((void*) got, a.p, "identity", "reference");
    const T* cgot = nullptr;
    VF_CHECK(!raises([&] { cgot = &reflect::cast<const T&>(v); }), "cast-const", "refused a const reference");
    VF_EQ((const void*) cgot, (const void*) a.p, "identity", "const reference");
    VF_EQ(reflect::isCastable<T&>(v), may, "castable", "isCastable to a mutable reference");
    VF_EQ(reflect::isCastable<const T&>(v), true, "castable", "isCastable to a const reference");
}
void attemptRefs(const At& a)
{
    switch (a.k) {
    case KInt: attemptRef<int>(a); break;
    case KString: attemptRef<std::string>(a); break;
    case KLeaf: attemptRef<Leaf>(a); break;
    case KNode: attemptRef<Node>(a); attemptRef<Leaf>(a); break;
    case KTree: attemptRef<Tree>(a); break;
    case KVL: attemptRef<VL>(a); break;
    case KVN: attemptRef<VN>(a); break;
    case KML: attemptRef<ML>(a); break;
    case KSL: attemptRef<SL>(a); break;
    case KSN: attemptRef<SN>(a); break;
    case KPL: attemptRef<Leaf*>(a); break;
    }
}

void run(uint64_t, Rng& r)
{
    static int depths[12];
    std::unique_ptr<Tree> root(new Tree(r.range(0, 50)));
    At a;
    a.k = KTree; a.p = root.get(); a.c = false; a.ref = RefType::LValue; a.path = "tree"; a.alive = true;
    switch (r.below(5)) {
    case 0: case 1: case 2: a.v = Value(*root); break;
    case 3: { const Tree& c = *root; a.v = Value(c); a.c = true; a.path = "const tree"; break; }
    default: a.v = Value(*root).toConst(); a.c = true; a.ref = RefType::RValue; a.path = "tree.toConst()"; break;
    }
    // Owned objects may be changed, those moved into a value too.
    std::unique_ptr<Node> node;
    if (r.chance(20)) {
        bool c = r.chance(30);
        if (c) { const Node n(r.below(50)); a.v = Value(std::move(n)); a.path = "owned copy of a const node"; }
        else { a.v = Value(Node(r.below(50))); a.path = "owned node"; }
        a.k = KNode; a.p = a.v.value(); a.c = false; a.ref = RefType::LValue;
    }
    Value holder = a.v; // keeps what's owned.
    const Node* ownedNode = a.k == KNode ? static_cast<const Node*>(a.p) : nullptr;
    auto snapshot = [&] { return ownedNode ? ownedNode->print() : root->print(); };

    int n = r.range(0, 7), depth = 0;
    while (n-- > 0) {
        std::string before = snapshot();
        describe(a.path);
        if (step(a, r)) depth++;
        VF_CHECK(snapshot() == before, "changed", "walking changed the object");
    }
    describe(a.path);
    const bool may = !a.c && a.ref == RefType::LValue;
    VF_EQ(a.v.value(), a.p, "identity", "object reached");
    VF_EQ(a.v.isConst(), a.c, "is-const", "isConst of the value reached");
    distinct(a.path);
    event(may ? "mutable paths" : a.c ? "const paths" : "rvalue paths");

    std::string before = snapshot();
    attemptRefs(a);
    VF_CHECK(snapshot() == before, "changed", "asking for references changed the object");

    // overload sets choose by constness
    runs = 0;
    int which = 0;
    Value v = a.v;
    bool raised = raises([&] { which = pick.call<int>(v); });
    VF_CHECK(!raised, "overloads", "refused by an overload set that takes const references");
    if (!raised) VF_EQ(which, may ? 1 : 2, "overloads", "overload run");
    runs = 0;
    raised = raises([&] { strictMut.call<void>(v); });
    VF_EQ(raised, !may, "argument", "refused as an argument to a mutable reference");
    VF_EQ(runs, may ? 1 : 0, "argument", "runs");

    // attempts to change it
    for (int k = 0; k < 4; ++k) {
        before = snapshot();
        std::string want;      // what the attempt would give
        std::function<void()> attempt;
        std::function<bool()> done;
        int x = r.range(1000, 2000);
        std::string text = "new" + std::to_string(x);
        std::string what;
        bool direct = may;     // is it to be accepted?
        switch (a.k) {
        case KInt:
            done = [&] { return at<int>(a) == x; };
            switch (r.below(3)) {
            case 0: what = "assign"; attempt = [&] { v.assign(x); }; break;
            case 1: what = "operator= of its type"; attempt = [&] { v.type()->call<void>("operator=", v, x); }; break;
            default: what = "assign from inside a function that takes values"; attempt = [&] { viaValue.call<void>(v, x); }; break;
            }
            break;
        case KString:
            done = [&] { return at<std::string>(a) == text; };
            what = "assign"; attempt = [&] { v.assign(text); };
            break;
        case KLeaf: case KNode: {
            done = [&] { return at<Leaf>(a).a == x; };
            switch (r.below(a.k == KNode ? 5 : 7)) {
            case 0: what = "set"; attempt = [&] { v.call<void>("set", x); }; break;
            case 1: what = "ref()"; attempt = [&] { v.call<int&>("ref") = x; }; break;
            case 2: what = "field by reference"; attempt = [&] { v.field<int&>("a") = x; }; direct = !a.c; break;
            case 3: what = "field assigned"; attempt = [&] { v.field("a").assign(x); }; direct = !a.c; break;
            case 4: what = "const field assigned"; attempt = [&] { v.field("k").assign(x); }; direct = false; break;
            case 5: what = "assign"; attempt = [&] { v.assign(Leaf(x)); }; break;
            default: what = "operator+="; attempt = [&] { v += (x - at<Leaf>(a).a); }; break;
            }
            break;
        }
        case KTree:
            done = [&] { return at<Tree>(a).left.a == x; };
            what = "l()"; attempt = [&] { v.call<Node&>("l").a = x; };
            break;
        case KVL:
            switch (r.below(3)) {
            case 0: done = [&] { return at<VL>(a).back().a == x; }; what = "push_back"; attempt = [&] { v.call<void>("push_back", Leaf(x)); }; break;
            case 1: done = [&] { return at<VL>(a)[0].a == x; }; what = "operator[]"; attempt = [&] { v.call<Leaf&>("operator[]", size_t(0)).a = x; }; break;
            default: done = [&] { return false; }; what = "element reference out of at"; attempt = [&] { v.call<Leaf&>("at", size_t(0)).a = x; }; direct = false; break;
            }
            break;
        case KVN: done = [&] { return at<VN>(a)[1].a == x; }; what = "operator[]"; attempt = [&] { v[size_t(1)].call<void>("set", x); }; break;
        case KML:
            if (r.chance(50)) { done = [&] { return at<ML>(a).count(x) == 1; }; what = "operator[] of a new key"; attempt = [&] { v[x]; }; }
            else { done = [&] { return false; }; what = "element reference out of at"; attempt = [&] { v.call<Leaf&>("at", 0).a = x; }; direct = false; }
            break;
        case KSL:
            if (r.chance(50)) { done = [&] { return at<SL>(a)->a == x; }; what = "what it points to"; attempt = [&] { v.call<Leaf&>("operator*").a = x; }; direct = true; }
            else { done = [&] { return !at<SL>(a); }; what = "reset"; attempt = [&] { v.call<void>("reset"); }; if (may) continue; }
            break;
        case KSN: done = [&] { return at<SN>(a)->a == x; }; what = "what it points to"; attempt = [&] { v.call<Node&>("operator*").a = x; }; direct = true; break;
        case KPL: done = [&] { return at<Leaf*>(a)->a == x; }; what = "what it points to"; attempt = [&] { v.call<Leaf&>("operator*").a = x; }; break;
        }
        bool refused = raises(attempt);
        VF_CHECK(refused == !direct, refused ? "refused" : "const-lost", what << (refused ? " refused on a mutable path" : " accepted on a const path"));
        if (refused) VF_CHECK(snapshot() == before, "const-changed", what << " was refused but changed the object");
        else VF_CHECK(done(), "no-effect", what << " had no effect");
        event(refused ? "changes refused" : "changes made");
        distinct(hash(a.path + what));
    }
    (void) depths; (void) holder;
}

} // namespace

const vf::Harness harness = { "c07", &run, &init, nullptr };
