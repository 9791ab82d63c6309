#include "model.h"

namespace vm {

namespace {
template<typename T> const reflect::Type* d() { return reflect::type<T>(); }
struct Row { const reflect::Type* (*desc)(); const char* name; };
const Row rows[TypeCount] = {
    { &d<void>, "void" }, { &d<reflect::Value>, "Value" }, { &d<bool>, "bool" }, { &d<int>, "int" },
    { &d<long>, "long" }, { &d<double>, "double" }, { &d<std::string>, "string" },
    { &d<vt::A>, "A" }, { &d<vt::B>, "B" }, { &d<vt::C>, "C" }, { &d<vt::U>, "U" }, { &d<vt::Cv>, "Cv" },
    { &d<vt::CvB>, "CvB" }, { &d<vt::NC>, "NC" }, { &d<vt::NM>, "NM" },
    { &d<int*>, "int*" }, { &d<vt::A*>, "A*" }, { &d<vt::B*>, "B*" }, { &d<vt::C*>, "C*" },
    { &d<vt::A**>, "A**" }, { &d<vt::B**>, "B**" },
    { &d<std::shared_ptr<vt::A> >, "sp<A>" }, { &d<std::shared_ptr<vt::B> >, "sp<B>" },
    { &d<std::unique_ptr<vt::A> >, "up<A>" }, { &d<std::unique_ptr<vt::B> >, "up<B>" },
    { &d<std::vector<int> >, "vec<int>" },
};

// kind of pointer and pointee, 0 if not a pointer.
int kind(int t)
{
    switch (t) {
    case TPInt: case TPA: case TPB: case TPC: case TPPA: case TPPB: return 1;
    case TSA: case TSB: return 2;
    case TUA: case TUB: return 3;
    }
    return 0;
}
int target(int t)
{
    switch (t) {
    case TPInt: return TInt;
    case TPA: case TSA: case TUA: return TA;
    case TPB: case TSB: case TUB: return TB;
    case TPC: return TC;
    case TPPA: return TPA;
    case TPPB: return TPB;
    }
    return TVoid;
}
int base(int t)
{
    switch (t) {
    case TB: return TA;
    case TC: return TB;
    case TCvB: return TCv;
    }
    return -1;
}
} // namespace

const reflect::Type* desc(int t) { return rows[t].desc(); }
const char* name(int t) { return rows[t].name; }

int noOf(const reflect::Type* t)
{
    static std::map<const reflect::Type*, int> m;
    if (m.empty()) for (int i = 0; i < TypeCount; ++i) m[desc(i)] = i;
    auto it = m.find(t);
    return it == m.end() ? -1 : it->second;
}

bool isBase(int p, int c)
{
    if (p == c) return true;
    if (kind(p) && kind(c)) return kind(p) == kind(c) && isBase(target(p), target(c));
    return base(c) >= 0 && isBase(p, base(c));
}

bool convertible(int from, int to)
{
    if (kind(from) && to == TBool) return true;
    if (from == TCvB && to == TCv) return true;
    return (from == TCv || from == TCvB) && (to == TA || to == TInt || to == TCvB);
}

// Conversions to the type itself or to a parent are never used.
bool converts(int from, int to) { return convertible(from, to) && !isBase(to, from); }

Match worst(Match a, Match b)
{
    if (a == Match::None || b == Match::None) return Match::None;
    return a == Match::Partial ? a : b;
}

Match passing(const Arg& from, const Arg& to)
{
    // What an opaque value holds is checked when it's extracted.
    if ((from.t == TValue) != (to.t == TValue)) return Match::Exact;

    // A conversion makes a temporary which can't be bound to an lvalue reference.
    if (converts(from.t, to.t)) return to.r == RefType::LValue ? Match::None : Match::Partial;

    if (!isBase(to.t, from.t)) return Match::None;

    bool same = from.r == to.r && from.c == to.c;
    switch (to.r) {
    case RefType::Copy:
        return same || from.r == RefType::RValue ? Match::Exact : Match::Partial;
    case RefType::RValue:
        if (same) return Match::Exact;
        return from.r == RefType::RValue && to.c ? Match::Partial : Match::None;
    default:
        if (same) return Match::Exact;
        return to.c ? Match::Partial : Match::None;
    }
}

Match returning(const Arg& wanted, const Arg& ret)
{
    if (wanted.t == TVoid) return Match::Exact;
    if (ret.t == TVoid) return wanted.t == TValue && wanted.r != RefType::LValue ? Match::Exact : Match::None;
    if (passing(ret, wanted) == Match::None) return Match::None;
    // Nothing would keep the temporary alive.
    if (ret.r != RefType::LValue && wanted.r == RefType::LValue && wanted.c) return Match::None;
    return Match::Exact;
}

Match calling(const Sig& as, const Sig& fn)
{
    if (as.args.size() != fn.args.size()) return Match::None;
    Match m = returning(as.ret, fn.ret);
    for (size_t i = 0; i < fn.args.size(); ++i) m = worst(m, passing(as.args[i], fn.args[i]));
    return m;
}

std::string Arg::print() const
{
    return std::string(c ? "const " : "") + name(t) + (r == RefType::LValue ? "&" : r == RefType::RValue ? "&&" : "");
}
std::string Sig::print() const
{
    std::string s = ret.print() + "(";
    for (size_t i = 0; i < args.size(); ++i) s += (i ? ", " : "") + args[i].print();
    return s + ")";
}

} // namespace vm
