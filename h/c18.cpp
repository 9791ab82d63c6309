// C18: what is printed reads back as an equal object.
#include "jt.h"

using namespace vf;
using namespace jt;

namespace jt {
// Links of all kinds, which may lead back to where they came from.
struct Ring
{
    int64_t v = 0;
    std::shared_ptr<Ring> shared;
    Ring* raw = nullptr;
    std::vector<Ring*> list;
    std::map<std::string, Ring*> map;
    std::vector< std::shared_ptr<Ring> > kids;
};
} // namespace jt
reflectTypeDecl(jt::Ring)
reflectTypeImpl(jt::Ring)
{
    reflectPlumbing();
    reflectAllocPlumbing();
    reflectField(v);
    reflectField(shared);
    reflectField(raw);
    reflectField(list);
    reflectField(map);
    reflectField(kids);
}

namespace {

// Throws what it is given away, and refuses more than it should ever get.
struct Sink : std::streambuf
{
    size_t n = 0;
    int overflow(int c) { if (++n > (size_t(1) << 28)) fail("endless", "printing goes on for ever"); return c; }
    std::streamsize xsputn(const char*, std::streamsize k) { n += k; if (n > (size_t(1) << 28)) fail("endless", "printing goes on for ever"); return k; }
};

void link(Ring& from, Ring& to, const std::shared_ptr<Ring>& owner, Rng& r)
{
    switch (r.below(owner ? 5 : 3)) {
    case 0: from.raw = &to; break;
    case 1: for (int n = r.below(3); n > 0; --n) from.list.push_back(nullptr); from.list.push_back(&to); break;
    case 2: if (r.chance(50)) from.map["a"] = nullptr; from.map["k"] = &to; break;
    case 3: from.shared = owner; break;
    default: from.kids.push_back(owner); break;
    }
}

// Objects that contain themselves can't be represented.
void rings(Rng& r)
{
    size_t n = 1 + r.below(r.chance(20) ? 300 : 6);
    std::vector<Ring> all(n);
    std::shared_ptr<Ring> none;
    for (size_t i = 0; i < n; ++i) {
        all[i].v = i;
        link(all[i], all[(i + 1) % n], none, r);
        if (r.chance(20) && n < 10) link(all[i], all[r.below(n)], none, r); // several ways around
    }
    unsigned wopts = r.below(16);
    size_t start = r.below(n);
    describe(VF_STR("ring of " << n << " printed with " << wopts));
    distinct(n * 16 + wopts);
    Sink sink;
    std::ostream out(&sink);
    Writer w(out, Writer::Options(wopts));
    if (r.chance(50)) reflect::json::print(w, all[start]);
    else { std::vector<Ring*> in(1, &all[start]); reflect::json::print(w, in); }
    VF_CHECK(!!w.error(), "printed", "an object that contains itself was printed");
    event("objects that contain themselves");
}

// Deep ones either round trip or are refused when printed.
void chain(Rng& r)
{
    size_t depth = r.chance(40) ? 980 + r.below(40) : r.chance(50) ? 2 + r.below(800) : 1200 + r.below(30000);
    std::vector<std::shared_ptr<Ring> > all;
    for (size_t i = 0; i < depth; ++i) { all.push_back(std::make_shared<Ring>()); all[i]->v = i; }
    bool same = r.chance(50);
    Rng kinds(r.next());
    uint64_t kind = kinds.next();
    for (size_t i = 0; i + 1 < depth; ++i) { Rng k(same ? kind : kinds.next()); link(*all[i], *all[i + 1], all[i + 1], k); }
    unsigned wopts = (r.below(16) | Writer::Compact) & ~(depth > 2000 ? Writer::Pretty : 0);
    describe(VF_STR("chain of " << depth << " printed with " << wopts));
    distinct(hash("chain", depth * 16 + wopts));
    std::ostringstream out;
    Writer w(out, Writer::Options(wopts));
    reflect::json::print(w, *all[0]);
    if (depth < 250) VF_CHECK(!w.error(), "print-error", "can't be printed: " << w.error().what());
    event(w.error() ? "deep chains refused" : "deep chains");
    if (!w.error()) {
        std::istringstream in(out.str());
        Reader reader(in);
        auto* back = new Ring();
        reflect::json::parse(reader, *back);
        VF_CHECK(!reader.error(), "read-error", "can't be read back: " << reader.error().what());
        std::ostringstream again;
        Writer w2(again, Writer::Options(wopts));
        reflect::json::print(w2, *back);
        VF_CHECK(again.str() == out.str(), "differs", "a chain read back prints something else");
        // taken down from the top; what was read allocates for plain pointers too.
        std::vector<std::shared_ptr<Ring> > held;
        std::vector<Ring*> plain(1, back);
        size_t links = 0;
        for (Ring* at = back; at; ++links) {
            VF_EQ(at->v, int64_t(links), "differs", "content of a link");
            Ring* next = nullptr;
            auto own = [&] (std::shared_ptr<Ring>& p) { if (p) { next = p.get(); held.push_back(std::move(p)); p.reset(); } };
            own(at->shared);
            for (auto& p : at->kids) own(p);
            if (at->raw) plain.push_back(next = at->raw);
            for (auto p : at->list) if (p) plain.push_back(next = p);
            for (auto& p : at->map) if (p.second) plain.push_back(next = p.second);
            at = next;
        }
        VF_EQ(links, depth, "differs", "links read back");
        for (auto p : plain) delete p;
    }
    for (auto& p : all) { p->shared.reset(); p->kids.clear(); }
}

bool closeDom(const Dom& a, const Dom& b)
{
    bool na = a.kind == Dom::Int || a.kind == Dom::Float, nb = b.kind == Dom::Int || b.kind == Dom::Float;
    if (na && nb && (a.kind == Dom::Float || b.kind == Dom::Float)) {
        double x, y;
        return a.toDouble(x) && b.toDouble(y) && std::abs(x - y) <= 1.2e-12 * std::max(std::abs(x), std::abs(y));
    }
    if (a.kind != b.kind || a.items.size() != b.items.size() || a.members.size() != b.members.size()) return false;
    for (size_t i = 0; i < a.items.size(); ++i) if (!closeDom(a.items[i], b.items[i])) return false;
    auto byKey = [] (const std::pair<std::string, Dom>& x, const std::pair<std::string, Dom>& y) { return x.first < y.first; };
    auto p = a.members, q = b.members;
    std::stable_sort(p.begin(), p.end(), byKey);
    std::stable_sort(q.begin(), q.end(), byKey);
    for (size_t i = 0; i < p.size(); ++i) if (p[i].first != q[i].first || !closeDom(p[i].second, q[i].second)) return false;
    return a.kind == Dom::Array || a.kind == Dom::Object || a == b;
}

// As if it had been read back already: floats at the printed precision.
std::string printed(const Target& t, unsigned opts, bool& ok, std::string& error)
{
    std::ostringstream out;
    Writer w(out, Writer::Options(opts));
    t.print(w);
    ok = !w.error();
    error = ok ? "" : w.error().what();
    return out.str();
}

void roundTrip(const Target& t, unsigned wopts, unsigned ropts)
{
    bool compact = wopts & Writer::Compact;
    bool ok;
    std::string error, text = printed(t, wopts, ok, error);
    describe(VF_STR(t.name() << " printed with " << wopts << " read with " << ropts << ": " << quote(text.substr(0, 1500))));
    VF_CHECK(ok, "print-error", "can't be printed: " << error);

    auto got = t.fresh();
    std::istringstream in(text);
    Reader reader(in, Reader::Options(ropts));
    got->read(reader);
    VF_CHECK(!reader.error(), "read-error", "can't be read back: " << reader.error().what());
    distinct(hash(text, wopts * 8 + ropts));
    event("round trips");

    Dom want = t.dom(compact), have = got->dom(compact);
    if (!closeDom(want, have)) fail("differs", "read back as " + have.text() + ", expected " + want.text());
    if (!compact) return;
    // what was left out is as a fresh object has it.
    event("compact round trips");
    auto expected = t.fresh();
    VF_CHECK(expected->apply(want), "harness", "the model can't read its own document");
    if (!closeDom(expected->dom(false), got->dom(false))) fail("differs", "members left out aren't fresh: " + got->dom(false).text());
}

// Well-formed sequences of Unicode scalar values only.
bool scalars(const std::string& s)
{
    if (!validUtf8(s)) return false;
    for (size_t i = 0; i < s.size(); ++i) {
        unsigned char c = s[i], d = i + 1 < s.size() ? s[i + 1] : 0;
        if (c == 0xED && d >= 0xA0) return false;
        if (c > 0xF4 || (c == 0xF4 && d >= 0x90)) return false;
    }
    return true;
}

// Whatever the bytes of a string: refused, or the same when read back.
void anyBytes(Rng& r)
{
    for (int k = 0; k < 20; ++k) {
        std::string s;
        for (int n = r.below(6); n >= 0; --n) switch (r.below(6)) {
        case 0: s += char(r.below(256)); break;
        case 1: s += utf8(0xD700 + r.below(0xA00)); break;      // around the surrogates
        case 2: s += utf8(r.below(0x10000)); break;
        case 3: { uint32_t c = r.below(0x200000); if (r.chance(50)) c = 0x10FF00 + r.below(0x200); s += char(0xF0 | c >> 18); s += char(0x80 | (c >> 12 & 0x3F)); s += char(0x80 | (c >> 6 & 0x3F)); s += char(0x80 | (c & 0x3F)); break; }
        case 4: s += randomText(r, 3); break;
        default: s += r.chance(50) ? "\\u0041" : "\"\\/\b\n\x01\x1f\x7f"; break;
        }
        unsigned wopts = r.below(16);
        bool checked = wopts & (Writer::ValidateUnicode | Writer::EscapeUnicode);
        bool asKey = r.chance(30);
        std::map<std::string, std::string> m, back;
        m[asKey ? s : "k"] = s;
        std::ostringstream out;
        Writer w(out, Writer::Options(wopts));
        reflect::json::print(w, m);
        describe(VF_STR("bytes " << quote(s) << " printed with " << wopts << ": " << quote(out.str())));
        distinct(hash(s, wopts));
        if (w.error()) {
            event("strings refused");
            VF_CHECK(checked, "print-error", "unchecked bytes were refused: " << w.error().what());
            VF_CHECK(!scalars(s), "print-error", "well-formed text was refused: " << w.error().what());
            continue;
        }
        std::istringstream in(out.str());
        Reader reader(in, Reader::Options(Reader::UnescapeUnicode | (checked && !(wopts & Writer::EscapeUnicode) ? Reader::ValidateUnicode : 0)));
        reflect::json::parse(reader, back);
        VF_CHECK(!reader.error(), "read-error", "can't be read back: " << reader.error().what());
        VF_CHECK(back == m, "differs", "read back as " << quote(back.begin()->second));
        event("strings of any bytes");
    }
}

void run(uint64_t idx, Rng& r)
{
    Abroad::choose(idx / 16);
    if (idx % 50 == 33) { anyBytes(r); return; }
    if (idx % 400 == 77) { rings(r); return; }
    if (idx % 400 == 177) { chain(r); return; }
    std::unique_ptr<Target> t;
    do t = makeTarget(r.below(targetCount())); while (!t->printable());
    t->gen(r, r.below(5));
    unsigned wopts = r.below(16);
    unsigned ropts = Reader::UnescapeUnicode | (r.chance(50) ? Reader::ValidateUnicode : 0) | (r.chance(20) ? Reader::AllowComments : 0);

    if (idx % 4 != 3) {
        roundTrip(*t, wopts, ropts);
        if (idx % 16 == 0) { // through the convenience functions
            auto p = t->printText();
            VF_CHECK(!p.second, "print-error", "can't be printed: " << p.second.what());
            auto got = t->fresh();
            auto err = got->readText(p.first);
            describe(VF_STR(t->name() << ": " << quote(p.first.substr(0, 1500))));
            VF_CHECK(!err, "read-error", "can't be read back: " << err.what());
            if (!closeDom(t->dom(false), got->dom(false))) fail("differs", "through the convenience functions");
            event("convenience round trips");
        }
    }
    else {
        int kind = 1 + r.below(3);
        bool applied = poison(*t, r, kind);
        if (!applied) { trivial(); t.reset(); Leaf::sweep(); return; }
        bool ok;
        std::string error, text = printed(*t, wopts, ok, error);
        describe(VF_STR(t->name() << " printed with " << wopts << " holds " << (kind == 3 ? "malformed UTF-8" : "a float that isn't finite") << ": " << quote(text.substr(0, 1500))));
        distinct(hash(text, wopts * 8 + kind));
        if (kind < 3 || (wopts & (Writer::EscapeUnicode | Writer::ValidateUnicode))) {
            event("prints refused");
            VF_CHECK(!ok, "printed", "content JSON can't represent was printed");
            VF_CHECK(!error.empty(), "message", "a print error without a message");
        }
        else { // passed through unseen
            event("unchecked text printed");
            VF_CHECK(ok, "print-error", "can't be printed: " << error);
            auto got = t->fresh();
            std::istringstream in(text);
            Reader reader(in, Reader::UnescapeUnicode);
            got->read(reader);
            VF_CHECK(!reader.error(), "read-error", "can't be read back: " << reader.error().what());
            if (!closeDom(t->dom(wopts & Writer::Compact), got->dom(wopts & Writer::Compact))) fail("differs", "unchecked text");
        }
        if (idx % 8 == 7) { // as a key
            std::map<std::string, int64_t> m;
            static const char* bad[] = { "\x80", "\xC3", "a\xC0\x80", "\xE2\x82", "\xF0\x9F\x98", "x\xFFy", "\xED\xA0", "\xF5\x80\x80", "\xC2\"" };
            std::string key = bad[r.below(9)];
            m[key] = 1; m["ok"] = 2;
            std::ostringstream out;
            Writer w(out, Writer::Options(Writer::ValidateUnicode | (r.chance(50) ? Writer::EscapeUnicode : 0)));
            reflect::json::print(w, m);
            describe(VF_STR("key " << quote(key)));
            VF_CHECK(!!w.error(), "printed", "a key of malformed UTF-8 was printed");
            event("prints refused");
        }
    }
    t.reset();
    Leaf::sweep();
}

} // namespace

const vf::Harness harness = { "c18", &run, nullptr, nullptr };
