// C19: printed text is well-formed, complete, sorted, deterministic, and laid out as its options say.
#include "jt.h"

using namespace vf;
using namespace jt;

namespace jt {
struct Chain
{
    std::shared_ptr<Chain> next;
    int64_t v = 0;
    ~Chain() { while (next && next.use_count() == 1) { auto n = std::move(next->next); next = std::move(n); } }
};
}
reflectTypeDecl(jt::Chain)
reflectTypeImpl(jt::Chain) { reflectPlumbing(); reflectAllocPlumbing(); reflectField(next); reflectField(v); }

namespace {

bool sameNumber(const Dom& a, const Dom& b)
{
    if (a.kind == Dom::Int && b.kind == Dom::Int) return a == b;
    double x, y;
    return a.toDouble(x) && b.toDouble(y) && std::abs(x - y) <= 1.2e-12 * std::max(std::abs(x), std::abs(y));
}

// The printed document against the model's. The members of unordered maps come in any order.
void compare(const Dom& got, const Dom& want, const std::string& path, bool unordered)
{
    bool ng = got.kind == Dom::Int || got.kind == Dom::Float, nw = want.kind == Dom::Int || want.kind == Dom::Float;
    if (ng && nw) {
        if (!sameNumber(got, want)) fail("content", path + " printed as " + got.s + ", expected " + want.s);
        return;
    }
    VF_CHECK(got.kind == want.kind, "content", path << " printed as another kind of value: " << got.text() << ", expected " << want.text());
    if (got.kind == Dom::Bool || got.kind == Dom::String) VF_CHECK(got == want, "content", path << " printed as " << got.text() << ", expected " << want.text());
    if (got.kind == Dom::Array) {
        VF_EQ(got.items.size(), want.items.size(), "content", path + " has items");
        for (size_t i = 0; i < got.items.size(); ++i) compare(got.items[i], want.items[i], path + "[" + std::to_string(i) + "]", unordered);
    }
    if (got.kind == Dom::Object) {
        std::map<std::string, const Dom*> w;
        for (auto& m : want.members) w[m.first] = &m.second;
        std::set<std::string> seen;
        for (size_t i = 0; i < got.members.size(); ++i) {
            auto& k = got.members[i].first;
            VF_CHECK(seen.insert(k).second, "duplicate", path << " has member " << quote(k) << " twice");
            VF_CHECK(w.count(k), "members", path << " has an unexpected member " << quote(k));
            if (i && !unordered) VF_CHECK(got.members[i - 1].first < k, "order", path << " has " << quote(k) << " after " << quote(got.members[i - 1].first));
            compare(got.members[i].second, *w[k], path + "." + k, k == "words");
        }
        for (auto& m : w) VF_CHECK(seen.count(m.first), "members", path << " lacks member " << quote(m.first));
        event("objects checked");
    }
}

// Without the white space outside of strings; counts it.
std::string strip(const std::string& s, size_t* removed = nullptr)
{
    std::string out;
    bool in = false;
    size_t n = 0;
    for (size_t i = 0; i < s.size(); ++i) {
        char c = s[i];
        if (in) {
            out += c;
            if (c == '\\' && i + 1 < s.size()) out += s[++i];
            else if (c == '"') in = false;
            continue;
        }
        if (c == ' ' || c == '\n' || c == '\t' || c == '\r') { n++; continue; }
        if (c == '"') in = true;
        out += c;
    }
    if (removed) *removed = n;
    return out;
}

// Lines are indented by a same amount for each bracket, opened at the end of a line, that encloses them.
void checkIndentation(const std::string& s)
{
    std::vector<bool> open; // did the bracket end its line?
    size_t level = 0, unit = 0;
    bool in = false;
    for (size_t i = 0; i < s.size(); ++i) {
        char c = s[i];
        if (in) { if (c == '\\') i++; else if (c == '"') in = false; continue; }
        if (c == '"') in = true;
        else if (c == '{' || c == '[') {
            bool ends = i + 1 < s.size() && s[i + 1] == '\n';
            open.push_back(ends);
            level += ends;
        }
        else if (c == '}' || c == ']') {
            VF_CHECK(!open.empty(), "indentation", "unbalanced brackets");
            level -= open.back();
            open.pop_back();
        }
        else if (c == '\n') {
            size_t n = 0;
            while (i + 1 + n < s.size() && s[i + 1 + n] == ' ') n++;
            char first = i + 1 + n < s.size() ? s[i + 1 + n] : '\n';
            size_t want = level;
            if ((first == '}' || first == ']') && !open.empty() && open.back()) want--;
            if (!unit && want) { VF_CHECK(n % want == 0 && n, "indentation", "a line is indented by " << n << " at depth " << want); unit = n / want; }
            VF_CHECK(n == want * unit, "indentation", "a line is indented by " << n << " at depth " << want << ", others by " << unit << " for each level, near " << quote(s.substr(i > 40 ? i - 40 : 0, 100)));
            event("lines checked");
        }
    }
}

std::string print(const Target& t, unsigned opts)
{
    std::ostringstream out;
    Writer w(out, Writer::Options(opts));
    t.print(w);
    VF_CHECK(!w.error(), "print-error", "can't be printed: " << w.error().what());
    return out.str();
}

void checkText(const std::string& text, const Dom& want, unsigned opts, bool unordered)
{
    Dom doc;
    size_t end = 0;
    VF_CHECK(strict(text, doc, end, StrictOptions(), 100000), "malformed", "printed a malformed document, up to " << end);
    VF_EQ(end, text.size(), "malformed", "text after the document");
    compare(doc, want, "", unordered);
    size_t spaces = 0;
    strip(text, &spaces);
    if (opts & Writer::Pretty) checkIndentation(text);
    else VF_EQ(spaces, size_t(0), "space", "white space without pretty printing");
    if (opts & Writer::EscapeUnicode) for (char c : text) VF_CHECK(!(c & 0x80), "escape", "a character outside of ASCII wasn't escaped");
}

// A document to be printed by hand; what is left out of it is printed as well if it shouldn't have been asked for.
Dom handDoc(Rng& r, int depth)
{
    int k = r.below(depth > 0 ? 10 : 5);
    switch (k) {
    case 0: return Dom();
    case 1: return Dom::boolean(r.chance(50));
    case 2: return Dom::integer(int64_t(r.next()) >> r.below(64));
    case 3: { std::ostringstream o; o.precision(12); o << double(int64_t(r.next()) >> r.below(64)) / double(1 + r.below(1000)); return Dom::number(Dom::Float, o.str()); }
    case 4: return Dom::string(randomText(r, 8));
    case 5: case 6: case 7: { Dom d(Dom::Array); for (int n = r.below(5); n > 0; --n) d.items.push_back(handDoc(r, depth - 1)); return d; }
    default: {
        Dom d(Dom::Object);
        std::set<std::string> keys;
        for (int n = r.below(5); n > 0; --n) keys.insert(randomText(r, 5));
        for (auto& k : keys) d.members.emplace_back(k, handDoc(r, depth - 1));
        return d; }
    }
}

struct ByHand
{
    Writer& w;
    Rng& r;
    int64_t calls, failAt;     // raises an error in that call.
    bool failed;

    bool call() // false: give up.
    {
        VF_CHECK(!failed, "after-error", "an item was asked for after an error");
        if (++calls == failAt) { failed = true; w.error("stop at %lu", size_t(failAt)); }
        return !failed;
    }
    void print(const Dom& d)
    {
        using namespace reflect::json;
        bool opaque = r.chance(20);
        switch (d.kind) {
        case Dom::Null: printNull(w); break;
        case Dom::Bool: if (opaque) printBool(w, reflect::Value(bool(d.b))); else printBool(w, d.b); break;
        case Dom::Int: { int64_t i = 0; d.toInt(i); if (opaque) printInt(w, reflect::Value(long(i))); else printInt(w, i); break; }
        case Dom::Float: { double x = 0; d.toDouble(x); Abroad away; if (opaque) printFloat(w, reflect::Value(double(x))); else printFloat(w, x); break; }
        case Dom::String: if (opaque) printString(w, reflect::Value(d.s)); else printString(w, d.s); break;
        case Dom::Array: {
            std::vector<const Dom*> items; // null: left out.
            bool skips = r.chance(40), left = false;
            for (auto& x : d.items) {
                while (skips && r.chance(40)) { items.push_back(nullptr); left = true; }
                items.push_back(&x);
            }
            while (skips && r.chance(40)) { items.push_back(nullptr); left = true; }
            event(left ? "arrays with items left out" : "arrays");
            size_t at = 0;
            auto fn = [&] (size_t i) { if (!call()) return; VF_EQ(i, at++, "items", "item asked for"); VF_CHECK(items[i], "items", "printed an item left out"); print(*items[i]); };
            if (!left && r.chance(50)) printArray(w, items.size(), fn);
            else printArray(w, items.size(), fn, [&] (size_t i) { if (!items[i]) at++; return !items[i]; });
            break;
        }
        default: {
            std::vector<std::string> keys;
            std::map<std::string, const Dom*> members;
            bool skips = r.chance(40), left = false;
            for (auto& m : d.members) members[m.first] = &m.second;
            if (skips) for (int n = r.below(4); n > 0; --n) left |= members.emplace(randomText(r, 5), nullptr).second;
            for (auto& m : members) keys.push_back(m.first);
            event(left ? "objects with members left out" : "objects");
            auto fn = [&] (const std::string& k) { if (!call()) return; VF_CHECK(members.count(k) && members[k], "items", "printed a member left out"); print(*members[k]); };
            auto skip = [&] (const std::string& k) { return !members[k]; };
            if (left) printObject(w, keys, fn, skip);
            else if (r.chance(50)) printObject(w, std::set<std::string>(keys.begin(), keys.end()), fn);
            else printObject(w, keys, fn);
        } }
    }
};

// Takes a number of characters, then fails.
struct Limited : std::streambuf
{
    size_t left;
    std::string text;
    explicit Limited(size_t n) : left(n) {}
    int_type overflow(int_type c) override { if (!left) return traits_type::eof(); left--; text += char(c); return c & 0xFF; }
};

// Objects and arrays printed by hand, with items left out.
void generic(Rng& r)
{
    unsigned opts = r.below(16);
    Dom want = handDoc(r, 1 + r.below(4));
    uint64_t seed = r.next();
    std::ostringstream out;
    Writer w(out, Writer::Options(opts));
    Rng a(seed);
    ByHand h { w, a, 0, -1, false };
    h.print(want);
    describe(VF_STR("printed by hand with " << opts << ": " << quote(out.str())));
    distinct(hash(out.str(), opts));
    VF_CHECK(!w.error(), "print-error", w.error().what());
    checkText(out.str(), want, opts, false);
    event("printed by hand");
    if (h.calls && r.chance(40)) {
        std::ostringstream cut;
        Writer x(cut, Writer::Options(opts));
        Rng b(seed);
        ByHand g { x, b, 0, 1 + int64_t(r.below(h.calls)), false };
        g.print(want);
        VF_CHECK(g.failed && x.error() && !bool(x), "after-error", "the error is gone");
        VF_EQ(std::string(x.error().what()), VF_STR("stop at " << g.failAt), "after-error", "error kept");
        event("errors while printing");
    }
    if (out.str().size() > 1 && r.chance(40)) {
        size_t n = r.below(out.str().size());
        Limited buf(n);
        std::ostream cut(&buf);
        Writer x(cut, Writer::Options(opts));
        Rng b(seed);
        ByHand g { x, b, 0, -1, false };
        g.print(want);
        VF_CHECK(!bool(x), "full", "the writer is fine although its output failed");
        VF_CHECK(buf.text == out.str().substr(0, n), "full", "other text before the output failed");
        event("outputs that failed");
    }
}

void deep(Rng& r)
{
    Chain c;
    Chain* at = &c;
    size_t depth = 700 + r.below(200);
    for (size_t i = 0; i < depth; ++i) { at->next = std::make_shared<Chain>(); at = at->next.get(); at->v = i; }
    std::ostringstream out;
    Writer w(out, Writer::Options(Writer::Pretty | Writer::Default));
    reflect::json::print(w, c);
    describe(VF_STR("chain of " << depth));
    VF_CHECK(!w.error(), "print-error", w.error().what());
    std::string text = out.str();
    checkIndentation(text);
    std::ostringstream flat;
    Writer w2(flat, Writer::Default);
    reflect::json::print(w2, c);
    VF_CHECK(strip(text) == flat.str(), "pretty", "pretty printing changed more than white space");
    size_t nest = 0;
    for (char ch : flat.str()) nest += ch == '{';
    VF_EQ(nest, depth + 1, "content", "links printed");
    event("deep chains");
    distinct(depth);
    // Deeper by hand.
    std::ostringstream wide;
    Writer w3(wide, Writer::Options(Writer::Pretty | Writer::Default));
    size_t n = 1000 + r.below(400);
    for (size_t i = 0; i < n; ++i) w3.indent();
    w3.newline();
    w3.push('x');
    for (size_t i = 0; i < n; ++i) w3.unindent();
    w3.newline();
    std::string line = wide.str();
    size_t at1 = line.find('x');
    VF_CHECK(line[0] == '\n' && at1 != std::string::npos && line.substr(1, at1 - 1) == std::string(at1 - 1, ' ') && (at1 - 1) % n == 0 && at1 > n, "indentation", "indented by " << at1 << " characters at depth " << n);
    VF_CHECK(line.substr(at1) == "x\n", "indentation", "unindented");
}

// Traits put together carry what either of them says, and the first one that names something wins.
namespace rj = reflect::json;
rj::Traits randomTraits(Rng& r)
{
    rj::Traits t;
    t.skip = r.chance(30);
    t.skipEmpty = r.chance(40);
    for (std::string* s : { &t.alias, &t.parser, &t.printer }) if (r.chance(50)) *s = VF_STR("name" << r.below(100));
    return t;
}
void together(Rng& r)
{
    for (int k = 0; k < 40; ++k) {
        std::vector<rj::Traits> ts;
        for (int n = 2 + r.below(3); n > 0; --n) ts.push_back(randomTraits(r));
        const std::vector<rj::Traits> was = ts;
        bool left = r.chance(50);
        rj::Traits all = left ? ts.front() : ts.back();
        if (left) for (size_t i = 1; i < ts.size(); ++i) all = all | ts[i];
        else for (size_t i = ts.size() - 1; i-- > 0;) all = ts[i] | all;
        rj::Traits want = ts[0];
        for (size_t i = 1; i < ts.size(); ++i) {
            if (ts[i].skip) want.skip = true;
            if (ts[i].skipEmpty) want.skipEmpty = true;
            if (want.alias == "") want.alias = ts[i].alias;
            if (want.parser == "") want.parser = ts[i].parser;
            if (want.printer == "") want.printer = ts[i].printer;
        }
        VF_EQ(all.skip, want.skip, "traits", "skip of traits put together");
        VF_EQ(all.skipEmpty, want.skipEmpty, "traits", "skipEmpty of traits put together");
        VF_EQ(all.alias, want.alias, "traits", "alias of traits put together");
        VF_EQ(all.parser, want.parser, "traits", "parser of traits put together");
        VF_EQ(all.printer, want.printer, "traits", "printer of traits put together");
        for (size_t i = 0; i < ts.size(); ++i)
            VF_CHECK(ts[i].skip == was[i].skip && ts[i].skipEmpty == was[i].skipEmpty && ts[i].alias == was[i].alias && ts[i].parser == was[i].parser && ts[i].printer == was[i].printer, "traits", "putting traits together changed one of them");
        event("traits put together");
    }
    VF_CHECK(rj::skip().skip && rj::skipEmpty().skipEmpty && rj::alias("x").alias == "x", "traits", "made wrong");
    rj::Traits c = rj::custom("p", "q");
    VF_CHECK(c.parser == "p" && c.printer == "q" && c.alias == "" && !c.skip, "traits", "custom made wrong");
    VF_CHECK(!rj::alias("x").skip && !rj::skipEmpty().skip && rj::skip().alias == "", "traits", "made wrong");
}

void run(uint64_t idx, Rng& r)
{
    if (idx % 500 == 8) { describe("traits put together"); together(r); return; }
    Abroad::choose(idx / 7);
    if (idx % 10 == 9) { generic(r); return; }
    if (idx % 4000 == 3) { deep(r); return; }
    std::unique_ptr<Target> t;
    do t = makeTarget(r.below(targetCount())); while (!t->printable());
    t->gen(r, r.below(5));
    bool unordered = std::string(t->name()).find("unordered") == 0;
    unsigned opts = r.below(16);
    std::string text = print(*t, opts);
    describe(VF_STR(t->name() << " printed with " << opts << ": " << quote(text.substr(0, 1500))));
    distinct(hash(text, opts));
    checkText(text, t->dom(opts & Writer::Compact), opts, unordered);
    VF_CHECK(print(*t, opts) == text, "deterministic", "printing again gives other bytes");
    if (Abroad::kind) {
        unsigned kind = Abroad::kind;
        Abroad::kind = 0;
        VF_CHECK(print(*t, opts) == text, "deterministic", "another locale gives other bytes");
        Abroad::kind = kind;
    }
    if (idx % 3 == 0) { // what each option changes
        event("options compared");
        std::string other = print(*t, opts ^ Writer::Pretty);
        VF_CHECK(strip(other) == strip(text), "pretty", "pretty printing changed more than white space");
        other = print(*t, opts ^ Writer::ValidateUnicode);
        VF_CHECK(other == text, "validate", "validating changed the text");
        other = print(*t, opts ^ Writer::EscapeUnicode);
        Dom a, b;
        size_t e;
        VF_CHECK(strict(other, a, e) && strict(text, b, e) && a == b, "escape", "escaping changed the content");
        if (opts == (opts & Writer::Default)) VF_CHECK((t->printText().first == text) == (print(*t, Writer::Default) == text), "default", "the convenience function prints something else");
    }
    if (idx % 5 == 0 && std::string(t->name()) == "Leaf") { // the same content gives the same bytes
        auto u = t->fresh();
        u->copyFrom(*t);
        VF_CHECK(print(*u, opts) == text, "deterministic", "an equal object gives other bytes");
    }
    t.reset();
    Leaf::sweep();
}

} // namespace

const vf::Harness harness = { "c19", &run, nullptr, nullptr };
