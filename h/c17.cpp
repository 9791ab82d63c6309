// C17: documents are accepted exactly when well-formed and suited, and read faithfully, against a strict reader and a
// native model of the targets.
#include "jt.h"

using namespace vf;
using namespace jt;

namespace {

// line and column of an error message, false if there are none.
bool position(const std::string& msg, size_t& line, size_t& pos)
{
    size_t n = 0;
    unsigned long l, p;
    int used = 0;
    if (sscanf(msg.c_str(), "%lu:%lu: %n", &l, &p, &used) < 2 || !used) return false;
    (void) n;
    line = l; pos = p;
    return true;
}

void judge(const Target& start, const std::string& text, unsigned opts, const char* what)
{
    describe(VF_STR(what << ": " << start.name() << " options " << opts << " input " << quote(text)));
    for (char c : text) if (c == '\v' || c == '\f') { trivial(); return; } // white space for some.

    StrictOptions so;
    so.comments = opts & Reader::AllowComments;
    so.unescape = opts & Reader::UnescapeUnicode;
    so.validate = opts & Reader::ValidateUnicode;
    Dom doc;
    size_t end = 0;
    bool wellFormed = strict(text, doc, end, so, 20000);

    auto expected = start.fresh(), got = start.fresh();
    expected->copyFrom(start);
    got->copyFrom(start);
    bool suited = wellFormed && expected->apply(doc);

    std::istringstream in(text);
    Reader reader(in, Reader::Options(opts));
    got->read(reader);
    bool accepted = !reader.error();
    VF_EQ(bool(reader), accepted, "state", "the reader says it's fine");

    distinct(hash(text, opts + 977 * hash(start.name())));
    if (!wellFormed) {
        event("malformed documents");
        VF_CHECK(!accepted, "accepted-malformed", "a malformed document was accepted");
    }
    else if (!suited) {
        event("unsuited documents");
        VF_CHECK(!accepted, "accepted-unsuited", "a document whose shape doesn't suit was accepted");
    }
    else {
        event("suited documents");
        VF_CHECK(accepted, "rejected", "a well-formed document was rejected: " << reader.error().what());
        if (!got->equal(*expected)) {
            std::string e, g;
            if (got->printable()) { e = expected->dom(false).text(); g = got->dom(false).text(); }
            fail("content", "read something else: " + g + ", expected " + e);
        }
    }
    if (!accepted) {
        size_t line = 0, pos = 0;
        std::string msg = reader.error().what();
        VF_CHECK(position(msg, line, pos), "position", "no position in " << quote(msg));
        VF_CHECK(line >= 1 && pos >= 1, "position", "bad position in " << quote(msg));
        // somewhere in the input: columns are counted from 1, and one past the end may have been read.
        std::vector<size_t> lens(1, 0);
        for (char c : text) { if (c == '\n') lens.push_back(0); else lens.back()++; }
        VF_CHECK(line <= lens.size() && pos <= lens[line - 1] + 2, "position", "outside of the input: " << quote(msg));
        VF_CHECK(msg.size() > std::to_string(line).size() + std::to_string(pos).size() + 3, "position", "no message in " << quote(msg));
        event("positions checked");
    }
    expected.reset(); got.reset();
}

// Reads a document with the functions that custom parsers use.
struct ByHand
{
    Reader& reader;
    Rng& r;

    void read(const Dom& d)
    {
        using namespace reflect::json;
        if (r.chance(10)) { skip(reader); event("values skipped"); return; }
        switch (d.kind) {
        case Dom::Null:
            if (r.chance(50)) parseNull(reader);
            else if (r.chance(50)) parseArray(reader, [] (size_t) { fail("by-hand", "an item of null was asked for"); });
            else parseObject(reader, [] (const std::string&) { fail("by-hand", "a member of null was asked for"); });
            break;
        case Dom::Bool: VF_EQ(parseBool(reader), d.b, "by-hand", "bool"); break;
        case Dom::Int: {
            int64_t i;
            double x;
            if (!d.toInt(i)) { if (d.toDouble(x)) VF_EQ((Abroad(), parseFloat(reader)), x, "by-hand", "wide int"); else skip(reader); }
            else if (r.chance(30) && d.toDouble(x)) VF_EQ((Abroad(), parseFloat(reader)), x, "by-hand", "int as a float");
            else VF_EQ(parseInt(reader), i, "by-hand", "int");
            break; }
        case Dom::Float: { double x; if (d.toDouble(x)) VF_EQ((Abroad(), parseFloat(reader)), x, "by-hand", "float"); else skip(reader); break; }
        case Dom::String: VF_EQ(parseString(reader), d.s, "by-hand", "string"); break;
        case Dom::Array: {
            size_t n = 0;
            parseArray(reader, [&] (size_t i) {
                VF_EQ(i, n++, "by-hand", "item asked for");
                VF_CHECK(i < d.items.size(), "by-hand", "too many items");
                read(d.items[i]);
            });
            VF_EQ(n, d.items.size(), "by-hand", "items");
            break; }
        default: {
            size_t n = 0;
            parseObject(reader, [&] (const std::string& k) {
                VF_CHECK(n < d.members.size(), "by-hand", "too many members");
                VF_EQ(k, d.members[n].first, "by-hand", "member asked for");
                read(d.members[n++].second);
            });
            VF_EQ(n, d.members.size(), "by-hand", "members");
        } }
        VF_CHECK(!reader.error(), "by-hand", "refused: " << reader.error().what());
    }
};

// A value of another kind is asked for.
void askWrong(Reader& reader, const Dom& d, Rng& r)
{
    using namespace reflect::json;
    bool none = true;
    switch (r.below(7)) {
    case 0: if (d.kind == Dom::Null) return; parseNull(reader); break;
    case 1: if (d.kind == Dom::Bool) return; none = !parseBool(reader); break;
    case 2: if (d.kind == Dom::Int) return; none = parseInt(reader) == 0; break;
    case 3: if (d.kind == Dom::Int || d.kind == Dom::Float) return; none = parseFloat(reader) == 0; break;
    case 4: if (d.kind == Dom::String) return; none = parseString(reader).empty(); break;
    case 5: if (d.kind == Dom::Array || d.kind == Dom::Null) return; parseArray(reader, [&] (size_t) { none = false; }); break;
    default: if (d.kind == Dom::Object || d.kind == Dom::Null) return; parseObject(reader, [&] (const std::string&) { none = false; }); break;
    }
    VF_CHECK(bool(reader.error()) && !bool(reader), "by-hand", "a value of another kind was accepted");
    VF_CHECK(none, "by-hand", "something was read from a value of another kind");
    std::string first = reader.error().what();
    // Nothing more is read.
    VF_CHECK(!parseBool(reader) && parseInt(reader) == 0 && parseFloat(reader) == 0 && parseString(reader).empty(), "by-hand", "read after an error");
    parseArray(reader, [] (size_t) { fail("by-hand", "an item was read after an error"); });
    parseObject(reader, [] (const std::string&) { fail("by-hand", "a member was read after an error"); });
    skip(reader);
    VF_EQ(std::string(reader.error().what()), first, "by-hand", "the first error");
    event("wrong kinds asked for");
}

void byHand(Rng& r)
{
    Style st;
    unsigned opts = r.chance(60) ? unsigned(Reader::Default) : (r.below(4) << 1 | r.below(2));
    opts |= Reader::UnescapeUnicode;
    st.comments = (opts & Reader::AllowComments) && r.chance(70);
    st.space = r.chance(80);
    st.escapes = r.chance(70);
    Dom d = randomDom(r, 1 + r.below(4));
    std::string text = render(d, r, st);
    describe(VF_STR("by hand, options " << opts << " input " << quote(text)));
    distinct(hash(text, opts));
    {
        std::istringstream in(text);
        Reader reader(in, Reader::Options(opts));
        ByHand h { reader, r };
        h.read(d);
        event("read by hand");
    }
    {
        std::istringstream in(text);
        Reader reader(in, Reader::Options(opts));
        askWrong(reader, d, r);
    }
    // An error raised within stops everything.
    size_t items = d.kind == Dom::Array ? d.items.size() : d.kind == Dom::Object ? d.members.size() : 0;
    if (items) {
        std::istringstream in(text);
        Reader reader(in, Reader::Options(opts));
        size_t at = r.below(items), calls = 0;
        auto item = [&] { if (calls++ == at) reader.error("stop"); else reflect::json::skip(reader); };
        if (d.kind == Dom::Array) reflect::json::parseArray(reader, [&] (size_t) { item(); });
        else reflect::json::parseObject(reader, [&] (const std::string&) { item(); });
        VF_EQ(calls, at + 1, "by-hand", "items asked for");
        std::string msg = reader.error().what();
        VF_CHECK(msg.size() > 4 && msg.compare(msg.size() - 4, 4, "stop") == 0, "by-hand", "the error became " << quote(msg));
        event("stopped by hand");
    }
    // Skipping accepts what is well-formed, and nothing else.
    std::string bad = r.chance(50) ? text : r.chance(70) ? mutate(text, r) : soup(r);
    for (char c : bad) if (c == '\v' || c == '\f') return;
    StrictOptions so;
    so.comments = opts & Reader::AllowComments;
    so.unescape = true;
    so.validate = opts & Reader::ValidateUnicode;
    Dom doc;
    size_t end = 0;
    bool wellFormed = strict(bad, doc, end, so, 20000);
    describe(VF_STR("skipped, options " << opts << " input " << quote(bad)));
    std::istringstream in(bad);
    Reader reader(in, Reader::Options(opts));
    reflect::json::skip(reader);
    VF_EQ(!reader.error(), wellFormed, "by-hand", "skipped without an error");
    event(wellFormed ? "documents skipped" : "malformed documents skipped");
}

// Hundreds of levels are no reason to refuse a document.
void nested(Rng& r)
{
    size_t depth = 300 + r.below(500);
    int shape = r.below(4);
    std::string s, core = "7";
    Dom d = Dom::integer(7);
    for (size_t i = 0; i < depth; ++i) {
        bool object = shape == 0 ? false : shape == 1 ? true : r.chance(50);
        Dom up(object ? Dom::Object : Dom::Array);
        if (object) up.members.emplace_back("k" + std::to_string(i % 10), std::move(d));
        else { if (r.chance(10)) up.items.push_back(Dom::integer(i)); up.items.push_back(std::move(d)); }
        d = std::move(up);
    }
    Style st;
    st.space = r.chance(50);
    std::string text = render(d, r, st);
    describe(VF_STR("nested " << depth << " times: " << quote(text.substr(0, 200))));
    distinct(hash(text));
    {
        std::istringstream in(text);
        Reader reader(in);
        reflect::json::skip(reader);
        VF_CHECK(!reader.error(), "by-hand", "skipping refused: " << reader.error().what());
    }
    {
        std::istringstream in(text);
        Reader reader(in);
        ByHand h { reader, r };
        h.read(d);
    }
    {
        std::istringstream in(text);
        Reader reader(in);
        reflect::Value v;
        reflect::json::parse(reader, v);
        VF_CHECK(!reader.error(), "rejected", "a well-formed document was rejected: " << reader.error().what());
        const Dom* at = &d;
        typedef std::vector<reflect::Value> Items;
        typedef std::unordered_map<std::string, reflect::Value> Members;
        for (; at->kind != Dom::Int;) {
            bool object = at->kind == Dom::Object;
            VF_CHECK(object ? v.type() == reflect::type<Members>() : v.type() == reflect::type<Items>(), "content", "something else was read");
            reflect::Value next;
            if (object) {
                auto& m = v.get<Members>();
                VF_CHECK(m.size() == 1 && m.count(at->members[0].first), "content", "other members");
                next = m.begin()->second;
                at = &at->members[0].second;
            }
            else {
                auto& items = v.get<Items>();
                VF_EQ(items.size(), at->items.size(), "content", "items");
                next = items.back();
                at = &at->items.back();
            }
            v = next;
        }
        VF_EQ(v.get<int64_t>(), 7, "content", "innermost");
    }
    event("deep documents");
}

void run(uint64_t idx, Rng& r)
{
    Abroad::choose(idx / 9);
    if (idx % 900 == 44) { nested(r); return; }
    if (idx % 9 == 8) { byHand(r); return; }
    auto t = makeTarget(r.below(targetCount()));
    if (r.chance(40)) t->gen(r, 2);
    Style st;
    unsigned opts = r.chance(60) ? unsigned(Reader::Default) : r.below(8);
    st.comments = (opts & Reader::AllowComments) && r.chance(70);
    st.space = r.chance(80);
    st.escapes = r.chance(70);

    switch (idx % 8) {
    case 0: case 1: case 2: judge(*t, render(t->suited(r, 3), r, st), opts, "suited"); break;
    case 3: judge(*t, render(randomDom(r, 4), r, st), opts, "any"); break;
    case 4: judge(*t, mutate(render(t->suited(r, 3), r, st), r), opts, "mutated"); break;
    case 5: { // one node of another shape
        Dom d = t->suited(r, 3);
        Dom* at = &d;
        for (int k = r.below(4); k > 0; --k) {
            if (!at->items.empty()) at = &at->items[r.below(at->items.size())];
            else if (!at->members.empty()) at = &at->members[r.below(at->members.size())].second;
        }
        *at = randomDom(r, 2);
        judge(*t, render(d, r, st), opts, "one node changed");
        break; }
    case 6: judge(*t, soup(r), opts, "tokens"); break;
    default: { // every truncation, deletion and a replacement of each character of a document
        std::string s = render(t->suited(r, 2), r, st);
        if (s.size() > 120) s = render(t->suited(r, 1), r, st);
        if (s.size() > 200) s.resize(200);
        event("documents corrupted everywhere");
        for (size_t i = 0; i < s.size(); ++i) {
            judge(*t, s.substr(0, i), opts, "truncated");
            judge(*t, s.substr(0, i) + s.substr(i + 1), opts, "one character less");
            std::string u = s;
            u[i] = "{}[],:\"\\ntf01-.e/ \n\x80\xC3"[r.below(22)];
            judge(*t, u, opts, "one character replaced");
            // Letters of the other case, bytes a single bit away.
            u = s;
            u[i] ^= std::isalpha((unsigned char) u[i]) ? 0x20 : 1 << r.below(8);
            judge(*t, u, opts, "one bit flipped");
            u = s;
            u.insert(i, 1, "{}[],:\"\\ntf01-.e/ \n\x80\xC3"[r.below(22)]);
            judge(*t, u, opts, "one character more");
        }
        break; }
    }
    t.reset();
    Leaf::sweep();
}

} // namespace

const vf::Harness harness = { "c17", &run, nullptr, nullptr };
