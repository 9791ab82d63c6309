// C22: readers consume values one by one and report where they stopped, against an independent tokenizer.
#include "jt.h"

using namespace vf;
using namespace jt;
using reflect::json::Token;

namespace {

struct Tok { Token::Type type; std::string text, value; size_t start, end; bool bad; size_t badAt; };

void at(const std::string& s, size_t off, size_t& line, size_t& pos)
{
    line = 1; pos = 1;
    for (size_t i = 0; i < off && i < s.size(); ++i) { if (s[i] == '\n') { line++; pos = 1; } else pos++; }
}
std::string where(size_t l, size_t p) { return std::to_string(l) + ":" + std::to_string(p); }
std::string where(const Reader& r) { return where(r.line(), r.pos()); }

void checkPosition(const Reader& r, const std::string& s, size_t off, const char* what)
{
    size_t l, p;
    at(s, off, l, p);
    VF_EQ(where(r), where(l, p), "position", std::string(what) + " at offset " + std::to_string(off));
    event("positions checked");
}
// The error was reported between two offsets.
void checkErrorPosition(const Reader& r, const std::string& s, size_t from, size_t to)
{
    std::string msg = r.error().what();
    unsigned long l = 0, p = 0;
    VF_CHECK(sscanf(msg.c_str(), "%lu:%lu: ", &l, &p) == 2, "error-position", "no position in " << quote(msg));
    size_t fl, fp, tl, tp;
    at(s, from, fl, fp);
    at(s, to, tl, tp);
    tp += 1; // one past the end may have been read.
    bool ok = std::make_pair(size_t(l), size_t(p)) >= std::make_pair(fl, fp) && std::make_pair(size_t(l), size_t(p)) <= std::make_pair(tl, tp);
    VF_CHECK(ok, "error-position", "reported " << quote(msg) << ", it lies between " << where(fl, fp) << " and " << where(tl, tp));
    event("error positions checked");
}

std::string gap(Rng& r, bool comments, bool must)
{
    std::string s;
    if (must) s = r.chance(50) ? " " : "\n";
    for (int n = r.below(4); n > 0; --n) {
        if (comments && r.chance(30)) {
            s += "//";
            for (int k = r.below(6); k > 0; --k) s += "a\"{}/\\:1 "[r.below(9)];
            s += "\n";
        }
        else s += " \n\t\r"[r.below(4)];
    }
    return s;
}

Tok good(Rng& r)
{
    Tok t; t.bad = false; t.badAt = 0;
    static const std::pair<Token::Type, const char*> fixed[] = {
        { Token::ObjectStart, "{" }, { Token::ObjectEnd, "}" }, { Token::ArrayStart, "[" }, { Token::ArrayEnd, "]" },
        { Token::Separator, "," }, { Token::KeySeparator, ":" }, { Token::Bool, "true" }, { Token::Bool, "false" }, { Token::Null, "null" } };
    int k = r.below(13);
    if (k < 9) { t.type = fixed[k].first; t.text = t.value = fixed[k].second; return t; }
    Dom d;
    if (k < 11) do d = randomDom(r, 0); while (d.kind != Dom::Int && d.kind != Dom::Float);
    else d = Dom::string(randomText(r, 8));
    Style st;
    t.type = d.kind == Dom::Int ? Token::Int : d.kind == Dom::Float ? Token::Float : Token::String;
    t.text = render(d, r, st);
    t.value = d.s;
    return t;
}
// Malformed, and which of its characters can't be.
Tok bad(Rng& r)
{
    static const std::pair<const char*, int> list[] = {
        { "@", 0 }, { "nul]", 3 }, { "nan", 1 }, { "tru\n", 3 }, { "fals ", 4 }, { "x", 0 }, { "'a'", 0 }, { "\"a\\q\"", 3 }, { "\"ab\ncd\"", 3 },
        { "-", 1 }, { "-a", 1 }, { "1.a", 2 }, { "1e]", 2 }, { "2E+,", 3 }, { "\"\\u12g4\"", 5 }, { "\"\xC3(\"", 2 }, { "\"\xFF\"", 1 }, { "+1", 0 }, { ".5", 0 }, { "/x", 0 },
        { "\"abc", 4 }, { "\"a\\", 3 } };
    auto& p = list[r.below(sizeof list / sizeof *list)];
    Tok t; t.type = Token::EOS; t.text = p.first; t.bad = true; t.badAt = p.second;
    return t;
}
bool scalar(const Tok& t) { return t.type == Token::Int || t.type == Token::Float || t.type == Token::Bool || t.type == Token::Null || t.type == Token::EOS; }

std::string typeName(Token::Type t) { return reflect::json::print(t); }

void checkToken(const Token& got, const Tok& want, const char* what)
{
    if (got.type() != want.type) fail("token", std::string(what) + " gives " + typeName(got.type()) + ", expected " + typeName(want.type));
    if (got.type() == Token::String) VF_CHECK(got.asString() == want.value, "token", what << " gives " << quote(got.asString()) << ", expected " << quote(want.value));
    if (got.type() == Token::Bool) VF_CHECK(got.asBool() == (want.text == "true"), "token", what << " gives another boolean");
    Dom d = Dom::number(want.type == Token::Int ? Dom::Int : Dom::Float, want.value);
    int64_t i, j; double x, y;
    if (got.type() == Token::Int && d.toInt(i)) VF_CHECK(got.toInt(j) && i == j && got.asInt() == i, "token", what << " gives another integer");
    if (got.type() == Token::Float && d.toDouble(x)) { Abroad away; VF_CHECK(got.toFloat(y) && got.asFloat() == y && x == y, "token", what << " gives another float"); }
    event("tokens checked");
}

void tokens(Rng& r)
{
    bool comments = r.chance(50);
    std::vector<Tok> toks;
    std::string s = gap(r, comments, false);
    bool withBad = r.chance(30);
    size_t n = r.below(14);
    for (size_t i = 0; i <= n; ++i) {
        if (i == n && !withBad) break;
        Tok t = i == n ? bad(r) : good(r);
        bool must = !toks.empty() && scalar(toks.back()) && scalar(t);
        s += gap(r, comments, must);
        t.start = s.size();
        s += t.text;
        t.end = s.size();
        t.badAt += t.start;
        toks.push_back(t);
    }
    bool open = withBad && (toks.back().text == "\"abc" || toks.back().text == "\"a\\" || toks.back().text == "-");
    if (!open) s += gap(r, comments, withBad) + (comments && r.chance(30) ? "// the end" : "");
    describe(VF_STR("tokens of " << quote(s)));
    distinct(hash(s, comments));

    std::istringstream in(s);
    Reader reader(in, Reader::Options(Reader::Default | (comments ? Reader::AllowComments : 0)));
    for (size_t i = 0; i < toks.size(); ++i) {
        const Tok& t = toks[i];
        for (int k = r.below(3); k > 0; --k) {
            Token p = reader.peekToken();
            event("tokens looked at");
            if (t.bad) break;
            checkToken(p, t, "looking ahead");
        }
        if (t.bad) {
            if (!reader.error()) reader.nextToken();
            VF_CHECK(!!reader.error(), "accepted", "a malformed token was accepted");
            checkErrorPosition(reader, s, t.start, std::min(s.size(), t.badAt + 1));
            event("malformed tokens");
            break;
        }
        int how = r.below(4);
        if (how == 0) checkToken(reader.expectToken(t.type), t, "expecting");
        else if (how == 1 && r.chance(15)) {
            Token::Type other = t.type == Token::Null ? Token::Bool : Token::Null;
            Token got = reader.expectToken(other);
            VF_CHECK(got.type() == Token::EOS, "expect", "gave a token of another type");
            VF_CHECK(!!reader.error(), "expect", "a token of another type was accepted");
            checkErrorPosition(reader, s, t.start, t.end);
            event("unexpected tokens");
            break;
        }
        else if (how == 2 && t.type == Token::Int) { Dom d = Dom::integer(0); d.s = t.value; int64_t v; if (d.toInt(v)) VF_EQ(reflect::json::parseInt(reader), v, "token", "parseInt"); else reader.nextToken(); }
        else if (how == 2 && t.type == Token::Bool) VF_EQ(reflect::json::parseBool(reader), t.text == "true", "token", "parseBool");
        else if (how == 2 && t.type == Token::String) VF_EQ(reflect::json::parseString(reader), t.value, "token", "parseString");
        else if (how == 2 && t.type == Token::Null) reflect::json::parseNull(reader);
        else checkToken(reader.nextToken(), t, "reading");
        VF_CHECK(!reader.error(), "error", "unexpected error: " << reader.error().what());
        checkPosition(reader, s, t.end, "after a token");
    }
    if (!reader.error()) {
        Token e = reader.nextToken();
        VF_CHECK(e.type() == Token::EOS, "end", "a token after the end");
        VF_CHECK(!reader.error(), "end", "error at the end: " << reader.error().what());
        event("ends reached");
        return;
    }
    // the first error is kept, and nothing more is accepted.
    std::string first = reader.error().what();
    if (withBad) reader.nextToken(); // may have been looked at already.
    for (int k = 0; k < 4; ++k) {
        switch (r.below(6)) {
        case 0: VF_CHECK(reader.nextToken().type() == Token::EOS, "after-error", "a token after an error"); break;
        case 1: VF_CHECK(reader.peekToken().type() == Token::EOS, "after-error", "a token after an error"); break;
        case 2: VF_CHECK(reader.expectToken(Token::Null).type() != Token::Null, "after-error", "a token after an error"); break;
        case 3: reflect::json::skip(reader); break;
        case 4: { Leaf l; reflect::json::parse(reader, l); break; }
        default: reader.error("another <%d>", 1); break;
        }
        VF_EQ(std::string(reader.error().what()), first, "after-error", "the first error");
        VF_CHECK(!reader.ok(), "after-error", "ok after an error");
        event("uses after errors");
    }
}

void values(Rng& r)
{
    struct Doc { std::unique_ptr<Target> t, want; std::string text; size_t start, end; int how; };
    bool comments = r.chance(40);
    std::vector<Doc> docs;
    std::string s = gap(r, comments, false);
    Style st; st.comments = comments;
    int n = 1 + r.below(6);
    for (int i = 0; i < n; ++i) {
        Doc d;
        d.t = makeTarget(r.below(targetCount()));
        d.how = r.below(3);
        Dom doc = d.how == 1 ? randomDom(r, 3) : d.t->suited(r, 2);
        d.text = render(doc, r, st);
        d.start = s.size();
        s += d.text;
        d.end = s.size();
        s += gap(r, comments, true);
        if (d.how != 1) {
            StrictOptions so; so.comments = comments;
            size_t end;
            Dom parsed;
            d.want = d.t->fresh();
            VF_CHECK(strict(d.text, parsed, end, so) && end == d.text.size() && d.want->apply(parsed), "harness", "bad document");
        }
        docs.push_back(std::move(d));
    }
    bool spoil = r.chance(25);
    size_t tail = s.size();
    if (spoil) s += r.chance(50) ? "}" : "@ [1, 2]";
    describe(VF_STR(n << " values in " << quote(s.substr(0, 1500))));
    distinct(hash(s));

    std::istringstream in(s);
    Reader reader(in, Reader::Options(Reader::Default | (comments ? Reader::AllowComments : 0)));
    for (auto& d : docs) {
        if (r.chance(30)) reader.peekToken();
        if (d.how == 1) { reflect::json::skip(reader); event("values skipped"); }
        else {
            d.t->read(reader);
            event("values read");
        }
        VF_CHECK(!reader.error(), "error", "unexpected error: " << reader.error().what());
        if (d.how != 1) VF_CHECK(d.t->equal(*d.want), "content", "another value was read from " << quote(d.text));
        checkPosition(reader, s, d.end, d.how == 1 ? "after a skipped value" : "after a value");
    }
    if (spoil) {
        int64_t v = 0;
        if (r.chance(50)) reflect::json::skip(reader); else reflect::json::parse(reader, v);
        VF_CHECK(!!reader.error(), "accepted", "something that's no value was accepted");
        checkErrorPosition(reader, s, tail, tail + 2);
        event("errors after values");
    }
    docs.clear();
    Leaf::sweep();
}

void comments(Rng& r)
{
    // a comment somewhere between tokens, allowed or not.
    auto t = makeTarget(r.below(targetCount()));
    Style st; st.space = false;
    Dom d = t->suited(r, 2);
    std::string s = render(d, r, st);
    std::vector<size_t> cuts(1, 0); // between tokens
    bool in = false;
    for (size_t i = 0; i < s.size(); ++i) {
        if (in) { if (s[i] == '\\') i++; else if (s[i] == '"') { in = false; cuts.push_back(i + 1); } continue; }
        if (s[i] == '"') { in = true; continue; }
        if (strchr("{}[],:", s[i])) { cuts.push_back(i); cuts.push_back(i + 1); }
    }
    size_t cut = cuts[r.below(cuts.size())];
    if (cut == s.size()) cut = 0;
    std::string lead = r.chance(50) ? "\n \n" : "";
    std::string c = lead + "//" + (r.chance(50) ? "{\"not\": [data" : "") + (r.chance(30) ? "//\"" : "") + "\n";
    std::string with = s.substr(0, cut) + c + s.substr(cut);
    describe(VF_STR("comment at " << cut << " of " << t->name() << " " << quote(with)));
    distinct(hash(with));

    for (int allow = 0; allow <= 1; ++allow) {
        auto got = t->fresh(), want = t->fresh();
        VF_CHECK(want->apply(d), "harness", "bad document");
        std::istringstream in(with);
        Reader reader(in, Reader::Options(Reader::Default | (allow ? Reader::AllowComments : 0)));
        got->read(reader);
        if (!allow) {
            VF_CHECK(!!reader.error(), "comment", "a comment was accepted");
            checkErrorPosition(reader, with, cut + lead.size(), cut + c.size());
            event("comments refused");
        }
        else {
            VF_CHECK(!reader.error(), "comment", "a comment wasn't accepted: " << reader.error().what());
            VF_CHECK(got->equal(*want), "comment", "a comment changed what was read");
            checkPosition(reader, with, with.size(), "after a document with a comment");
            event("comments accepted");
        }
    }
    t.reset();
    Leaf::sweep();
}

void run(uint64_t idx, Rng& r)
{
    Abroad::choose(idx / 5);
    switch (idx % 4) {
    case 0: case 1: tokens(r); break;
    case 2: values(r); break;
    default: comments(r); break;
    }
}

} // namespace

const vf::Harness harness = { "c22", &run, nullptr, nullptr };
