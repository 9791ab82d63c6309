// C20: validation, escaping and unescaping of text against an independent codec.
#include "jt.h"

using namespace vf;
using namespace jt;

namespace {

typedef std::map<std::string, int64_t> Keys;

std::string readAs(const std::string& text, unsigned opts, bool key, bool& ok)
{
    std::istringstream in(key ? "{" + text + ":1}" : text);
    Reader reader(in, Reader::Options(opts));
    std::string s;
    if (key) {
        Keys m;
        reflect::json::parse(reader, m);
        ok = !reader.error();
        if (ok) { VF_EQ(m.size(), size_t(1), "keys", "keys read"); s = m.begin()->first; }
    }
    else {
        reflect::json::parse(reader, s);
        ok = !reader.error();
    }
    return s;
}
std::string printAs(const std::string& s, unsigned opts, bool key, bool& ok)
{
    std::ostringstream out;
    Writer w(out, Writer::Options(opts));
    std::string text;
    if (key) {
        Keys m; m[s] = 1;
        reflect::json::print(w, m);
        text = out.str();
        ok = !w.error();
        if (ok) {
            VF_CHECK(text.size() > 4 && text[0] == '{' && text.substr(text.size() - 3) == ":1}", "keys", "printed as " << quote(text));
            text = text.substr(1, text.size() - 4);
        }
    }
    else {
        reflect::json::print(w, s);
        text = out.str();
        ok = !w.error();
    }
    return text;
}

std::string escapeOf(uint32_t c, bool upper)
{
    char b[32];
    if (c < 0x10000) snprintf(b, sizeof b, upper ? "\\u%04X" : "\\u%04x", c);
    else snprintf(b, sizeof b, upper ? "\\u%04X\\u%04X" : "\\u%04x\\u%04x", 0xD800 + ((c - 0x10000) >> 10), 0xDC00 + ((c - 0x10000) & 0x3ff));
    return b;
}
std::string lower(std::string s) { for (auto& c : s) c = tolower(c); return s; }

void codePoint(uint32_t c, bool key)
{
    if (c >= 0xD800 && c <= 0xDFFF) return;
    std::string plain = "x" + utf8(c) + "y";
    describe(VF_STR("code point " << std::hex << c << (key ? " in a key" : "")));
    bool ok;
    // Beyond the first planes quick runs take the options in turns.
    bool all = c < 0x3000 || thorough() || (c & 0x3ff) < 4 || (c & 0x3ff) > 0x3fb;
    for (unsigned v = 0; v <= 1; ++v) {
        if (!all && v != (c & 1)) continue;
        unsigned val = v ? Reader::ValidateUnicode : 0;
        // raw
        if (c >= 0x20 && c != '"' && c != '\\')
            for (unsigned u = 0; u <= 1; ++u) {
                std::string got = readAs("\"" + plain + "\"", val | (u ? Reader::UnescapeUnicode : 0), key, ok);
                VF_CHECK(ok, "read-raw", "refused");
                VF_CHECK(got == plain, "read-raw", "read as " << quote(got));
            }
        // escaped
        for (int upper = 0; upper <= 1; ++upper) {
            if (!all && upper != (c >> 1 & 1)) continue;
            std::string esc = "x" + escapeOf(c, upper) + "y";
            std::string got = readAs("\"" + esc + "\"", val | Reader::UnescapeUnicode, key, ok);
            VF_CHECK(ok, "unescape", "refused");
            VF_CHECK(got == plain, "unescape", "read as " << quote(got));
            got = readAs("\"" + esc + "\"", val, key, ok);
            VF_CHECK(ok, "verbatim", "refused");
            VF_CHECK(got == esc, "verbatim", "read as " << quote(got));
        }
        unsigned wval = v ? Writer::ValidateUnicode : 0;
        std::string text = printAs(plain, wval | Writer::EscapeUnicode, key, ok);
        VF_CHECK(ok, "escape", "refused");
        if (c >= 0x80) VF_CHECK(lower(text) == lower("\"x" + escapeOf(c, false) + "y\""), "escape", "printed as " << quote(text));
        else VF_CHECK(text == printAs(plain, wval, key, ok), "escape", "a character of ASCII was escaped");
        text = printAs(plain, wval, key, ok);
        VF_CHECK(ok, "print-raw", "refused");
        if (c >= 0x80) VF_CHECK(text == "\"" + plain + "\"", "print-raw", "printed as " << quote(text));
    }
    event("code points");
}

// Bytes, well-formed or not.
void bytes(const std::string& s, bool key)
{
    describe(VF_STR("bytes " << quote(s) << (key ? " in a key" : "")));
    bool valid = validUtf8(s), ok;
    // what lies beyond Unicode, or is half a pair, but is well-formed by structure isn't judged.
    if (valid)
        for (size_t i = 0; i + 2 < s.size(); ++i) {
            unsigned char a = s[i], b = s[i + 1];
            if (!((a == 0xED && b >= 0xA0) || a > 0xF4 || (a == 0xF4 && b >= 0x90))) continue;
            // except that no escape may turn it into something else.
            std::string text = printAs(s, Writer::EscapeUnicode, key, ok);
            if (ok) {
                std::string back = readAs(text, Reader::Default, key, ok);
                VF_CHECK(ok && back == s, "round-trip", "printed as " << quote(text) << " read back as " << quote(back));
            }
            trivial();
            return;
        }
    bool special = s.find_first_of(std::string("\"\\\n")) != std::string::npos;
    if (!special) {
        std::string got = readAs("\"" + s + "\"", Reader::Default, key, ok);
        VF_CHECK(ok == valid, "read", (valid ? "refused to read" : "read malformed text") << " as " << quote(got));
        if (ok) VF_CHECK(got == s, "read", "read as " << quote(got));
        got = readAs("\"" + s + "\"", Reader::ValidateUnicode, key, ok);
        VF_CHECK(ok == valid, "read", (valid ? "refused to read" : "read malformed text") << " as " << quote(got));
        got = readAs("\"" + s + "\"", Reader::UnescapeUnicode, key, ok);
        VF_CHECK(ok && got == s, "unvalidated", "read as " << quote(got));
        event(valid ? "well-formed bytes" : "malformed bytes");
    }
    for (unsigned o : { unsigned(Writer::ValidateUnicode), unsigned(Writer::EscapeUnicode), unsigned(Writer::Default) }) {
        std::string text = printAs(s, o, key, ok);
        VF_CHECK(ok == valid, "print", (valid ? "refused to print" : "printed malformed text") << " with " << o << " as " << quote(text));
        if (!ok) continue;
        std::string back = readAs(text, Reader::Default, key, ok);
        VF_CHECK(ok && back == s, "round-trip", "printed as " << quote(text) << " read back as " << quote(back));
    }
    std::string text = printAs(s, Writer::None, key, ok);
    VF_CHECK(ok, "unvalidated", "refused to print");
    std::string back = readAs(text, Reader::UnescapeUnicode, key, ok);
    VF_CHECK(ok && back == s, "round-trip", "printed as " << quote(text) << " read back as " << quote(back));
    distinct(hash(s, key));
}

// The codes around every boundary in every length that could hold them, whole, cut short and next to other text.
std::string inBytes(uint32_t code, int n)
{
    std::string s;
    for (int i = n - 1; i >= 0; --i) s += char((i == n - 1 ? (n == 1 ? 0 : (0xF00 >> n) & 0xFF) : 0x80) | ((code >> (6 * i)) & (i == n - 1 && n > 1 ? (1 << (7 - n)) - 1 : n == 1 ? 0x7F : 0x3F)));
    return s;
}
void boundaries(Rng& r)
{
    for (uint32_t edge : { 0x0u, 0x80u, 0x100u, 0x800u, 0x1000u, 0xD800u, 0xE000u, 0x10000u, 0x40000u, 0x100000u, 0x110000u, 0x140000u, 0x200000u })
        for (int off = -2; off <= 1; ++off) {
            if (off < 0 && edge < uint32_t(-off)) continue;
            uint32_t code = edge + off;
            for (int n = 1; n <= 4; ++n) {
                if (code >> (n == 1 ? 7 : 5 * n + 1)) continue;
                std::string s = inBytes(code, n);
                for (int where = 0; where < 4; ++where) {
                    std::string t = (where & 1 ? "a" : "") + s + (where & 2 ? "b" : "");
                    bytes(t, r.chance(20));
                    if (n > 1 && !(where & 1)) {
                        bytes("a" + s.substr(0, n - 1) + (where & 2 ? "b" : ""), r.chance(20));
                        bytes(s.substr(1) + (where & 2 ? "b" : ""), r.chance(20));
                    }
                }
                event("boundary codes");
            }
        }
}

void badEscape(Rng& r)
{
    static const char* bad[] = { "\\u", "\\u1", "\\u12", "\\u123", "\\u123g", "\\uG123", "\\u 123", "\\u12\"", "\\U1234", "\\x41", "\\u-123", "\\u+123", "\\u00:0", "\\u00/0", "\\u00@0", "\\u00`0" };
    static const char* unpaired[] = { "\\ud800", "\\udbff", "\\udc00", "\\udfff", "\\ud83dx", "\\ud83d\\n", "\\ud83d\\u0041", "\\ud83d\\ud83d", "\\udc00\\ud83d", "\\ud83d\\u", "\\ud83d\\udc0", "\\ud83d\\udc0g" };
    bool pair = r.chance(50);
    std::string s = "\"" + randomText(r, 2, true).substr(0, 0) + (pair ? unpaired[r.below(12)] : bad[r.below(16)]) + (r.chance(50) ? "tail" : "") + "\"";
    describe("escape " + quote(s));
    bool ok;
    std::string got = readAs(s, Reader::Default, r.chance(50), ok);
    VF_CHECK(!ok, "bad-escape", "read as " << quote(got));
    if (!pair) { readAs(s, Reader::ValidateUnicode, r.chance(50), ok); VF_CHECK(!ok, "bad-escape", "kept a broken escape"); }
    distinct(hash(s));
    event("broken escapes");
}

const unsigned char classes[] = { 0x00, 0x41, 0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0, 0xc1, 0xc2, 0xdf, 0xe0, 0xe1, 0xec, 0xed, 0xee, 0xef, 0xf0, 0xf1, 0xf3, 0xf4, 0xf7, 0xf8, 0xfc, 0xfe, 0xff };
enum { NC = sizeof classes };

void run(uint64_t idx, Rng& r)
{
    const uint32_t chunk = 1024, chunks = 0x110000 / chunk;
    if (idx < chunks) {
        bool key = r.chance(50);
        for (uint32_t c = idx * chunk; c < (idx + 1) * chunk; ++c) { codePoint(c, key); distinct(mix(7, c)); }
        return;
    }
    idx -= chunks;
    if (idx < NC * NC) { // every four bytes by class
        for (int c = 0; c < NC; ++c) {
            std::string s;
            s += char(classes[idx / NC]); s += char(classes[idx % NC]); s += char(classes[c]);
            bytes(s, false);
            bytes(s.substr(0, 2), false);
            s = "a" + s;
            size_t step = thorough() ? 1 : 9;
            for (int d = r.below(step); d < NC; d += step) { bytes(s + char(classes[d]), false); bytes(s + char(classes[d]) + "z", r.chance(50)); }
        }
        event("byte classes");
        return;
    }
    if (idx % 200 == NC * NC % 200) boundaries(r);
    for (int k = 0; k < 20; ++k) {
        std::string s;
        for (int n = r.below(7); n > 0; --n) {
            switch (r.below(5)) {
            case 0: s += char(classes[r.below(NC)]); break;
            case 1: s += char(r.next()); break;
            case 2: { std::string u = utf8(randomCodePoint(r)); s += u.substr(0, r.below(u.size() + 1)); break; }
            default: s += utf8(randomCodePoint(r)); break;
            }
        }
        bytes(s, r.chance(30));
        badEscape(r);
        // text through any combination of escaping and unescaping
        std::string t = randomText(r, 20);
        bool ok, key = r.chance(30);
        unsigned wo = (r.chance(50) ? Writer::EscapeUnicode : 0) | (r.chance(50) ? Writer::ValidateUnicode : 0);
        unsigned ro = Reader::UnescapeUnicode | (r.chance(50) ? Reader::ValidateUnicode : 0);
        describe(VF_STR("text " << quote(t) << " printed with " << wo << " read with " << ro));
        std::string text = printAs(t, wo, key, ok);
        VF_CHECK(ok, "round-trip", "refused to print");
        std::string back = readAs(text, ro, key, ok);
        VF_CHECK(ok && back == t, "round-trip", "printed as " << quote(text) << " read back as " << quote(back));
        if (!(wo & Writer::EscapeUnicode)) {
            back = readAs(text, ro & ~unsigned(Reader::UnescapeUnicode), key, ok);
            VF_CHECK(ok && back == t, "round-trip", "printed raw as " << quote(text) << " read back as " << quote(back));
        }
        event("texts");
        distinct(hash(t, wo * 8 + ro));
    }
}

} // namespace

const vf::Harness harness = { "c20", &run, nullptr, nullptr };
