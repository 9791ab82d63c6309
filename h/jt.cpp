#include "jt.h"

#include <clocale>
#include <locale.h>

namespace jt {

/******************************************************************************/
/* DOM                                                                        */
/******************************************************************************/

bool Dom::toInt(int64_t& out) const
{
    // decimal arithmetic of its own.
    size_t i = 0;
    bool neg = i < s.size() && s[i] == '-';
    if (neg) i++;
    unsigned __int128 v = 0;
    for (; i < s.size(); ++i) {
        v = v * 10 + (s[i] - '0');
        if (v > (unsigned __int128)1 << 100) return false;
    }
    unsigned __int128 limit = ((unsigned __int128)1 << 63) - (neg ? 0 : 1);
    if (v > limit) return false;
    out = neg ? int64_t(-(__int128)v) : int64_t(v);
    return true;
}

bool Dom::toDouble(double& out) const
{
    std::istringstream ss(s);
    long double v = 0;
    // the C library is trusted to read numbers; overflow is told by infinity.
    out = strtod(s.c_str(), nullptr);
    (void) v;
    return std::isfinite(out);
}

bool Dom::operator==(const Dom& o) const
{
    if (kind != o.kind) return false;
    switch (kind) {
    case Null: return true;
    case Bool: return b == o.b;
    case Int: { int64_t x = 0, y = 0; return toInt(x) && o.toInt(y) ? x == y : s == o.s; }
    case Float: case String: return s == o.s;
    case Array: return items == o.items;
    case Object: return members == o.members;
    }
    return false;
}

std::string Dom::text() const
{
    Rng r(1);
    Style st; st.space = st.escapes = false;
    return render(*this, r, st);
}

std::string utf8(uint32_t c)
{
    std::string s;
    if (c < 0x80) s += char(c);
    else if (c < 0x800) { s += char(0xC0 | c >> 6); s += char(0x80 | (c & 63)); }
    else if (c < 0x10000) { s += char(0xE0 | c >> 12); s += char(0x80 | (c >> 6 & 63)); s += char(0x80 | (c & 63)); }
    else { s += char(0xF0 | c >> 18); s += char(0x80 | (c >> 12 & 63)); s += char(0x80 | (c >> 6 & 63)); s += char(0x80 | (c & 63)); }
    return s;
}

uint32_t randomCodePoint(Rng& r)
{
    static const uint32_t edges[] = { 0x7f, 0x80, 0xff, 0x7ff, 0x800, 0xfff, 0xd7ff, 0xe000, 0xfffd, 0xfffe, 0xffff, 0x10000, 0x10ffff, 0x1f600, 0xfffff, 0x100000, 0x2028 };
    switch (r.below(8)) {
    case 0: return r.below(0x20);
    case 1: return 0x80 + r.below(0x780);
    case 2: { uint32_t c = 0x800 + r.below(0xF800); return c >= 0xD800 && c <= 0xDFFF ? 0x20AC : c; }
    case 3: return 0x10000 + r.below(0x100000);
    case 4: return edges[r.below(sizeof edges / sizeof *edges)];
    default: return 0x20 + r.below(0x5f);
    }
}

std::string randomText(Rng& r, size_t maxLen, bool ascii)
{
    std::string s;
    size_t n = r.chance(20) ? 0 : r.below(maxLen + 1);
    if (r.chance(3)) n += 200;
    static const char* special = "\"\\/\b\f\n\r\t{}[]:,u0 '";
    for (size_t i = 0; i < n; ++i) {
        if (r.chance(15)) s += special[r.below(strlen(special))];
        else if (ascii || r.chance(50)) s += char(0x20 + r.below(0x5f));
        else s += utf8(randomCodePoint(r));
    }
    return s;
}

// length of the well-formed sequence at s[i], or 0.
static size_t sequence(const std::string& s, size_t i, uint32_t* code)
{
    unsigned char c = s[i];
    size_t n; uint32_t v, least;
    if (c < 0x80) { n = 1; v = c; least = 0; }
    else if (c >= 0xC0 && c < 0xE0) { n = 2; v = c & 31; least = 0x80; }
    else if (c >= 0xE0 && c < 0xF0) { n = 3; v = c & 15; least = 0x800; }
    else if (c >= 0xF0 && c < 0xF8) { n = 4; v = c & 7; least = 0x10000; }
    else return 0;
    if (i + n > s.size()) return 0;
    for (size_t k = 1; k < n; ++k) {
        unsigned char d = s[i + k];
        if (d < 0x80 || d >= 0xC0) return 0;
        v = v << 6 | (d & 63);
    }
    if (v < least) return 0;
    if (code) *code = v;
    return n;
}

bool validUtf8(const std::string& s)
{
    for (size_t i = 0; i < s.size();) {
        size_t n = sequence(s, i, nullptr);
        if (!n) return false;
        i += n;
    }
    return true;
}

/******************************************************************************/
/* RENDER                                                                     */
/******************************************************************************/

static void gap(std::string& out, Rng& r, const Style& st)
{
    if (!st.space) return;
    for (int k = r.below(4) ? r.below(2) : r.below(4); k > 0; --k) {
        static const char ws[] = " \n\t\r";
        if (st.comments && r.chance(30)) {
            out += "//";
            for (int n = r.below(8); n > 0; --n) out += "ab \"{}[]:,/\\\t1"[r.below(14)];
            out += "\n";
        }
        else out += ws[r.below(4)];
    }
}

std::string renderString(const std::string& s, Rng& r, const Style& st)
{
    std::string out = "\"";
    char buf[16];
    auto unit = [&] (unsigned u) {
        snprintf(buf, sizeof buf, r.chance(50) ? "\\u%04x" : "\\u%04X", u);
        out += buf;
    };
    for (size_t i = 0; i < s.size();) {
        uint32_t c = 0;
        size_t n = sequence(s, i, &c);
        if (!n) { out += s[i++]; continue; }
        bool esc = st.unicodeEscapes && st.escapes && r.chance(25) && !(c >= 0xD800 && c <= 0xDFFF) && c <= 0x10FFFF;
        const char* names = "\"\\/\b\f\n\r\t";
        const char* letters = "\"\\/bfnrt";
        const char* p = c && c < 0x80 ? strchr(names, int(c)) : nullptr;
        if (esc) {
            if (c < 0x10000) unit(c);
            else { unit(0xD800 | (c - 0x10000) >> 10); unit(0xDC00 | ((c - 0x10000) & 0x3ff)); }
        }
        else if (p && !(c == '/' && (!st.escapes || r.chance(50)))
                && !((c == '\b' || c == '\f' || c == '\r' || c == '\t') && st.escapes && r.chance(20))) {
            out += '\\'; out += letters[p - names];
        }
        else out.append(s, i, n);
        i += n;
    }
    return out + "\"";
}

std::string render(const Dom& d, Rng& r, const Style& st)
{
    std::string out;
    switch (d.kind) {
    case Dom::Null: return "null";
    case Dom::Bool: return d.b ? "true" : "false";
    case Dom::Int: case Dom::Float: return d.s;
    case Dom::String: return renderString(d.s, r, st);
    case Dom::Array:
        out = "["; gap(out, r, st);
        for (size_t i = 0; i < d.items.size(); ++i) {
            if (i) { out += ","; gap(out, r, st); }
            out += render(d.items[i], r, st); gap(out, r, st);
        }
        return out + "]";
    default:
        out = "{"; gap(out, r, st);
        for (size_t i = 0; i < d.members.size(); ++i) {
            if (i) { out += ","; gap(out, r, st); }
            out += renderString(d.members[i].first, r, st); gap(out, r, st); out += ":"; gap(out, r, st);
            out += render(d.members[i].second, r, st); gap(out, r, st);
        }
        return out + "}";
    }
}

static std::string randomNumber(Rng& r, bool& isInt)
{
    auto digits = [&] (int n) { std::string s; for (; n > 0; --n) s += char('0' + r.below(10)); return s; };
    isInt = r.chance(50);
    if (isInt) {
        static const char* edges[] = { "0", "-0", "1", "-1", "9223372036854775807", "-9223372036854775808", "4294967296", "1000000000000" };
        if (r.chance(30)) return edges[r.below(8)];
        std::string s = digits(1 + r.below(18));
        size_t z = s.find_first_not_of('0');
        s = z == std::string::npos ? "0" : s.substr(z);
        return (r.chance(40) ? "-" : "") + s;
    }
    std::string s = (r.chance(40) ? "-" : "") + std::to_string(r.below(r.chance(50) ? 10 : 1000000));
    bool frac = r.chance(70), exp = !frac || r.chance(40);
    if (frac) s += "." + digits(1 + r.below(8));
    if (exp) { s += r.chance(50) ? "e" : "E"; s += r.chance(33) ? "+" : r.chance(50) ? "-" : ""; s += digits(1 + r.below(2)); }
    return s;
}

Dom randomDom(Rng& r, int depth)
{
    int k = r.below(depth > 0 ? 9 : 6);
    switch (k) {
    case 0: return Dom();
    case 1: return Dom::boolean(r.chance(50));
    case 2: case 3: { bool i; std::string s = randomNumber(r, i); return Dom::number(i ? Dom::Int : Dom::Float, s); }
    case 4: case 5: return Dom::string(randomText(r, 8));
    case 6: case 7: { Dom d(Dom::Array); for (int n = r.below(4); n > 0; --n) d.items.push_back(randomDom(r, depth - 1)); return d; }
    default: { Dom d(Dom::Object); for (int n = r.below(4); n > 0; --n) d.members.emplace_back(randomText(r, 5), randomDom(r, depth - 1)); return d; }
    }
}

/******************************************************************************/
/* INPUTS                                                                     */
/******************************************************************************/

std::string mutate(std::string s, Rng& r)
{
    static const char* bits[] = { "{", "}", "[", "]", ",", ":", "\"", "\\", "\\u", "\\ud83d", "\\udc00", "null", "true", "false", "nul", "-", "0", "1e999",
        "99999999999999999999", "1.", ".5", "1e", "//", "/", "\n", "\xC3", "\xF8", "\xFF", "\x80", "\xF0\x9F\x98\x80", "-0", "\"\"", "{}", "[]", "\"b\":", "\"kids\":[{", "\"next\":{" };
    size_t n = 1 + r.below(r.chance(70) ? 2 : 8);
    for (; n > 0; --n) {
        size_t p = r.below(s.size() + 1), q = std::min<size_t>(s.size(), p + r.below(12));
        switch (r.below(9)) {
        case 0: if (p < s.size()) s[p] ^= 1 << r.below(8); break;
        case 1: s.erase(p, q - p); break;
        case 2: s.insert(p, bits[r.below(sizeof bits / sizeof *bits)]); break;
        case 3: s.resize(p); break;
        case 4: s.insert(r.below(s.size() + 1), s.substr(p, q - p)); break;
        case 5: if (p < s.size()) s[p] = char(r.next()); break;
        case 6: s.insert(p, 1, char(r.next())); break;
        case 7: if (p < s.size()) s[p] = "{}[],:\"\\0n/ \n"[r.below(13)]; break;
        default: { // nest
            std::string open, close;
            for (size_t k = r.below(r.chance(90) ? 5 : 120); k > 0; --k) {
                if (r.chance(50)) { open += "["; close = "]" + close; }
                else { open += r.chance(50) ? "{\"next\":" : "{\"k\":"; close = "}" + close; }
            }
            s.insert(q, r.chance(60) ? close : "");
            s.insert(p, open);
            break; }
        }
    }
    return s;
}

std::string soup(Rng& r)
{
    static const char* toks[] = { "{", "}", "[", "]", ",", ":", "\"b\"", "\"i\"", "\"s\"", "\"leaf\"", "\"kids\"", "\"list\"", "\"custom\"", "\"shared\"", "\"raw\"",
        "null", "true", "false", "1", "-1", "1.5", "1e3", "\"x\"", "\"\\u20ac\"", " ", "\n", "// c\n", "\"unode\"", "\"counts\"", "{}", "[]" };
    std::string s;
    for (int n = r.below(40); n > 0; --n) s += toks[r.below(sizeof toks / sizeof *toks)];
    return s;
}

/******************************************************************************/
/* STRICT READER                                                              */
/******************************************************************************/

namespace {
struct Strict
{
    const std::string& t;
    size_t i = 0;
    StrictOptions o;
    int depth;
    Strict(const std::string& t, const StrictOptions& o, int depth) : t(t), o(o), depth(depth) {}

    bool ws()
    {
        for (;;) {
            while (i < t.size() && (t[i] == ' ' || t[i] == '\n' || t[i] == '\t' || t[i] == '\r')) i++;
            if (i + 1 < t.size() && t[i] == '/' && t[i + 1] == '/') {
                if (!o.comments) return false;
                while (i < t.size() && t[i] != '\n') i++;
                if (i == t.size()) return true;
                i++;
                continue;
            }
            return true;
        }
    }
    bool lit(const char* s) { size_t n = strlen(s); if (t.compare(i, n, s)) return false; i += n; return true; }
    bool hex4(uint32_t& u)
    {
        u = 0;
        if (i + 4 > t.size()) return false;
        for (int k = 0; k < 4; ++k) {
            char c = t[i++];
            int v = c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1;
            if (v < 0) return false;
            u = u * 16 + v;
        }
        return true;
    }
    bool str(std::string& out)
    {
        if (i >= t.size() || t[i] != '"') return false;
        i++;
        while (i < t.size()) {
            unsigned char c = t[i];
            if (c == '"') { i++; return true; }
            if (c == '\n') return false;
            if (c < 0x20 && !o.rawControls) return false;
            if (c == '\\') {
                if (++i >= t.size()) return false;
                char e = t[i++];
                const char* letters = "\"\\/bfnrt";
                const char* names = "\"\\/\b\f\n\r\t";
                if (e == 'u') {
                    size_t at = i;
                    uint32_t u;
                    if (!hex4(u)) return false;
                    if (!o.unescape) { out += "\\u" + t.substr(at, 4); continue; }
                    if (u >= 0xDC00 && u <= 0xDFFF) return false;
                    if (u >= 0xD800 && u <= 0xDBFF) {
                        uint32_t l;
                        if (!lit("\\u") || !hex4(l) || l < 0xDC00 || l > 0xDFFF) return false;
                        u = 0x10000 + ((u - 0xD800) << 10) + (l - 0xDC00);
                    }
                    out += utf8(u);
                    continue;
                }
                const char* p = e ? strchr(letters, e) : nullptr;
                if (!p) return false;
                out += names[p - letters];
                continue;
            }
            if (c >= 0x80 && o.validate) {
                size_t n = sequence(t, i, nullptr);
                if (!n) return false;
                out.append(t, i, n);
                i += n;
                continue;
            }
            out += c;
            i++;
        }
        return false;
    }
    bool digits() { size_t s = i; while (i < t.size() && t[i] >= '0' && t[i] <= '9') i++; return i > s; }
    bool num(Dom& d)
    {
        size_t s = i;
        d.kind = Dom::Int;
        if (t[i] == '-') i++;
        if (!digits()) return false;
        if (i < t.size() && t[i] == '.') { d.kind = Dom::Float; i++; if (!digits()) return false; }
        if (i < t.size() && (t[i] == 'e' || t[i] == 'E')) {
            d.kind = Dom::Float; i++;
            if (i < t.size() && (t[i] == '+' || t[i] == '-')) i++;
            if (!digits()) return false;
        }
        d.s = t.substr(s, i - s);
        return true;
    }
    bool value(Dom& d)
    {
        if (!ws() || i >= t.size() || --depth < 0) return false;
        struct Up { int& d; ~Up() { d++; } } up = { depth };
        char c = t[i];
        if (c == 'n') { d = Dom(); return lit("null"); }
        if (c == 't') { d = Dom::boolean(true); return lit("true"); }
        if (c == 'f') { d = Dom::boolean(false); return lit("false"); }
        if (c == '"') { d = Dom(Dom::String); return str(d.s); }
        if (c == '-' || (c >= '0' && c <= '9')) { d = Dom(); return num(d); }
        if (c == '[') {
            d = Dom(Dom::Array); i++;
            if (!ws()) return false;
            if (i < t.size() && t[i] == ']') { i++; return true; }
            for (;;) {
                d.items.emplace_back();
                if (!value(d.items.back()) || !ws() || i >= t.size()) return false;
                if (t[i] == ']') { i++; return true; }
                if (t[i++] != ',') return false;
            }
        }
        if (c == '{') {
            d = Dom(Dom::Object); i++;
            if (!ws()) return false;
            if (i < t.size() && t[i] == '}') { i++; return true; }
            for (;;) {
                d.members.emplace_back();
                if (!ws() || !str(d.members.back().first) || !ws() || i >= t.size() || t[i++] != ':') return false;
                if (!value(d.members.back().second) || !ws() || i >= t.size()) return false;
                if (t[i] == '}') { i++; return true; }
                if (t[i++] != ',') return false;
            }
        }
        return false;
    }
};
}

bool strict(const std::string& text, Dom& out, size_t& end, const StrictOptions& o, int maxDepth)
{
    Strict s(text, o, maxDepth);
    bool ok = s.value(out);
    end = s.i;
    return ok;
}

/******************************************************************************/
/* TYPES                                                                      */
/******************************************************************************/

const char* const escapedAlias = "e\"s/c\\a\np\xE2\x82\xAC";

// One for each thread, without any synchronisation that could hide a race of the code under test.
static std::set<Leaf*>& leaves() { static thread_local std::set<Leaf*> s; return s; }
void* Leaf::operator new(size_t n)
{
    void* p = ::operator new(n);
    leaves().insert((Leaf*) p);
    return p;
}
void Leaf::operator delete(void* p)
{
    leaves().erase((Leaf*) p);
    ::operator delete(p);
}
size_t Leaf::sweep()
{
    size_t n = leaves().size();
    while (!leaves().empty()) delete *leaves().begin();
    return n;
}

void Custom::parseJson(Reader& reader)
{
    reflect::json::parseArray(reader, [&] (size_t n) {
        if (n == 0) tag = reflect::json::parseString(reader);
        else if (n == 1) x = reflect::json::parseInt(reader);
        else reflect::json::skip(reader);
    });
}
void Custom::printJson(Writer& writer) const
{
    reflect::json::printArray(writer, 2, [&] (size_t n) {
        if (n == 0) reflect::json::printString(writer, tag);
        else reflect::json::printInt(writer, x);
    });
}

static reflect::json::Traits traits(bool skip, bool skipEmpty, std::string alias = "", std::string parser = "", std::string printer = "")
{
    reflect::json::Traits t;
    t.skip = skip; t.skipEmpty = skipEmpty; t.alias = alias; t.parser = parser; t.printer = printer;
    return t;
}

/******************************************************************************/
/* ABROAD                                                                     */
/******************************************************************************/

unsigned Abroad::kind = 0;

extern "C" {
void __lsan_disable() __attribute__((weak));
void __lsan_enable() __attribute__((weak));
}

namespace {
struct Comma : std::numpunct<char>
{
    char do_decimal_point() const { return ','; }
    char do_thousands_sep() const { return '.'; }
    std::string do_grouping() const { return "\3"; }
    std::string do_truename() const { return "wahr"; }
    std::string do_falsename() const { return "falsch"; }
};
// Null where the system has no such locale.
locale_t loadComma()
{
    if (__lsan_disable) __lsan_disable(); // what glibc itself forgets about LOCPATH
    locale_t l = newlocale(LC_ALL_MASK, "de_DE.UTF-8", locale_t(0));
    if (__lsan_enable) __lsan_enable();
    return l;
}
locale_t comma()
{
    static locale_t l = loadComma();
    return l;
}
} // namespace

void Abroad::choose(uint64_t n) { kind = n % 3 ? 0 : 1 + n / 3 % 4; }

Abroad::Abroad()
{
    if (!kind) return;
    static const std::locale streamsAbroad(std::locale(), new Comma);
    now = kind;
    streams = std::locale::global(streamsAbroad);
    if (!comma()) now = 4;
    if (now == 1) setlocale(LC_ALL, "de_DE.UTF-8");
    if (now == 2) setlocale(LC_NUMERIC, "de_DE.UTF-8");
    if (now == 3) before = uselocale(comma());
    vf::event(now == 4 ? "under stream locales with a decimal comma" : "under C locales with a decimal comma");
    if (now < 4) VF_CHECK(strtod("1,5", nullptr) == 1.5, "harness", "the locale was not switched");
}

Abroad::~Abroad()
{
    if (!now) return;
    if (now == 1) setlocale(LC_ALL, "C");
    if (now == 2) setlocale(LC_NUMERIC, "C");
    if (now == 3) uselocale(static_cast<locale_t>(before));
    std::locale::global(streams);
}

} // namespace jt

reflectTypeImpl(jt::Leaf)
{
    reflectPlumbing();
    reflectAllocPlumbing();
    reflectField(b); reflectField(i); reflectField(f); reflectField(s);
}
reflectTypeImpl(jt::Derived)
{
    reflectParent(jt::Leaf);
    reflectPlumbing();
    reflectAllocPlumbing();
    reflectField(extra); reflectField(nums);
}
reflectTypeImpl(jt::Custom)
{
    reflectPlumbing();
    reflectField(x); reflectField(tag);
    reflectFn(parseJson); reflectFn(printJson);
    reflectTypeValue(json, jt::traits(false, false, "", "parseJson", "printJson"));
}
reflectTypeImpl(jt::Node)
{
    reflectPlumbing();
    reflectAllocPlumbing();
    reflectField(kids); reflectField(b); reflectField(i); reflectField(f); reflectField(s); reflectField(leaf);
    reflectField(derived); reflectField(custom); reflectField(hidden); reflectField(renamed); reflectField(escaped);
    reflectField(optional); reflectField(optList); reflectField(shared); reflectField(number); reflectField(next);
    reflectField(list); reflectField(leaves); reflectField(grid);
    reflectField(ptrs); reflectField(counts); reflectField(named); reflectField(series); reflectField(words); reflectField(flags);
    reflectFieldValue(hidden, json, jt::traits(true, false));
    reflectFieldValue(renamed, json, jt::traits(false, false, "aa-first"));
    reflectFieldValue(escaped, json, jt::traits(false, false, jt::escapedAlias));
    reflectFieldValue(optional, json, jt::traits(false, true));
    reflectFieldValue(optList, json, jt::traits(false, true, "zz-last"));
}
reflectTypeImpl(jt::Top)
{
    reflectPlumbing();
    reflectField(uleaf); reflectField(unode); reflectField(raw); reflectField(ustr); reflectField(node);
}
reflectTypeImpl(jt::Empty)
{
    reflectPlumbing();
}
