// JSON: documents, an independent strict reader, rendering, the types that are read and printed, and a native model of
// what reading and printing do to them.
#pragma once

#include "common.h"
#include "utils/json.h"
#include "types/primitives.h"
#include "types/std/string.h"
#include "types/std/vector.h"
#include "types/std/map.h"
#include "types/std/smart_ptr.h"
#include "types/reflect/value.h"
#include "types/reflect/type.h"

#include <cmath>
#include <locale>
#include <memory>
#include <unordered_map>

namespace jt {

using vf::Rng;

/******************************************************************************/
/* DOCUMENTS                                                                  */
/******************************************************************************/

struct Dom
{
    enum Kind { Null, Bool, Int, Float, String, Array, Object };
    Kind kind = Null;
    bool b = false;
    std::string s;                                   // text of a number, or of a string.
    std::vector<Dom> items;
    std::vector<std::pair<std::string, Dom> > members;

    Dom() {}
    explicit Dom(Kind k) : kind(k) {}
    static Dom boolean(bool b) { Dom d(Bool); d.b = b; return d; }
    static Dom number(Kind k, std::string text) { Dom d(k); d.s = std::move(text); return d; }
    static Dom string(std::string s) { Dom d(String); d.s = std::move(s); return d; }
    static Dom integer(int64_t i) { return number(Int, std::to_string(i)); }

    bool toInt(int64_t& out) const;    // false: out of range
    bool toDouble(double& out) const;
    bool operator==(const Dom& o) const;
    std::string text() const;          // for messages
};

struct Style
{
    bool space = true;        // random white space between tokens
    bool comments = false;
    bool escapes = true;      // random superfluous escapes in strings
    bool unicodeEscapes = true; // \u escapes allowed
};
std::string render(const Dom& d, Rng& r, const Style& style);
std::string renderString(const std::string& s, Rng& r, const Style& style);

// Reads one document. Follows RFC 8259 save for superfluous zeros in front of numbers and raw control characters in
// strings. end: where it stopped.
struct StrictOptions { bool comments = false; bool unescape = true; bool validate = true; bool rawControls = true; };
bool strict(const std::string& text, Dom& out, size_t& end, const StrictOptions& o = StrictOptions(), int maxDepth = 400);

// text or its escapes are made of whole, well-formed sequences.
bool validUtf8(const std::string& s);
std::string utf8(uint32_t code);
uint32_t randomCodePoint(Rng& r);
std::string randomText(Rng& r, size_t maxLen, bool ascii = false);
Dom randomDom(Rng& r, int depth);
std::string mutate(std::string s, Rng& r); // a few random changes to a document
std::string soup(Rng& r);                  // random tokens

/******************************************************************************/
/* TYPES                                                                      */
/******************************************************************************/

// Allocations of Leaf by plain pointers outlive what points to them: swept after each case.
struct Leaf
{
    bool b = false;
    int64_t i = 0;
    double f = 0;
    std::string s;

    static void* operator new(size_t n);
    static void operator delete(void* p);
    static void* operator new(size_t, void* p) { return p; }
    static size_t sweep();
};

struct Derived : public Leaf
{
    std::string extra;
    std::vector<int64_t> nums;
};

// Read and printed by functions of its own, as [tag, x].
struct Custom
{
    int64_t x = 0;
    std::string tag;
    void parseJson(reflect::json::Reader& reader);
    void printJson(reflect::json::Writer& writer) const;
};

struct Node
{
    bool b = false;
    int64_t i = 0;
    double f = 0;
    std::string s;
    Leaf leaf;
    Derived derived;
    Custom custom;
    int64_t hidden = 0;            // skipped
    std::string renamed;           // alias "aa-first"
    std::string escaped;           // alias with characters that need escapes
    std::string optional;          // skipEmpty
    std::vector<std::string> optList; // skipEmpty, alias "zz-last"
    std::shared_ptr<Leaf> shared;
    std::shared_ptr<int64_t> number;
    std::shared_ptr<Node> next;
    std::vector<int64_t> list;
    std::vector<Leaf> leaves;
    std::vector<std::vector<std::string> > grid;
    std::vector<std::shared_ptr<Leaf> > ptrs;
    std::vector<Node> kids;
    std::map<std::string, int64_t> counts;
    std::map<std::string, Leaf> named;
    std::map<std::string, std::vector<double> > series;
    std::unordered_map<std::string, std::string> words;
    std::map<std::string, std::map<std::string, bool> > flags;
};

// Movable only, with plain and unique pointers.
struct Top
{
    std::unique_ptr<Leaf> uleaf;
    std::unique_ptr<Node> unode;
    Leaf* raw = nullptr;
    std::unique_ptr<std::string> ustr;
    Node node;

    Top() {}
    Top(Top&& o) = default;
    Top& operator=(Top&&) = default;
};

struct Empty {};

template<typename F> void fields(Leaf& o, F& f)
{
    f("b", o.b); f("i", o.i); f("f", o.f); f("s", o.s);
}
template<typename F> void fields(Derived& o, F& f)
{
    fields(static_cast<Leaf&>(o), f); f("extra", o.extra); f("nums", o.nums);
}
extern const char* const escapedAlias;
template<typename F> void fields(Node& o, F& f)
{
    f("b", o.b); f("i", o.i); f("f", o.f); f("s", o.s); f("leaf", o.leaf); f("derived", o.derived); f("custom", o.custom);
    f("aa-first", o.renamed); f(escapedAlias, o.escaped); f.optional("optional", o.optional); f.optional("zz-last", o.optList);
    f("shared", o.shared); f("number", o.number); f("next", o.next); f("list", o.list);
    f("leaves", o.leaves); f("grid", o.grid); f("ptrs", o.ptrs); f("kids", o.kids); f("counts", o.counts);
    f("named", o.named); f("series", o.series); f("words", o.words); f("flags", o.flags);
}
template<typename F> void fields(Top& o, F& f)
{
    f("uleaf", o.uleaf); f("unode", o.unode); f("raw", o.raw); f("ustr", o.ustr); f("node", o.node);
}
template<typename F> void fields(Empty&, F&) {}

/******************************************************************************/
/* TARGETS                                                                    */
/******************************************************************************/

typedef reflect::json::Reader Reader;
typedef reflect::json::Writer Writer;

// While the library works, the program is set up for people who write 1.234,5 (or like the C library has it by default:
// home). Every Target, and some calls by hand, go through it.
struct Abroad
{
    static void choose(uint64_t n);  // for what follows
    static unsigned kind;            // 0: home
    Abroad();
    ~Abroad();
    Abroad(const Abroad&) = delete;
private:
    void* before = nullptr;
    std::locale streams;
    unsigned now = 0;
};

// Something to read or print, with its model.
struct Target
{
    virtual ~Target() {}
    virtual const char* name() const = 0;
    virtual std::unique_ptr<Target> fresh() const = 0;
    virtual void gen(Rng& r, int depth) = 0;           // random content, on top of nothing
    virtual void read(Reader& reader) = 0;             // the real thing
    virtual void print(Writer& writer) const = 0;      // the real thing
    virtual reflect::json::Error readText(const std::string& s) = 0; // through the convenience functions
    virtual std::pair<std::string, reflect::json::Error> printText() const = 0;
    virtual bool apply(const Dom& d) = 0;              // the model of reading; false if the shape doesn't suit
    virtual Dom dom(bool compact) const = 0;           // the model of printing
    virtual void copyFrom(const Target& o) = 0;        // deep copy by the model
    virtual bool equal(const Target& o) const = 0;     // by the model
    virtual Dom suited(Rng& r, int depth) const = 0;   // a document whose shape suits
    virtual bool printable() const { return true; }    // by kind
};
size_t targetCount();
std::unique_ptr<Target> makeTarget(size_t i);

// Content JSON cannot represent somewhere in the printed part, poison: 1 nan, 2 inf, 3 bad UTF-8.
bool poison(Target& t, Rng& r, int kind);

} // namespace jt

reflectTypeDecl(jt::Leaf)
reflectTypeDecl(jt::Derived)
reflectTypeDecl(jt::Custom)
reflectTypeDecl(jt::Node)
reflectTypeDecl(jt::Top)
reflectTypeDecl(jt::Empty)
