// C16: reading arbitrary bytes as anything, under the sanitizers.
#include "jt.h"

using namespace vf;
using namespace jt;

namespace {

std::string input(Target& t, Rng& r)
{
    Style st;
    st.comments = r.chance(30);
    switch (r.below(10)) {
    case 0: { std::string s; for (int n = r.below(60); n > 0; --n) s += char(r.next()); event("random bytes"); return s; }
    case 1: event("token soups"); return soup(r);
    case 2: event("documents"); return render(t.suited(r, 3), r, st);
    case 3: event("documents of other shapes"); return mutate(render(randomDom(r, 4), r, st), r);
    case 4: { event("several documents"); std::string s; for (int n = r.below(4); n >= 0; --n) s += render(t.suited(r, 2), r, st) + " "; return r.chance(50) ? s : mutate(s, r); }
    default: event("mutated documents"); return mutate(render(t.suited(r, 3), r, st), r);
    }
}

void use(Target& t, Rng& r)
{
    // whatever was read is a valid object.
    auto copy = t.fresh();
    copy->copyFrom(t);
    if (!t.printable()) return;
    VF_CHECK(t.equal(*copy), "object", "what was read isn't equal to itself");
    std::ostringstream out;
    Writer w(out, Writer::Options(r.below(16)));
    t.print(w);
    event("objects printed");
}

// Documents nested far past what could be read recursively: refused or not, they must not exhaust the stack.
void nested(Rng& r)
{
    static const size_t depths[] = { 200, 900, 1500, 4000, 20000, 100000, 300000 };
    size_t depth = depths[r.below(7)];
    depth += r.below(depth / 10);
    static const char* const open[] = { "[", "{\"a\":", "{\"next\":", "{\"kids\":[", "{\"unknown\":", "{\"node\":", "{\"unode\":", "{\"shared\":", "{\"named\":{\"k\":", "[1,", "{\"i\":3,\"next\":", "{\"grid\":[[" };
    static const char* const close[] = { "]", "}", "}", "]}", "}", "}", "}", "}", "}}", "]", "}", "]]}" };
    // A cycle of a few wrappers, most often one that suits the target for as long as it can.
    std::vector<int> cycle;
    for (int n = 1 + r.below(3); n > 0; --n) cycle.push_back(r.below(12));
    std::vector<int> first;
    switch (r.below(6)) {
    case 0: cycle.assign(1, 2); break;
    case 1: cycle.assign(1, 3); break;
    case 2: cycle = { 2, 3, 10 }; break;
    case 3: first = { 4 }; break; // skipped
    case 4: first = { 6 }; cycle = { 2, 10 }; break;
    default: break;
    }
    std::string s;
    for (int k : first) s += open[k];
    for (size_t i = 0; i < depth; ++i) s += open[cycle[i % cycle.size()]];
    if (r.chance(70)) {
        static const char* const cores[] = { "null", "1", "[]", "{}", "\"x\"" };
        s += cores[r.below(5)];
        for (size_t i = depth; i-- > 0;) s += close[cycle[i % cycle.size()]];
        for (size_t i = first.size(); i-- > 0;) s += close[first[i]];
    }
    unsigned opts = r.below(8);
    auto t = makeTarget(r.below(targetCount()));
    if (r.chance(60)) do t = makeTarget(r.below(targetCount())); while (std::string(t->name()) != "Node" && std::string(t->name()) != "Top" && t->printable());
    describe(VF_STR(t->name() << " options " << opts << " nested " << depth << " times " << quote(s.substr(0, 200))));
    distinct(hash(s.substr(0, 200), depth + 31 * hash(t->name())));
    std::istringstream in(s);
    Reader reader(in, Reader::Options(opts));
    if (r.chance(20)) { reflect::json::skip(reader); event("deeply nested documents skipped"); }
    else { t->read(reader); event("deeply nested documents"); }
    event(reader.error() ? "deeply nested documents refused" : "deeply nested documents accepted");
    if (reader.error()) VF_CHECK(!reader.ok() && std::string(reader.error().what()).size(), "message", "an error without a message");
    use(*t, r);
    t.reset();
    Leaf::sweep();
}

void run(uint64_t idx, Rng& r)
{
    if (idx % 97 == 13) { nested(r); return; }
    auto t = makeTarget(r.below(targetCount()));
    std::string s = input(*t, r);
    unsigned opts = r.below(8);
    describe(VF_STR(t->name() << " options " << opts << " input " << quote(s)));
    if (r.chance(25)) t->gen(r, 2);

    auto again = t->fresh();
    again->copyFrom(*t);
    std::string first;
    size_t line = 0, pos = 0;
    for (int round = 0; round < 2; ++round) {
        Target& x = round ? *again : *t;
        std::istringstream in(s);
        Reader reader(in, Reader::Options(opts));
        int reads = 1 + idx % 3;
        for (int k = 0; k < reads; ++k) {
            x.read(reader);
            if (reader.error()) break;
        }
        if (idx % 7 == 0) for (int k = 0; k < 3 && reader; ++k) reflect::json::skip(reader);
        std::string msg = reader.error() ? reader.error().what() : "";
        if (reader.error()) {
            VF_CHECK(!msg.empty(), "message", "an error without a message");
            VF_CHECK(!reader.ok(), "message", "ok after an error");
        }
        if (round == 0) { first = msg; line = reader.line(); pos = reader.pos(); event(msg.empty() ? "accepted" : "read errors"); }
        else {
            VF_EQ(msg, first, "repeat", "the error of a second read");
            VF_CHECK(reader.line() == line && reader.pos() == pos, "repeat", "another position the second time");
            if (t->printable()) VF_CHECK(t->equal(*again), "repeat", "another object the second time");
        }
    }
    distinct(hash(s, opts + 31 * hash(t->name())));
    use(*t, r);
    if (r.chance(30)) {
        auto u = t->fresh();
        auto err = u->readText(s);
        event("convenience reads");
        (void) err;
    }
    // and can be read into again.
    if (t->printable()) {
        std::istringstream in(render(t->suited(r, 2), r, Style()));
        Reader reader(in);
        t->read(reader);
        VF_CHECK(!reader.error(), "reuse", "can't be read into after an error: " << reader.error().what());
        event("read again");
    }
    t.reset(); again.reset();
    Leaf::sweep();
}

} // namespace

const vf::Harness harness = { "c16", &run, nullptr, nullptr };
