// C21: JSON read and printed by many threads, each scenario in a fresh process, under ThreadSanitizer, against what each gets alone.
#include "jtops.h"

namespace {

void scenario(Rng& r)
{
    int n = r.range(2, r.chance(30) ? 8 : 4);
    static const int slows[] = { 0, 0, 1, 1, 20, 150, 600 };
    slow = slows[r.below(7)];
    static const unsigned rates[] = { 0, 5, 20, 100, 1000 };
    delayRate = rates[r.below(5)];
    int steps = r.range(1, r.chance(60) ? 3 : 10);
    size_t first = r.below(3) ? count() - 1 - r.below(count()) : count();   // the same type first.
    int firstKind = r.chance(60) ? int(r.below(Tokens)) : -1;
    describe(VF_STR(n << " threads, " << steps << " steps, type " << first << " first, kind " << firstKind << ", slowness " << slow << ", delays " << delayRate));

    std::vector<std::vector<std::pair<Op, std::string> > > logs(n);
    vf::threads(n, r, [&] (Worker& w) {
        for (int s = 0; s < steps; ++s) {
            Op op;
            op.kind = s || firstKind < 0 ? int(w.rng.below(Kinds)) : firstKind;
            op.target = s || first == count() ? w.rng.below(count()) : first;
            op.seed = w.rng.next();
            w.op(op.target * 16 + op.kind, VF_STR("operation " << op.kind << " on target " << op.target));
            std::string result = perform(op);
            w.event(op.kind == Print || op.kind == Convenience ? "prints" : op.kind == Tokens ? "token streams" : "reads");
            logs[w.index].emplace_back(op, result);
        }
    });

    slow = 0;
    uint64_t bytes = 0;
    for (auto& log : logs) for (auto& e : log) {
        std::string alone = perform(e.first);
        bytes += alone.size();
        if (alone != e.second) fail("result", VF_STR("operation " << e.first.kind << " on " << make(e.first.target)->name() << " gave <" << e.second.substr(0, 600) << ">, alone <" << alone.substr(0, 600) << ">"));
        event("results compared");
    }
    event("bytes compared", bytes);
    event("scenarios");
}

void run(uint64_t, Rng& r) { forked("", [&] { scenario(r); }, 20); }

} // namespace

const vf::Harness harness = { "c21", run, nullptr, nullptr };
