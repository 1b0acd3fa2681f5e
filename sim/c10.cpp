// C10: a parser obeys the input protocol and always finishes when the input ends.
#include "c10_ops.hpp"

const char* const   sim::property_id = "C10";
const std::uint64_t sim::step_limit  = 100000000;

using namespace gram;
using sim::choose;

namespace
{
std::vector<grammar>& sorted()
{
    static std::vector<grammar> g = [] {
        auto v = grammars();
        std::sort(v.begin(), v.end(), [](auto& a, auto& b) { return std::strcmp(a.name, b.name) < 0; });
        return v;
    }();
    return g;
}
} // namespace

void sim::run_once()
{
    user       = user_t();
    auto& g    = sim::pick(sorted(), "grammar");
    auto  ops  = static_cast<c10_ops*>(g.ops);
    auto  text = make_text(g, 400, 6);
    auto  size = ops->size(text);
    sim::ev("grammar %s text %s", g.name, sim::printable(text).c_str());

    auto ends = 1 + choose(4, "ends");
    for (std::size_t i = 0; i < ends; ++i)
    {
        // The input ends here.
        auto      n    = i == 0 ? size : choose(size + 1, "end");
        auto      kind = unsigned(choose(2, "input kind"));
        unsigned  what = 1u << choose(5, "action");
        record    r;
        chk_stats st;
        ops->run(kind, text, n, what, r, st);
        sim::ev("%zu units, %s, action %u: %llu operations", n, kind ? "range" : "input", what, (unsigned long long)st.ops);
        if (n != size)
            sim::fault("early-end");
        if (!what)
            continue;
        // Ranges also count the operations that describe the outcome, a trace computes a line and column per event.
        auto bound = std::uint64_t(kind == 0 && what != 16 ? 3 : 60) * (n + 16) * (n + 16);
        if (st.ops > bound)
            sim::violate("too-many-steps", "grammar %s: %llu operations on an input of %zu code units", g.name, (unsigned long long)st.ops, n);
        // How far from the bound.
        static const char* const share[] = {"<1/16 of the bound", "<1/4 of the bound", "<1/2 of the bound", "<3/4 of the bound", "<=the bound"};
        auto                     q       = st.ops * 16 / bound;
        if (kind == 0 && what != 16)
            sim::probe(share[q < 1 ? 0 : q < 4 ? 1 : q < 8 ? 2 : q < 12 ? 3 : 4]);
        sim::state(sim::hash(r.trace + r.parse + r.tree + r.validate + r.match, sim::hash(g.name) + what * 2 + kind));
    }
    if (user.live != 0)
        sim::violate("value-leak", "%lld values are still alive", (long long)user.live);
}
