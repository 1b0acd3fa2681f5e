// C06: parse trees built by parsing, reused, moved and cleared, compared with a model made from the events of the parse.
#include "c06p_ops.hpp"

const char* const   sim::property_id = "C06";
const std::uint64_t sim::step_limit  = 100000000;

void sim::run_once()
{
    static std::vector<gram::grammar> sorted = [] {
        auto v = gram::grammars();
        std::sort(v.begin(), v.end(), [](auto& a, auto& b) { return std::strcmp(a.name, b.name) < 0; });
        return v;
    }();
    gram::user = gram::user_t();
    auto& g    = sim::pick(sorted, "grammar");
    sim::ev("grammar %s", g.name);
    static_cast<gram::c06p_ops*>(g.ops)->history(g);
    if (gram::user.live != 0)
        sim::violate("value-leak", "%lld values are still alive", (long long)gram::user.live);
}
