// C11: a scanning session behaves like the parse it spells out, whatever the call order.
// A program of scanner operations is chosen while it runs; a model of the session runs in lockstep.
#include "c11_run.hpp"

const char* const   sim::property_id = "C11";
const std::uint64_t sim::step_limit  = 20000000;

using namespace c11;

namespace
{
std::string text_of_run(Model& m)
{
    static const char* const parts[] = {"ab", "1", "cde", "c", ";", "x", "yz", "xyz", "(", ")", "a'", "t", "z", "32768", "32767", " ", "  ", "!", "=", "A", "cd", "a", "'", "99999999999", "abab", "b"};
    std::string              t;
    static const char* const words[] = {"ab", "1", "c", "x", "xyz", "yz", "abab", "b", "a", "t", " ", "'", "32767", "0"};
    auto                     n = sim::small(14, "parts");
    bool                     w = sim::chance(20, "words"); // long identifiers
    m.words                    = w;
    for (std::size_t i = 0; i < n; ++i)
        t += w ? words[choose(sizeof(words) / sizeof(words[0]), "word")] : parts[choose(sizeof(parts) / sizeof(parts[0]), "part")];
    if (!t.empty() && sim::chance(20, "ends early"))
    {
        sim::fault("input-ends-early");
        t.resize(choose(t.size(), "ends at"));
    }
    return t;
}
std::vector<std::pair<std::string, driver>>& sorted()
{
    static bool done = [] {
        std::sort(drivers().begin(), drivers().end());
        return true;
    }();
    (void)done;
    return drivers();
}
} // namespace

void sim::run_once()
{
    Model m;
    cur    = &m;
    level  = 0;
    budget = 60;
    sub_result.reset();
    m.t = text_of_run(m);
    auto& d = sim::pick(sorted(), "driver");
    sim::ev("%s, text %s", d.first.c_str(), sim::printable(m.t).c_str());
    sim::probe(d.first.c_str());
    d.second(m);
    if (user.live != 0)
        sim::violate("value-leak", "%lld values are still alive", (long long)user.live);
}
