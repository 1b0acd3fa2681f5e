// C07: a failure in user code at any point unwinds the parse cleanly.
#include "c07_ops.hpp"

const char* const   sim::property_id = "C07";
const std::uint64_t sim::step_limit  = 60000000;

using namespace gram;
using sim::choose;

namespace
{
std::vector<grammar>& sorted()
{
    static std::vector<grammar> g = [] {
        auto v = grammars();
        std::sort(v.begin(), v.end(), [](auto& a, auto& b) { return std::strcmp(a.name, b.name) < 0; });
        return v;
    }();
    return g;
}

struct outcome
{
    enum
    {
        done,
        user_failure,
        alloc_failure,
        other
    } what = done;
    std::uint64_t id = 0;
    std::uint64_t allocs = 0;
    std::string   text;
};

// One parse, in which the fault that is set up may happen.
outcome attempt(c07_session& s, action a, std::uint64_t failing_alloc = 0)
{
    outcome o;
    user.points = user.moves = 0;
    auto count0       = sim::heap.count;
    sim::heap.failed  = 0;
    sim::heap.fail_at = failing_alloc ? count0 + failing_alloc : 0;
    try
    {
        std::string text;
        {
            sim::tracked t;
            text = s.run(a);
        }
        o.text = text;
    }
    catch (boom& b)
    {
        o.what = outcome::user_failure;
        o.id   = b.id;
    }
    catch (std::bad_alloc&)
    {
        o.what = outcome::alloc_failure;
    }
    catch (...)
    {
        o.what = outcome::other;
    }
    sim::heap.track = false;
    o.allocs        = sim::heap.count - count0;
    return o;
}
void clean(const grammar& g, action a, const char* when)
{
    if (user.live != 0)
        sim::violate("value-leak", "grammar %s, %s: %lld value(s) still alive %s", g.name, action_names[a], (long long)user.live, when);
    if (a != act_tree && sim::heap.live != 0)
        sim::violate("memory-leak", "grammar %s, %s: %llu block(s) of memory left behind %s", g.name, action_names[a],
                     (unsigned long long)sim::heap.live, when);
}
} // namespace

void sim::run_once()
{
    user       = user_t();
    auto& g    = sim::pick(sorted(), "grammar");
    auto  ops  = static_cast<c07_ops*>(g.ops);
    auto  text = make_text(g, 200, 2);
    auto  a    = action((act_parse + choose(act_kinds, "action")) % act_kinds);
    std::unique_ptr<c07_session> s(ops->open(unsigned(choose(2, "input kind")), text));
    sim::ev("grammar %s %s over a %s: %s", g.name, action_names[a], s->name(), sim::printable(text).c_str());

    auto expect = attempt(*s, a);
    if (expect.what != outcome::done)
        sim::violate("unexpected-exception", "grammar %s, %s: an exception without a failure", g.name, action_names[a]);
    auto points = user.points, moves = user.moves, allocs = expect.allocs;
    clean(g, a, "after a parse");
    sim::ev("points %llu moves %llu allocations %llu: %s", (unsigned long long)points, (unsigned long long)moves,
            (unsigned long long)allocs, sim::printable(expect.text).c_str());

    // Failures, one after another, on the same input and tree.
    auto failures = 1 + choose(4, "failures");
    std::uint64_t h = sim::hash(g.name, std::uint64_t(a));
    for (std::size_t i = 0; i < failures; ++i)
    {
        auto          kind    = choose(4, "failure kind");
        std::uint64_t fail_at = 0;
        user.boom_id = choose(1000, "exception id");
        if ((kind == 0 || kind == 3) && points > 0)
            user.throw_at = 1 + choose(points, "failing call");
        else if (kind == 1 && moves > 0)
            user.move_throw_at = 1 + choose(moves, "failing copy or move");
        else if (allocs > 0)
            fail_at = 1 + choose(allocs, "failing allocation");
        else
            continue;
        bool by_alloc = fail_at != 0;

        auto o = attempt(*s, a, fail_at);
        bool failed = by_alloc ? sim::heap.failed != 0 : user.thrown;
        if (!failed)
        {
            // Reused memory can make allocations unnecessary.
            if (!by_alloc)
                sim::violate("nondeterministic", "grammar %s, %s: user code is called fewer times when the parse is repeated", g.name,
                             action_names[a]);
            if (o.what != outcome::done || o.text != expect.text)
                sim::violate("repeat-differs", "grammar %s, %s: repeating the parse gives %s instead of %s", g.name, action_names[a],
                             sim::printable(o.text).c_str(), sim::printable(expect.text).c_str());
        }
        else
        {
            if (by_alloc)
                sim::fault("allocation-failure");
            h = sim::hash(user.thrown_in, h * 31 + (by_alloc ? fail_at : user.points));
            auto want = by_alloc ? outcome::alloc_failure : outcome::user_failure;
            if (o.what == outcome::done)
                sim::violate("swallowed", "grammar %s, %s: the failure of %s does not reach the caller", g.name, action_names[a],
                             by_alloc ? "an allocation" : user.thrown_in);
            if (o.what != want || (!by_alloc && o.id != user.boom_id))
                sim::violate("other-exception", "grammar %s, %s: another exception than the one thrown by %s arrives", g.name,
                             action_names[a], by_alloc ? "an allocation" : user.thrown_in);
            sim::probe(by_alloc ? "allocation" : user.thrown_in);
        }
        clean(g, a, "after a failure");
        user.throw_at = user.move_throw_at = 0;
        user.thrown   = false;
        if (a == act_tree)
            s->look();
        if (sim::chance(50, "parse again"))
        {
            auto again = attempt(*s, a);
            if (again.what != outcome::done || again.text != expect.text)
                sim::violate("repeat-differs", "grammar %s, %s: after a failure the parse gives %s instead of %s", g.name,
                             action_names[a], sim::printable(again.text).c_str(), sim::printable(expect.text).c_str());
            clean(g, a, "after a repeated parse");
        }
    }
    auto again = attempt(*s, a);
    if (again.what != outcome::done || again.text != expect.text)
        sim::violate("repeat-differs", "grammar %s, %s: after %zu failures the parse gives %s instead of %s", g.name, action_names[a],
                     std::size_t(failures), sim::printable(again.text).c_str(), sim::printable(expect.text).c_str());
    clean(g, a, "after a repeated parse");
    s.reset();
    if (sim::heap.live != 0)
        sim::violate("memory-leak", "grammar %s, %s: %llu block(s) of memory left behind", g.name, action_names[a],
                     (unsigned long long)sim::heap.live);
    sim::state(h);
}
