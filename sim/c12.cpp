// C12: a malformed part that was recovered from does not influence how later parts are parsed.
#include "c12_ops.hpp"

const char* const   sim::property_id = "C12";
const std::uint64_t sim::step_limit  = 200000000;

using namespace gram;
using sim::choose;

namespace
{
std::vector<grammar>& sorted()
{
    static std::vector<grammar> g = [] {
        auto v = grammars();
        std::sort(v.begin(), v.end(), [](auto& a, auto& b) { return std::strcmp(a.name, b.name) < 0; });
        return v;
    }();
    return g;
}

// A line: no line breaks in it, and nothing the previous line would skip as whitespace.
std::string clean(const grammar& g, const std::string& t)
{
    bool        ascii = std::strcmp(g.name, "scan_lines") == 0; // it skips ASCII only
    std::string r;
    for (char c : t)
        if (c != '\n' && c != '\r')
            r += ascii && (c & 0x80) ? '\x7F' : c;
    std::size_t i = 0;
    while (i < r.size() && (r[i] == ' ' || r[i] == '\t' || r[i] == '`'))
        ++i;
    return r.substr(i);
}
} // namespace

void sim::run_once()
{
    user      = user_t();
    auto& g   = sim::pick(sorted(), "grammar");
    auto  ops = static_cast<c12_ops*>(g.ops);

    std::vector<std::string> seg;
    auto                     n = 2 + sim::small(8, "lines");
    for (std::size_t i = 0; i < n; ++i)
    {
        std::string line;
        if (choose(2, "corrupt?") == 1)
        {
            line = clean(g, make_text(g, 60, 3));
            sim::fault("corrupt-line");
        }
        else
            line = clean(g, sim::pick(g.samples, "line"));
        auto times = choose(40, "repeat?") == 39 ? 1 + choose(60, "repeat") : 1;
        for (std::size_t k = 0; k < times; ++k)
            seg.push_back(line);
    }
    auto action = unsigned(choose(3, "action"));
    sim::ev("grammar %s, action %u, %zu lines", g.name, action, seg.size());
    for (auto& s : seg)
        sim::ev("| %s", sim::printable(s).c_str());

    doc_record all;
    ops->run(seg, 0, seg.size(), action, all);
    sim::ev("%s, %zu errors", all.status.c_str(), all.errors.size());

    std::size_t e = 0, t = 0, v = 0;
    bool        any_error = false;
    unsigned    bad       = 0;
    for (std::size_t i = 0; i < seg.size(); ++i)
    {
        doc_record one;
        ops->run(seg, i, i + 1, action, one);
        auto where = "line " + std::to_string(i) + " '" + sim::printable(seg[i]) + "'";
        any_error |= one.status != "success";
        bad += one.status != "success";
        if (one.status == "fatal")
            sim::violate("not-recovered", "%s alone is not recovered from", where.c_str());
        for (auto& x : one.errors)
        {
            if (e == all.errors.size())
                sim::violate("error-missing", "%s: the error '%s' is only reported without the other lines", where.c_str(), sim::printable(x).c_str());
            if (all.errors[e] != x)
                sim::violate("error-differs", "%s: error '%s' among other lines, '%s' without them", where.c_str(), sim::printable(all.errors[e]).c_str(), sim::printable(x).c_str());
            ++e;
        }
        if (all.value.compare(v, one.value.size(), one.value) != 0)
            sim::violate("value-differs", "%s: value '%s' among other lines, '%s' without them", where.c_str(), sim::printable(all.value.substr(v, one.value.size() + 10)).c_str(), sim::printable(one.value).c_str());
        v += one.value.size();
        for (auto& x : one.tree)
        {
            if (t == all.tree.size() || all.tree[t] != x)
                sim::violate("tree-differs", "%s: tree '%s' among other lines, '%s' without them", where.c_str(), t == all.tree.size() ? "(nothing)" : sim::printable(all.tree[t]).c_str(), sim::printable(x).c_str());
            ++t;
        }
    }
    if (e != all.errors.size())
        sim::violate("error-extra", "error '%s' is only reported among other lines", sim::printable(all.errors[e]).c_str());
    if (v != all.value.size() || t != all.tree.size())
        sim::violate("value-extra", "'%s' only among other lines", sim::printable(v != all.value.size() ? all.value.substr(v) : all.tree[t]).c_str());
    if ((all.status != "success") != any_error)
        sim::violate("status-differs", "the document is a %s", all.status.c_str());
    if (user.live != 0)
        sim::violate("value-leak", "%lld values are still alive", (long long)user.live);
    sim::state(sim::hash(g.name) + action * 7 + sim::hash(all.status) + all.errors.size() * 1000 + bad * 31);
    for (auto& x : all.errors)
        sim::state(sim::hash(x.substr(0, x.find('@')) + x.substr(x.find(')') == std::string::npos ? 0 : x.find(')')), sim::hash(g.name)));
}
