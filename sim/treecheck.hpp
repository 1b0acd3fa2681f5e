// Checks that a parse tree is well-formed, and turns it into a model tree.
#pragma once
#include "sim.hpp"
#include <lexy/parse_tree.hpp>
#include <lexy_ext/parse_tree_algorithm.hpp>
#include <memory>
#include <string>
#include <vector>

namespace sim
{
struct mnode
{
    bool               token = false;
    std::string        kind; // name of the token kind or production
    std::size_t        begin = 0, end = 0; // tokens: offsets into the input
    bool               token_production = false;
    std::vector<mnode> children;

    std::size_t count() const
    {
        std::size_t n = 1;
        for (auto& c : children)
            n += c.count();
        return n;
    }
    std::size_t depth() const
    {
        std::size_t d = 0;
        for (auto& c : children)
            d = std::max(d, c.depth() + 1);
        return d;
    }
    bool has_token() const
    {
        if (token)
            return true;
        for (auto& c : children)
            if (c.has_token())
                return true;
        return false;
    }
    void tokens(std::vector<const mnode*>& out) const
    {
        if (token)
            out.push_back(this);
        for (auto& c : children)
            c.tokens(out);
    }
    void print(std::string& s) const
    {
        if (token)
        {
            s += kind + "[" + std::to_string(begin) + "," + std::to_string(end) + ") ";
            return;
        }
        s += kind + (token_production ? "#{" : "{");
        for (auto& c : children)
            c.print(s);
        s += "} ";
    }
    std::string str() const
    {
        std::string s;
        print(s);
        return s;
    }
};

template <typename Iterator>
std::size_t distance_to(Iterator from, Iterator to, std::size_t max, const char* what)
{
    std::size_t n = 0;
    while (!(from == to))
    {
        if (n++ > max)
            violate("position-outside", "%s: a position is not reachable from the start of the input", what);
        ++from;
    }
    return n;
}

// Offsets of the positions of an input, made once per input.
template <typename Iterator>
struct offsets
{
    Iterator                begin;
    std::size_t             size;
    std::size_t             operator()(Iterator it, const char* what) const
    {
        if constexpr (std::is_base_of_v<std::random_access_iterator_tag, typename std::iterator_traits<Iterator>::iterator_category>)
        {
            auto d = it - begin;
            if (d < 0 || std::size_t(d) > size)
                violate("position-outside", "%s: a position outside of the input (%lld of %zu)", what, (long long)d, size);
            return std::size_t(d);
        }
        else
            return distance_to(begin, it, size, what);
    }
};

// Walks the tree through every accessor; any disagreement is a violation.
template <typename Tree, typename Offsets>
mnode read_node(const Tree& tree, typename Tree::node n, const Offsets& off, std::size_t budget, bool parsed = false, unsigned level = 0)
{
    if (level > 5000)
        violate("tree-cycle", "the tree is nested deeper than it has nodes");
    mnode m;
    auto  k = n.kind();
    if (k.is_token() == k.is_production())
        violate("node-kind", "a node is both or neither of token and production");
    if (!(n == n) || n != n || !(k == k))
        violate("node-compare", "a node is not equal to itself");
    m.token = k.is_token();
    m.kind  = k.name();
    if (m.token)
    {
        auto l = n.lexeme();
        m.begin = off(l.begin(), "token begin");
        m.end   = off(l.end(), "token end");
        if (m.begin > m.end)
            violate("backward-token", "a token covers [%zu, %zu)", m.begin, m.end);
        auto t = n.token();
        if (!(t.lexeme().begin() == l.begin()) || !(t.lexeme().end() == l.end()) || !(t.kind() == k) || t.name() != k.name())
            violate("node-token", "token() disagrees with lexeme() and kind()");
        auto c = n.covering_lexeme();
        if (!(c.begin() == l.begin()) || !(c.end() == l.end()))
            violate("covering-lexeme", "the covering lexeme of a token is not its lexeme");
        if (!(n.position() == l.begin()))
            violate("node-position", "the position of a token is not its begin");
        if (!n.children().empty() || n.children().size() != 0 || n.children().begin() != n.children().end())
            violate("token-children", "a token has children");
        return m;
    }
    m.token_production = k.is_token_production();
    auto        cs     = n.children();
    std::size_t count  = 0;
    std::vector<typename Tree::node> nodes;
    for (auto c : cs)
    {
        if (++count > budget)
            violate("tree-cycle", "the children of a node do not end");
        nodes.push_back(c);
    }
    if (count != cs.size() || cs.empty() != (count == 0))
        violate("child-count", "%zu children found, %zu reported", count, cs.size());
    for (std::size_t i = 0; i < count; ++i)
    {
        auto c = nodes[i];
        if (c.kind().is_root())
            violate("root-kind", "a child claims to be the root");
        // Kinds compare like what they stand for.
        for (auto o : {n, nodes[i + 1 == count ? 0 : i + 1]})
        {
            auto a = c.kind(), b = o.kind();
            bool eq = a == b;
            if (eq != (b == a) || eq == (a != b) || eq == (b != a))
                violate("kind-compare", "comparing the kinds %s and %s is not consistent", a.name(), b.name());
            if (eq && (a.is_token() != b.is_token() || std::string_view(a.name()) != b.name()))
                violate("kind-compare", "the kinds %s and %s are equal", a.name(), b.name());
        }
        // (parent() walks over the siblings.)
        if ((count < 2000 || i < 5 || i + 5 > count || i % 4096 == 0) && c.parent() != n)
            violate("parent", "the parent of a child is not its parent");
        if (c.is_last_child() != (i + 1 == count))
            violate("last-child", "is_last_child() of child %zu of %zu", i, count);
        if (count <= 12)
        {
            // All siblings, starting with the next, in a cycle.
            std::size_t s = 0;
            for (auto b : c.siblings())
            {
                ++s;
                if (s >= count || b != nodes[(i + s) % count])
                    violate("siblings", "the siblings of child %zu of %zu are wrong", i, count);
            }
            if (s + 1 != count || c.siblings().empty() != (count == 1))
                violate("siblings", "child %zu of %zu has %zu siblings", i, count, s);
        }
        m.children.push_back(read_node(tree, c, off, budget, parsed, level + 1));
    }
    if (parsed)
    {
        // Documented: every production has at least one child, so it has a position and covers its tokens.
        std::vector<const mnode*> toks;
        m.tokens(toks);
        if (toks.empty())
            violate("no-child", "a production node made by a parse has no token below it (%s)", m.kind.c_str());
        auto c = n.covering_lexeme();
        auto b = off(c.begin(), "covering lexeme begin"), e = off(c.end(), "covering lexeme end");
        if (b != toks.front()->begin || e != toks.back()->end)
            violate("covering-lexeme", "%s covers [%zu, %zu) but its tokens cover [%zu, %zu)", m.kind.c_str(), b, e,
                    toks.front()->begin, toks.back()->end);
        if (!(n.position() == c.begin()))
            violate("node-position", "the position of a node is not where its covering lexeme begins");
    }
    return m;
}

inline void count_events(const mnode& m, std::vector<std::pair<lexy::traverse_event, const mnode*>>& out)
{
    if (m.token)
    {
        out.emplace_back(lexy::traverse_event::leaf, &m);
        return;
    }
    out.emplace_back(lexy::traverse_event::enter, &m);
    for (auto& c : m.children)
        count_events(c, out);
    out.emplace_back(lexy::traverse_event::exit, &m);
}

// Traversals and queries that start at a node, compared with the model of that node.
template <typename Tree, typename Offsets>
void check_queries(const Tree& tree, typename Tree::node n, const mnode& m, const Offsets& off)
{
    using node = typename Tree::node;
    auto same  = [&](node x, const mnode& y) {
        return y.kind == x.kind().name() && y.token == x.kind().is_token()
               && (!y.token || (off(x.lexeme().begin(), "token") == y.begin && off(x.lexeme().end(), "token") == y.end));
    };
    std::vector<std::pair<lexy::traverse_event, const mnode*>> expected;
    count_events(m, expected);
    std::size_t i = 0;
    auto        range = tree.traverse(n);
    if (range.empty())
        violate("traverse-node", "the traversal of a %s is empty", m.kind.c_str());
    for (auto [event, x] : range)
    {
        if (i >= expected.size() || event != expected[i].first || !same(x, *expected[i].second))
            violate("traverse-node", "step %zu of the traversal of a %s is wrong", i, m.kind.c_str());
        ++i;
    }
    if (i != expected.size())
        violate("traverse-node", "the traversal of a %s has %zu steps instead of %zu", m.kind.c_str(), i, expected.size());

    std::vector<const mnode*> toks;
    m.tokens(toks);
    i          = 0;
    auto below = lexy_ext::tokens(tree, n);
    if (below.empty() != toks.empty())
        violate("query-tokens", "tokens() of a %s is empty or not", m.kind.c_str());
    for (auto t : below)
    {
        if (i >= toks.size() || !same(t, *toks[i]))
            violate("query-tokens", "token %zu below a %s is wrong", i, m.kind.c_str());
        ++i;
    }
    if (i != toks.size())
        violate("query-tokens", "tokens() of a %s finds %zu instead of %zu", m.kind.c_str(), i, toks.size());

    // Children by predicate and by kind.
    for (int tok = 0; tok != 2; ++tok)
    {
        auto want = [&](const mnode& c) { return c.token == (tok == 1); };
        auto it   = m.children.begin();
        auto skip = [&] {
            while (it != m.children.end() && !want(*it))
                ++it;
        };
        skip();
        auto first = lexy_ext::child(tree, n, [&](node x) { return x.kind().is_token() == (tok == 1); });
        if (first.has_value() != (it != m.children.end()) || (first && !same(*first, *it)))
            violate("query-child", "child() of a %s finds another one", m.kind.c_str());
        for (auto c : lexy_ext::children(tree, n, [&](node x) { return x.kind().is_token() == (tok == 1); }))
        {
            if (it == m.children.end() || !same(c, *it))
                violate("query-children", "children() of a %s finds another one", m.kind.c_str());
            ++it;
            skip();
        }
        if (it != m.children.end())
            violate("query-children", "children() of a %s ends early", m.kind.c_str());
    }
    if (!m.children.empty())
    {
        const mnode* w = nullptr;
        std::size_t  count = 0;
        for (auto& c : m.children)
            if (c.token && c.kind == "whitespace")
            {
                if (!w)
                    w = &c;
                ++count;
            }
        auto first = lexy_ext::child(tree, n, lexy::whitespace_token_kind);
        if (first.has_value() != (w != nullptr) || (first && !same(*first, *w)))
            violate("query-child", "child() of a %s finds another whitespace token", m.kind.c_str());
        for (auto c : lexy_ext::children(tree, n, lexy::whitespace_token_kind))
        {
            if (c.kind() != lexy::whitespace_token_kind || count == 0)
                violate("query-children", "children() of a %s finds another whitespace token", m.kind.c_str());
            --count;
        }
        if (count)
            violate("query-children", "children() of a %s misses whitespace", m.kind.c_str());
    }
    if (!toks.empty())
    {
        auto p    = off(lexy_ext::node_position(tree, n), "position of a node");
        auto want = toks.front()->begin;
        for (auto& c : m.children)
            if (c.token && c.kind == "position")
            {
                want = c.begin;
                break;
            }
        if (p != want)
            violate("query-position", "a %s is at %zu instead of %zu", m.kind.c_str(), p, want);
    }

    i = 0;
    for (auto c : n.children())
        check_queries(tree, c, m.children[i++], off);
}

struct tree_summary
{
    mnode       root;
    std::size_t rest_begin = 0, rest_end = 0;
};

// The whole tree; also checks size, depth, traversal.
template <typename Tree, typename Offsets>
tree_summary read_tree(const Tree& tree, const Offsets& off, bool parsed = false)
{
    tree_summary r;
    auto         root = tree.root();
    if (!root.siblings().empty() || root.siblings().begin() != root.siblings().end())
        violate("root-siblings", "the root has siblings");
    if (!root.kind().is_root() || root.parent() != root)
        violate("root-kind", "the root does not know that it is one");
    r.root = read_node(tree, root, off, 1 << 20, parsed);
    if (tree.size() != r.root.count())
        violate("tree-size", "size() is %zu but the tree has %zu nodes", tree.size(), r.root.count());
    if (tree.depth() != r.root.depth())
        violate("tree-depth", "depth() is %zu but the tree has depth %zu", tree.depth(), r.root.depth());
    auto rest    = tree.remaining_input();
    r.rest_begin = off(rest.begin(), "remaining input");
    r.rest_end   = off(rest.end(), "remaining input");

    // Traversal visits the same nodes in the same order.
    std::vector<const mnode*>                        stack;
    std::vector<std::size_t>                         next;
    std::size_t                                      events = 0;
    for (auto [event, node] : tree.traverse())
    {
        if (++events > 2 * tree.size() + 2)
            violate("traverse-endless", "the traversal does not end");
        if (event == lexy::traverse_event::exit)
        {
            if (stack.empty() || next.back() != stack.back()->children.size() || stack.back()->kind != node.kind().name()
                || node.kind().is_token())
                violate("traverse", "the traversal leaves a node that is not done");
            stack.pop_back();
            next.pop_back();
            continue;
        }
        const mnode* m = nullptr;
        if (stack.empty())
        {
            if (events != 1)
                violate("traverse", "the traversal goes on after the root");
            m = &r.root;
        }
        else
        {
            if (next.back() >= stack.back()->children.size())
                violate("traverse", "the traversal visits more children than there are");
            m = &stack.back()->children[next.back()++];
        }
        if (m->kind != node.kind().name() || m->token != (event == lexy::traverse_event::leaf))
            violate("traverse", "the traversal visits %s instead of %s", node.kind().name(), m->kind.c_str());
        if (event == lexy::traverse_event::enter)
        {
            stack.push_back(m);
            next.push_back(0);
        }
        else if (off(node.lexeme().begin(), "traversed token") != m->begin)
            violate("traverse", "the traversal visits another token");
    }
    if (!stack.empty() || events == 0)
        violate("traverse", "the traversal ends early");
    if (events <= 100)
    {
        check_queries(tree, root, r.root, off);
        using iterator = decltype(rest.begin());
        if constexpr (std::is_pointer_v<iterator>) if (parsed)
        {
            std::vector<const mnode*> toks;
            r.root.tokens(toks);
            for (auto t : toks)
                for (auto p = t->begin; p != t->end; p += (t->end - p > 9 ? t->end - p - 1 : 1))
                {
                    auto x = lexy_ext::find_covering_node(tree, off.begin + p);
                    if (!x.kind().is_token() || off(x.lexeme().begin(), "covering node") > p || off(x.lexeme().end(), "covering node") <= p)
                        violate("query-covering", "the node found for position %zu does not cover it", p);
                }
        }
    }
    return r;
}

template <typename Tree>
void check_empty(const Tree& tree, const char* what)
{
    if (!tree.empty())
        violate("not-empty", "a tree that was %s is not empty", what);
    if (tree.size() != 0)
        violate("not-empty", "a tree that was %s reports %zu nodes", what, tree.size());
    for (auto e : tree.traverse())
    {
        (void)e;
        violate("not-empty", "a tree that was %s has nodes to traverse", what);
    }
    if (!tree.remaining_input().empty())
        violate("not-empty", "a tree that was %s has remaining input", what);
}

// The tokens and the rest spell out [0, size).
inline void check_lossless(const tree_summary& t, std::size_t size, bool to_end)
{
    std::vector<const mnode*> toks;
    t.root.tokens(toks);
    std::size_t pos = 0;
    for (auto k : toks)
    {
        if (k->begin != pos)
            violate("not-lossless", "a %s token starts at %zu, but the ones before it end at %zu", k->kind.c_str(), k->begin, pos);
        pos = k->end;
    }
    if (t.rest_begin != pos)
        violate("not-lossless", "the remaining input starts at %zu, but the tokens end at %zu", t.rest_begin, pos);
    if (to_end && t.rest_end != size)
        violate("not-lossless", "the remaining input ends at %zu of %zu", t.rest_end, size);
}
} // namespace sim
