// C06: a parse tree used as the input of another parse (lexy::parse_tree_input, dsl::tnode, dsl::pnode).
// A random tree is read again by grammars over nodes; what they report is compared with a model that walks a copy of the
// tree.
#ifndef LEXY_EXPERIMENTAL
#    define LEXY_EXPERIMENTAL 1
#endif
#include "ledger.hpp"
#include "treecheck.hpp"
#include <lexy/action/parse.hpp>
#include <lexy/action/parse_as_tree.hpp>
#include <lexy/action/validate.hpp>
#include <lexy/callback.hpp>
#include <lexy/dsl.hpp>
#include <lexy/input/parse_tree_input.hpp>
#include <lexy/input/string_input.hpp>
#include <lexy/visualize.hpp>

const char* const   sim::property_id = "C06";
const std::uint64_t sim::step_limit  = 120000000;

namespace
{
using sim::choose;
using sim::mnode;
namespace dsl = lexy::dsl;

enum class kind
{
    a,
    b,
    ws,
};
constexpr const char* token_kind_name(kind k)
{
    return k == kind::a ? "a" : k == kind::b ? "b" : "ws";
}

struct prod_root
{
    static constexpr auto name = "root";
    static constexpr auto rule = dsl::any;
};
struct prod_p
{
    static constexpr auto name = "p";
    static constexpr auto rule = dsl::any;
};
struct prod_q : lexy::token_production
{
    static constexpr auto name = "q";
    static constexpr auto rule = dsl::any;
};

using tree_t  = lexy::parse_tree_for<lexy::string_input<>, kind>;
using input_t = lexy::parse_tree_input<tree_t::node>;

struct to_string
{
    using return_type = std::string;
    template <typename... Args>
    std::string operator()(Args&&... args) const
    {
        std::string s = "(";
        (add(s, args), ...);
        return s + ")";
    }
    static void add(std::string& s, const std::string& x) { s += x; }
    static void add(std::string&, lexy::nullopt) {}
    template <typename Reader>
    static void add(std::string& s, lexy::lexeme<Reader> l)
    {
        s += '\'';
        for (auto c : l)
            s += char(c);
        s += '\'';
    }
};
struct cat
{
    using return_type = std::string;
    struct callback
    {
        using return_type = std::string;
        std::string r     = "[";
        void        operator()(std::string&& s) { r += s; }
        std::string finish() && { return r + "]"; }
    };
    auto sink() const { return callback{}; }
};

namespace g
{
    template <int I>
    struct items;
    // I: 0 everything is done by choices and recursion, 1 the same and failures are recovered from.
    template <int I>
    struct item
    {
        static constexpr auto name = "item";
        static constexpr auto rule = [] {
            auto a = dsl::tnode<kind::a>(dsl::capture(dsl::digits<>));
            auto b = dsl::capture(dsl::tnode<kind::b>);
            auto p = dsl::pnode<prod_p>(dsl::recurse<items<I>>);
            auto q = dsl::pnode<prod_q> >> dsl::if_(dsl::pnode<prod_p>);
            return a | b | p | q;
        }();
        static constexpr auto value = to_string{};
    };
    template <int I>
    struct items
    {
        static constexpr auto name = "items";
        static constexpr auto rule = [] {
            if constexpr (I == 0)
                return dsl::list(dsl::p<item<I>>);
            else
                return dsl::list(dsl::try_(dsl::p<item<I>>));
        }();
        static constexpr auto value = cat{};
    };
    template <int I>
    struct plain
    {
        static constexpr auto name  = "plain";
        static constexpr auto rule  = dsl::opt(dsl::p<items<I>>) + dsl::eof;
        static constexpr auto value = to_string{};
    };
    template <int I>
    struct spaced : plain<I>
    {
        static constexpr auto whitespace = dsl::tnode<kind::ws>;
    };

    // Takes everything.
    struct walk
    {
        static constexpr auto name = "walk";
        static constexpr auto rule = [] {
            return dsl::loop(dsl::tnode<kind::a> | dsl::tnode<kind::b> | dsl::tnode<kind::ws> | dsl::pnode<prod_p>(dsl::recurse<walk>)
                             | dsl::pnode<prod_q>(dsl::recurse<walk>) | dsl::break_);
        }();
        static constexpr auto value = lexy::noop;
    };
    // Not a choice: says what it wants at each point.
    struct fixed
    {
        static constexpr auto name = "fixed";
        static constexpr auto rule
            = dsl::tnode<kind::a> + dsl::pnode<prod_p>(dsl::tnode<kind::b>(dsl::capture(dsl::digits<>)) + dsl::opt(dsl::tnode<kind::ws>))
              + dsl::pnode<prod_q>(dsl::tnode<kind::b>) + dsl::peek(dsl::tnode<kind::a>) + dsl::tnode<kind::a> + dsl::eof;
        static constexpr auto value = to_string{};
    };
} // namespace g

//=== the reference ===//
// What is written down: the tokens, the errors, and the value or the lack of one, in order.
struct Model
{
    bool               spaced = false, recovers = false;
    const std::string& text;
    std::string        log;
    bool               errors = false;

    void token(const char* kind, std::size_t b, std::size_t e)
    {
        if (b == e && std::string_view(kind) == "token")
            return; // (of no kind)
        log += std::string(kind) + "[" + std::to_string(b) + "," + std::to_string(e) + ") ";
    }
    void error_token(std::size_t b, std::size_t e)
    {
        if (b != e)
            token("error token", b, e);
    }
    void error(const char* what, std::size_t b, std::size_t e)
    {
        errors = true;
        log += std::string("!") + what + "[" + std::to_string(b) + "," + std::to_string(e) + ") ";
    }

    // The children of one node, read from the left.
    struct Cursor
    {
        const std::vector<mnode>& list;
        std::size_t               end; // where the node ends
        std::size_t               i = 0;
        const mnode*              cur() const { return i < list.size() ? &list[i] : nullptr; }
        static std::size_t        begin_of(const mnode& m) { return m.token ? m.begin : begin_of(m.children.front()); }
        static std::size_t        end_of(const mnode& m) { return m.token ? m.end : end_of(m.children.back()); }
        std::size_t               pos() const { return cur() ? begin_of(*cur()) : end; }
    };
    bool is(const Cursor& c, const char* kind) { return c.cur() && c.cur()->kind == kind; }
    void skip(Cursor& c)
    {
        auto b = c.pos();
        while (spaced && is(c, "ws"))
            ++c.i;
        if (c.pos() != b)
            token("whitespace", b, c.pos());
    }

    // What follows `kind(rule)`, the rule being done on [.., begin) of the node.
    void leftover(const char* what, std::size_t begin, const Cursor& c, bool any)
    {
        if (!any)
            return;
        error_token(begin, c.pos());
        error(what, begin, c.pos());
    }

    bool digits(Cursor& c, const mnode& n, std::string& value)
    {
        auto e = n.begin;
        while (e != n.end && text[e] >= '0' && text[e] <= '9')
            ++e;
        if (e == n.begin)
        {
            error("digit.decimal", e, e);
            error_token(e, c.pos());
            return false;
        }
        token("digits", n.begin, e);
        value += "'" + text.substr(n.begin, e - n.begin) + "'";
        leftover("expected token end", e, c, e != n.end);
        return true;
    }

    bool item(Cursor& c, std::string& value)
    {
        value = "(";
        if (is(c, "a"))
        {
            auto& n = *c.cur();
            ++c.i;
            if (!digits(c, n, value))
                return false;
            skip(c);
        }
        else if (is(c, "b"))
        {
            auto& n = *c.cur();
            ++c.i;
            token("b", n.begin, n.end);
            value += "'" + text.substr(n.begin, n.end - n.begin) + "'";
            skip(c);
        }
        else if (is(c, "p"))
        {
            auto& n = *c.cur();
            ++c.i;
            Cursor      child{n.children, Cursor::end_of(n)};
            std::string v;
            skip(child);
            if (!items(child, v))
            {
                error_token(child.pos(), c.pos());
                return false;
            }
            value += v;
            leftover("expected production end", child.pos(), c, child.cur() != nullptr);
            skip(c);
        }
        else if (is(c, "q"))
        {
            for (auto kind : {"q", "p"})
                if (is(c, kind))
                {
                    auto b = c.pos(), e = Cursor::end_of(*c.cur());
                    ++c.i;
                    token("token", b, e);
                    skip(c);
                }
        }
        else
        {
            error("exhausted choice", c.pos(), c.pos());
            return false;
        }
        value += ")";
        return true;
    }
    bool items(Cursor& c, std::string& value)
    {
        value = "[";
        do
        {
            std::string v;
            if (item(c, v))
                value += v;
            else if (!recovers)
                return false;
            else
                skip(c); // part of the recovery
        } while (is(c, "a") || is(c, "b") || is(c, "p") || is(c, "q"));
        value += "]";
        return true;
    }
    bool plain(Cursor& c, std::string& value)
    {
        skip(c);
        value = "(";
        if (is(c, "a") || is(c, "b") || is(c, "p") || is(c, "q"))
        {
            std::string v;
            if (!items(c, v))
                return false;
            value += v;
        }
        value += ")";
        return eof(c);
    }
    bool eof(Cursor& c)
    {
        if (c.cur())
        {
            error("expected EOF", c.pos(), c.pos());
            return true;
        }
        token("EOF", c.pos(), c.pos());
        return true;
    }
    void walk(Cursor& c)
    {
        for (; c.cur(); ++c.i)
            if (c.cur()->token)
            {
                if (c.cur()->kind != "a" && c.cur()->kind != "b" && c.cur()->kind != "ws")
                    return;
                token(c.cur()->kind.c_str(), c.cur()->begin, c.cur()->end);
            }
            else
            {
                Cursor child{c.cur()->children, Cursor::end_of(*c.cur())};
                walk(child);
                if (child.cur())
                {
                    Cursor after = c;
                    ++after.i;
                    leftover("expected production end", child.pos(), after, true);
                }
            }
    }
    bool one(Cursor& c, const char* kind)
    {
        if (!is(c, kind))
        {
            error(kind, c.pos(), c.pos());
            return false;
        }
        token(c.cur()->token ? kind : "token", c.pos(), Cursor::end_of(*c.cur()));
        ++c.i;
        return true;
    }
    bool fixed(Cursor& c, std::string& value)
    {
        value = "(";
        if (!one(c, "a"))
            return false;
        if (!is(c, "p"))
        {
            error("p", c.pos(), c.pos());
            return false;
        }
        auto& n = *c.cur();
        ++c.i;
        Cursor child{n.children, Cursor::end_of(n)};
        if (!is(child, "b"))
        {
            error("b", child.pos(), child.pos());
            error_token(child.pos(), c.pos());
            return false;
        }
        auto& t = *child.cur();
        ++child.i;
        if (!digits(child, t, value))
        {
            error_token(child.pos(), c.pos());
            return false;
        }
        if (is(child, "ws"))
            one(child, "ws");
        leftover("expected production end", child.pos(), c, child.cur() != nullptr);
        if (!is(c, "q"))
        {
            error("q", c.pos(), c.pos());
            return false;
        }
        auto& q = *c.cur();
        ++c.i;
        Cursor qc{q.children, Cursor::end_of(q)};
        if (!one(qc, "b"))
        {
            error_token(qc.pos(), c.pos());
            return false;
        }
        leftover("expected production end", qc.pos(), c, qc.cur() != nullptr);
        if (!is(c, "a"))
            error("peek failure", c.pos(), c.pos());
        if (!one(c, "a"))
            return false;
        value += ")";
        return eof(c);
    }
};

//=== what is observed ===//
struct Seen
{
    std::string               log;
    sim::offsets<const char*> off;
};
struct errors_of
{
    Seen* seen;
    void  add(const char* what, const char* b, const char* e) const
    {
        auto bo = seen->off(b, "error begin"), eo = seen->off(e, "error end");
        seen->log += std::string("!") + what + "[" + std::to_string(bo) + "," + std::to_string(eo) + ") ";
    }
};
template <typename Reader>
struct handler
{
    using iterator = const char*;
    Seen* seen;

    struct event_handler
    {
        event_handler(lexy::production_info) {}
        template <typename TK>
        void on(handler& h, lexy::parse_events::token, TK kind_, iterator begin, iterator end)
        {
            lexy::token_kind<kind> k(kind_);
            auto                   b = h.seen->off(begin, "token begin"), e = h.seen->off(end, "token end");
            if (b > e)
                sim::violate("backward-token", "a token covers [%zu, %zu)", b, e);
            if (b == e && k.ignore_if_empty())
                return;
            h.seen->log += std::string(k.name()) + "[" + std::to_string(b) + "," + std::to_string(e) + ") ";
        }
        template <typename R>
        void on(handler& h, lexy::parse_events::error, const lexy::error<R, lexy::expected_char_class>& e)
        {
            errors_of{h.seen}.add(e.name(), e.position(), e.position());
        }
        template <typename R, typename Tag>
        void on(handler& h, lexy::parse_events::error, const lexy::error<R, Tag>& e)
        {
            errors_of{h.seen}.add(e.message(), e.begin(), e.end());
        }
        int on(handler&, lexy::parse_events::operation_chain_start, iterator) { return 0; }
        template <typename Event, typename... Args>
        void on(handler&, Event, const Args&...)
        {}
    };
    template <typename Production, typename State>
    using value_callback = lexy::production_value_callback<Production, State>;
    template <typename Result>
    auto get_result(bool ok) &&
    {
        return Result{ok};
    }
    template <typename Result, typename T>
    auto get_result(bool ok, T&&) &&
    {
        return Result{ok};
    }
};
template <typename>
struct ok_result
{
    bool ok;
};

//=== a run ===//
struct Gen
{
    tree_t::builder& b;
    std::string&     text;
    std::size_t      pos   = 0;
    unsigned         nodes = 0;
    bool             odd; // nodes the grammars don't know

    void token(std::vector<mnode>& out, int wanted = -1)
    {
        static const char* const names[] = {"a", "b", "ws"};
        auto                     k       = wanted >= 0 && !sim::chance(10, "another token") ? unsigned(wanted) : unsigned(choose(odd ? 4 : 3, "token kind"));
        auto                     len     = choose(4, "token length");
        for (std::size_t i = 0; i != len; ++i)
            text[pos + i] = "17xy"[choose(4, "character") % (k == 0 && !odd ? 3 : 4)];
        mnode m;
        m.token = true;
        m.begin = pos;
        m.end   = pos + len;
        if (k == 3)
        {
            b.token(lexy::literal_token_kind, &text[pos], &text[pos + len]);
            m.kind = lexy::token_kind_name(lexy::literal_token_kind);
        }
        else
        {
            b.token(kind(k), &text[pos], &text[pos + len]);
            m.kind = names[k];
        }
        out.push_back(m);
        pos += len;
        ++nodes;
    }
    void fill(std::vector<mnode>& out, unsigned depth, bool must)
    {
        auto n = choose(5, "children") + (must ? 1 : 0);
        for (std::size_t i = 0; i != n; ++i)
        {
            auto what = nodes > 40 || depth > 6 ? 0 : choose(5, "node");
            if (what < 3)
            {
                token(out);
                continue;
            }
            mnode m;
            m.kind             = what == 3 ? "p" : "q";
            m.token_production = what == 4;
            auto k             = what == 3 ? b.start_production(prod_p{}) : b.start_production(prod_q{});
            fill(m.children, depth + 1, true);
            b.finish_production(std::move(k));
            out.push_back(std::move(m));
            ++nodes;
        }
    }

    // Close to what `fixed` wants.
    void directed(std::vector<mnode>& out)
    {
        auto node = [&](bool q, auto inside) {
            mnode m;
            m.kind             = q ? "q" : "p";
            m.token_production = q;
            auto k             = q ? b.start_production(prod_q{}) : b.start_production(prod_p{});
            inside(m.children);
            b.finish_production(std::move(k));
            out.push_back(std::move(m));
            ++nodes;
        };
        token(out, 0);
        node(sim::chance(5, "other production"), [&](auto& cs) {
            token(cs, 1);
            for (auto more = choose(4, "more"); more > 1; --more)
                token(cs, 2);
        });
        node(!sim::chance(5, "other production"), [&](auto& cs) {
            token(cs, 1);
            if (sim::chance(20, "more"))
                token(cs);
        });
        if (!sim::chance(10, "end early"))
            token(out, 0);
        if (sim::chance(20, "more"))
            token(out);
    }
};

template <typename P>
void check(const char* name, const input_t& in, const mnode& node, std::size_t end, const std::string& text, bool spaced, bool recovers)
{
    Model         m{spaced, recovers, text};
    Model::Cursor c{node.children, end};
    std::string   value;
    bool          ok;
    if constexpr (std::is_same_v<P, g::walk>)
        m.walk(c), ok = true;
    else if constexpr (std::is_same_v<P, g::fixed>)
        ok = m.fixed(c, value);
    else
        ok = m.plain(c, value);

    Seen seen{{}, {text.data(), text.size()}};
    {
        auto reader = in.reader();
        using R     = decltype(reader);
        auto did    = lexy::do_action<P, ok_result>(handler<R>{&seen}, lexy::no_parse_state, reader).ok;
        sim::ev("%s: %s", name, seen.log.c_str());
        if (did != ok)
            sim::violate("reparse-status", "%s of a node %s: %s instead of %s (%s instead of %s)", name, node.str().c_str(), did ? "success" : "failure", ok ? "success" : "failure", sim::printable(seen.log, 300).c_str(), sim::printable(m.log, 300).c_str());
        if (seen.log != m.log)
            sim::violate("reparse-events", "%s of a node %s: %s instead of %s", name, node.str().c_str(), sim::printable(seen.log, 300).c_str(), sim::printable(m.log, 300).c_str());
        if (ok && std::size_t(reader.position() - text.data()) != c.pos())
            sim::violate("reparse-rest", "%s of a node %s ends at %zu instead of %zu", name, node.str().c_str(), std::size_t(reader.position() - text.data()), c.pos());
    }
    auto v = lexy::validate<P>(in, lexy::noop);
    if (v.is_success() != (ok && !m.errors) || v.is_fatal_error() == ok)
        sim::violate("reparse-status", "%s validates a node %s differently", name, node.str().c_str());
    if constexpr (!std::is_same_v<P, g::walk>)
    {
        auto r = lexy::parse<P>(in, lexy::noop);
        if (r.is_success() != (ok && !m.errors) || r.has_value() != ok)
            sim::violate("reparse-status", "%s parses a node %s differently", name, node.str().c_str());
        if (ok && r.value() != value)
            sim::violate("reparse-value", "%s of a node %s is %s instead of %s", name, node.str().c_str(), r.value().c_str(), value.c_str());
    }
    sim::probe(!ok ? "reparse-failed" : m.errors ? "reparse-recovered" : "reparse-succeeded");
    sim::state(sim::hash(name, node.count() * 64 + node.depth() * 4 + (!ok ? 0 : m.errors ? 1 : 2)));
}

void check_all(const tree_t& t, tree_t::node n, const mnode& m, std::size_t end, const std::string& text, int level, bool directed)
{
    input_t in(n);
    if (in.root() != n)
        sim::violate("reparse-root", "root() is another node");
    switch (directed && level == 0 ? 5 : choose(6, "grammar"))
    {
    case 0: check<g::walk>("walk", in, m, end, text, false, false); break;
    case 1: check<g::plain<0>>("plain", in, m, end, text, false, false); break;
    case 2: check<g::spaced<0>>("spaced", in, m, end, text, true, false); break;
    case 3: check<g::plain<1>>("plain recovering", in, m, end, text, false, true); break;
    case 4: check<g::spaced<1>>("spaced recovering", in, m, end, text, true, true); break;
    default: check<g::fixed>("fixed", in, m, end, text, false, false); break;
    }
    if (level == 0)
    {
        // The characters it covers, seen through the node or directly.
        lexy::visualization_options opts;
        opts.flags            = lexy::visualization_flags(choose(16, "flags"));
        opts.max_lexeme_width = static_cast<unsigned char>(choose(4, "width"));
        auto        b = text.data() + Model::Cursor::begin_of(m), e = text.data() + end;
        std::string direct, through;
        lexy::visualize_to(std::back_inserter(direct), lexy::lexeme_for<lexy::string_input<>>(b, e), opts);
        lexy::visualize_to(std::back_inserter(through), lexy::parse_tree_lexeme<tree_t::node>(b, e), opts);
        if (direct != through)
            sim::violate("node-lexeme", "a lexeme is shown as %s instead of %s", sim::printable(through).c_str(), sim::printable(direct).c_str());
    }
    std::size_t i = 0;
    if (level < 3)
        for (auto c : n.children())
        {
            auto& cm = m.children[i++];
            check_all(t, c, cm, Model::Cursor::end_of(cm), text, level + 1, directed);
        }
}
} // namespace

// An input made of nothing.
template <typename P>
void check_nothing(bool ok)
{
    input_t in;
    Seen    seen{{}, {nullptr, 0}};
    auto    reader = in.reader();
    using R        = decltype(reader);
    auto did       = lexy::do_action<P, ok_result>(handler<R>{&seen}, lexy::no_parse_state, reader).ok;
    if (did != ok || lexy::validate<P>(in, lexy::noop).is_success() != ok || reader.position() != nullptr)
        sim::violate("reparse-nothing", "an empty input gives %s: %s", did ? "success" : "failure", seen.log.c_str());
}

void sim::run_once()
{
    if (choose(200, "nothing") == 199)
    {
        check_nothing<g::walk>(true);
        check_nothing<g::plain<0>>(true);
        check_nothing<g::spaced<1>>(true);
        check_nothing<g::fixed>(false);
        sim::probe("empty-input");
    }
    tree_t      t;
    mnode       root;
    std::string text(400, 'z');
    root.kind = "root";
    auto directed = choose(3, "directed") == 2;
    {
        tree_t::builder b(prod_root{});
        Gen             gen{b, text};
        gen.odd = choose(8, "unknown tokens") == 7;
        if (directed)
            gen.directed(root.children);
        else
            gen.fill(root.children, 0, false);
        if (root.children.empty())
            gen.token(root.children);
        t = std::move(b).finish(text.data() + gen.pos);
        check_all(t, t.root(), root, gen.pos, text, 0, directed);
        input_t whole(t);
        if (whole.root() != t.root())
            sim::violate("reparse-root", "the root of an input made from a tree is not the tree's");
    }
}
