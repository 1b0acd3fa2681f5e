// C06: parse trees are lossless, well-formed and memory-clean across any history.
// This harness builds trees by hand; c06p.cpp builds them by parsing.
#include "ledger.hpp"
#include "treecheck.hpp"
#include <array>
#include <lexy/dsl/any.hpp>
#include <lexy/input/range_input.hpp>
#include <lexy/input/string_input.hpp>
#include <list>

const char* const   sim::property_id = "C06";
const std::uint64_t sim::step_limit  = 120000000;

namespace
{
using sim::choose;
using sim::mnode;

enum class kind
{
    a,
    b,
    c,
};
const char* token_kind_name(kind k)
{
    return k == kind::a ? "a" : k == kind::b ? "b" : "c";
}

struct prod_root
{
    static constexpr auto name = "root";
    static constexpr auto rule = lexy::dsl::any;
};
struct prod_p
{
    static constexpr auto name = "p";
    static constexpr auto rule = lexy::dsl::any;
};
struct prod_q : lexy::token_production
{
    static constexpr auto name = "q";
    static constexpr auto rule = lexy::dsl::any;
};
struct prod_t : lexy::transparent_production
{
    static constexpr auto name = "t";
    static constexpr auto rule = lexy::dsl::any;
};

const std::string& text()
{
    static const std::string t = [] {
        std::string s;
        for (int i = 0; i < 400000; ++i)
            s += char('a' + i % 26);
        return s;
    }();
    return t;
}
template <typename It>
struct Text;
template <>
struct Text<const char*>
{
    using input = lexy::string_input<>;
    static const char*               at(std::size_t i) { return text().data() + i; }
    static sim::offsets<const char*> off() { return {text().data(), text().size()}; }
};
// An iterator that is only forward.
struct fwd
{
    using value_type        = char;
    using reference         = const char&;
    using pointer           = const char*;
    using difference_type   = std::ptrdiff_t;
    using iterator_category = std::forward_iterator_tag;
    std::size_t i           = std::size_t(-1);
    fwd() = default;
    explicit fwd(std::size_t i) : i(i) {}
    const char& operator*() const { return text()[i]; }
    fwd&        operator++()
    {
        ++i;
        return *this;
    }
    fwd operator++(int)
    {
        auto copy = *this;
        ++i;
        return copy;
    }
    friend bool operator==(fwd a, fwd b) { return a.i == b.i; }
    friend bool operator!=(fwd a, fwd b) { return a.i != b.i; }
};
struct fwd_offsets
{
    std::size_t operator()(fwd f, const char* what) const
    {
        if (f.i > text().size())
            sim::violate("position-outside", "%s: position %zu outside of the input", what, f.i);
        return f.i;
    }
};
template <>
struct Text<fwd>
{
    using input = lexy::range_input<lexy::default_encoding, fwd>;
    static fwd         at(std::size_t i) { return fwd(i); }
    static fwd_offsets off() { return {}; }
};

template <typename It>
struct History
{
    using input  = typename Text<It>::input;
    using tree   = lexy::parse_tree_for<input, kind, sim::resource>;
    using marker = typename tree::builder::marker;

    struct Slot
    {
        alignas(tree) unsigned char mem[sizeof(tree)];
        bool                        live = false;
        bool                        full = false;
        mnode                       want;
        std::size_t                 rest_begin = 0, rest_end = 0;
        tree&                       get() { return *reinterpret_cast<tree*>(mem); }
    };
    sim::resource        r0{0}, r1{1};
    std::array<Slot, 3>  s;
    bool                 was_wide = false;

    void arm(std::uint64_t in)
    {
        for (auto r : {&r0, &r1})
            r->count = 0, r->fail_at = in;
    }

    void verify(std::size_t i, const char* when)
    {
        auto& sl = s[i];
        if (!sl.live)
            return;
        if (!sl.full)
        {
            sim::check_empty(sl.get(), when);
            return;
        }
        if (sl.get().empty())
            sim::violate("lost-tree", "%s: a finished tree is empty", when);
        auto t = sim::read_tree(sl.get(), Text<It>::off());
        auto a = t.root.str(), b = sl.want.str();
        if (a != b)
            sim::violate("wrong-tree", "%s: the tree is %s instead of %s", when, sim::printable(a, 300).c_str(),
                         sim::printable(b, 300).c_str());
        if (t.rest_begin != sl.rest_begin || t.rest_end != sl.rest_end)
            sim::violate("wrong-rest", "%s: remaining input [%zu, %zu) instead of [%zu, %zu)", when, t.rest_begin, t.rest_end,
                         sl.rest_begin, sl.rest_end);
        sim::check_lossless(t, text().size(), false);
        // Covering lexemes: from the first to the last token below.
        covering(sl.get(), sl.get().root(), t.root, 0);
        sim::probe("verified-tree");
    }
    void covering(const tree& t, typename tree::node n, const mnode& m, int level)
    {
        if (level > 4)
            return;
        std::vector<const mnode*> toks;
        m.tokens(toks);
        if (!m.token && !toks.empty())
        {
            auto c = n.covering_lexeme();
            auto b = Text<It>::off()(c.begin(), "covering lexeme"), e = Text<It>::off()(c.end(), "covering lexeme");
            if (b != toks.front()->begin || e != toks.back()->end)
                sim::violate("covering-lexeme", "covers [%zu, %zu) instead of [%zu, %zu)", b, e, toks.front()->begin, toks.back()->end);
        }
        std::size_t i = 0;
        for (auto c : n.children())
        {
            if (i < 3)
                covering(t, c, m.children[i], level + 1);
            ++i;
        }
    }

    struct Frame
    {
        enum
        {
            prod,
            transparent,
            container
        } type;
        marker             m;
        std::string        name;
        bool               token_production = false;
        std::vector<mnode> children;
        std::size_t        start;   // input position at which it started
        std::size_t        tr_from; // transparent: nothing to undo
    };

    struct Gen
    {
        typename tree::builder& b;
        std::vector<Frame>      st;
        std::size_t             pos = 0;
        bool                    large = false; // tokens of any length
        std::size_t             limit = 3000;  // characters used

        // The frame that receives nodes: transparent ones hand them on.
        Frame& target()
        {
            for (auto i = st.size(); i-- > 0;)
                if (st[i].type != Frame::transparent)
                    return st[i];
            sim::violate("harness", "no target");
        }
        void token()
        {
            auto k   = choose(6, "token kind");
            auto len = choose(4, "token length");
            if (large)
            {
                static const unsigned long_tokens[] = {0, 1, 255, 256, 4095, 65534, 65535, 65536, 65537, 131073};
                if (choose(4, "long token") == 3)
                    len = long_tokens[choose(10, "length class")];
            }
            if (pos + len + 8 > limit)
                len = 0;
            auto begin = Text<It>::at(pos), end = Text<It>::at(pos + len);
            lexy::token_kind<kind> tk = k == 0   ? lexy::token_kind<kind>(kind::a)
                                        : k == 1 ? lexy::token_kind<kind>(lexy::error_token_kind)
                                        : k == 2 ? lexy::token_kind<kind>(kind::b)
                                        : k == 3 ? lexy::token_kind<kind>(lexy::whitespace_token_kind)
                                        : k == 4 ? lexy::token_kind<kind>(lexy::literal_token_kind)
                                                 : lexy::token_kind<kind>(kind::c);
            sim::ev(" token");
            b.token(tk, begin, end);
            auto& cs = target().children;
            if (len == 0 && (k == 1 || k == 3))
                return; // ignored if empty
            if (k == 1 && !cs.empty() && cs.back().token && cs.back().kind == "error token")
                cs.back().end = pos + len;
            else
            {
                mnode m;
                m.token = true;
                m.kind  = tk.name();
                m.begin = pos;
                m.end   = pos + len;
                cs.push_back(m);
            }
            pos += len;
        }
        void position_token()
        {
            b.token(lexy::position_token_kind, Text<It>::at(pos), Text<It>::at(pos));
            mnode m;
            m.token = true;
            m.kind  = lexy::token_kind_name(lexy::position_token_kind);
            m.begin = m.end = pos;
            target().children.push_back(m);
        }
        void push(int which)
        {
            sim::ev(" start %s", which == 0 ? "production" : which == 1 ? "container" : "transparent");
            Frame f;
            f.start = pos;
            f.tr_from = 0;
            if (which == 0)
            {
                if (choose(2, "token production"))
                    f.m = b.start_production(prod_q{}), f.name = "q", f.token_production = true;
                else
                    f.m = b.start_production(prod_p{}), f.name = "p";
                f.type = Frame::prod;
            }
            else if (which == 1)
            {
                f.m    = b.start_container();
                f.type = Frame::container;
            }
            else
            {
                f.m    = b.start_production(prod_t{});
                f.type = Frame::transparent;
            }
            st.push_back(std::move(f));
            if (which != 2 && b.current_child_count() != 0)
                sim::violate("child-count", "a fresh node has %zu children", b.current_child_count());
        }
        void set_production()
        {
            if (st.back().type != Frame::container || st.back().children.empty())
                return;
            if (choose(5, "transparent operation") == 4)
            {
                b.set_container_production(prod_t{});
                return;
            }
            sim::ev(" set container production");
            b.set_container_production(prod_p{});
            mnode m;
            m.kind     = "p";
            m.children = std::move(st.back().children);
            st.back().children.clear();
            st.back().children.push_back(std::move(m));
            sim::probe("set-container-production");
        }
        void pop(bool cancel)
        {
            if (st.size() <= 1)
                return;
            if (!cancel && st.back().type == Frame::prod && st.back().children.empty())
                position_token();
            sim::ev(" %s", cancel ? "cancel" : "finish");
            auto f = std::move(st.back());
            if (f.type != Frame::transparent && b.current_child_count() != f.children.size())
                sim::violate("child-count", "current_child_count() is %zu instead of %zu", b.current_child_count(), f.children.size());
            st.pop_back();
            if (cancel)
            {
                if (f.type == Frame::container)
                    b.cancel_container(std::move(f.m));
                else
                    b.cancel_production(std::move(f.m));
                sim::probe(f.type == Frame::container ? "cancel-container" : f.type == Frame::prod ? "cancel-production" : "cancel-transparent");
                if (f.type == Frame::transparent)
                    return;
                if (choose(2, "backtrack"))
                    pos = f.start;
                else if (f.start != pos)
                {
                    // The input it covered becomes an error token.
                    b.token(lexy::error_token_kind, Text<It>::at(f.start), Text<It>::at(pos));
                    auto& cs = target().children;
                    if (!cs.empty() && cs.back().token && cs.back().kind == "error token")
                        cs.back().end = pos;
                    else
                    {
                        mnode m;
                        m.token = true;
                        m.kind  = "error token";
                        m.begin = f.start;
                        m.end   = pos;
                        cs.push_back(m);
                    }
                }
            }
            else if (f.type == Frame::container)
            {
                b.finish_container(std::move(f.m));
                auto& cs = target().children;
                for (auto& c : f.children)
                    cs.push_back(std::move(c));
            }
            else
            {
                b.finish_production(std::move(f.m));
                if (f.type == Frame::prod)
                {
                    mnode m;
                    m.kind             = f.name;
                    m.token_production = f.token_production;
                    m.children         = std::move(f.children);
                    target().children.push_back(std::move(m));
                }
            }
        }
    };

    void build(std::size_t i)
    {
        auto& sl   = s[i];
        bool  fail = sim::chance(15, "fail an allocation");
        arm(fail ? 1 + choose(5, "which allocation") : 0);
        bool finished = false, threw = false;
        auto failed_before = r0.failed + r1.failed;
        sl.full            = false;
        try
        {
            typename tree::builder b(std::move(sl.get()), prod_root{});
            Gen                    g{b, {}, 0};
            Frame                  root;
            root.type    = Frame::prod;
            root.name    = "root";
            root.start   = 0;
            root.tr_from = 0;
            g.st.push_back(root);
            g.large  = choose(50, "large tokens") == 49;
            auto wide = !was_wide && choose(1200, "wide") == 1199;
            if (g.large || wide)
            {
                g.limit = text().size();
                sim::probe(wide ? "wide-tree" : "long-tokens");
            }
            auto ops = 1 + sim::small(wide ? 8 : 60, "builder operations");
            was_wide |= wide;
            if (wide)
            {
                // More children than fit into 16 bits.
                if (choose(2, "wide below root"))
                    g.push(int(choose(3, "wide node")));
                auto n = 65530 + choose(20, "children");
                for (std::size_t k = 0; k < n; ++k)
                {
                    b.token(kind::a, Text<It>::at(g.pos), Text<It>::at(g.pos + 1));
                    mnode m;
                    m.token = true;
                    m.kind  = "a";
                    m.begin = g.pos;
                    m.end   = ++g.pos;
                    g.target().children.push_back(m);
                }
            }
            for (std::size_t k = 0; k < ops; ++k)
            {
                switch (choose(10, "builder op"))
                {
                case 0: g.token(); break;
                case 1: {
                    auto n = choose(3, "burst kind") == 0 ? sim::small(12, "burst") : choose(180, "burst");
                    for (; n > 0; --n)
                        g.token();
                    break;
                }
                case 2: g.push(0); break;
                case 3: g.push(1); break;
                case 4: g.push(2); break;
                case 5:
                case 6: g.pop(false); break;
                case 7: g.pop(true); break;
                case 8: g.set_production(); break;
                default: { // many small productions or containers
                    auto n = sim::small(90, "repeat");
                    auto w = int(choose(3, "what"));
                    for (; n > 0; --n)
                    {
                        g.push(w);
                        if (choose(3, "with token"))
                            g.token();
                        if (w == 1 && choose(2, "as operation"))
                        {
                            g.set_production();
                            g.token();
                        }
                        g.pop(choose(4, "cancel") == 3);
                    }
                    break;
                }
                }
                if (g.pos + 700 > g.limit)
                    break;
            }
            if (choose(10, "abandon") == 9)
            {
                sim::probe("abandoned");
            }
            else
            {
                while (g.st.size() > 1)
                    g.pop(choose(5, "cancel at end") == 4);
                auto rest = choose(3, "rest");
                auto end  = rest == 0 ? g.pos : rest == 1 ? text().size() : g.pos + 1;
                if (rest == 0)
                    sl.get() = std::move(b).finish(Text<It>::at(g.pos));
                else
                    sl.get() = std::move(b).finish({Text<It>::at(g.pos), Text<It>::at(end)});
                finished      = true;
                sl.full       = true;
                sl.want       = mnode();
                sl.want.kind  = "root";
                sl.want.children = std::move(g.st[0].children);
                sl.rest_begin = g.pos;
                sl.rest_end   = end;
            }
        }
        catch (std::bad_alloc&)
        {
            threw = true;
            if (r0.failed + r1.failed == failed_before)
                sim::violate("spurious-exception", "a builder threw without an allocation failure");
            sim::probe("threw");
        }
        arm(0);
        if (!threw && r0.failed + r1.failed != failed_before)
            sim::violate("failure-swallowed", "an allocation failed but the builder did not report it");
        if (finished)
        {
            sim::probe(sl.want.count() > 170 ? "multi-block" : "one-block");
            sim::state(sim::hash(std::to_string(sl.want.count() / 4) + "/" + std::to_string(sl.want.depth())));
            sim::ev("built %zu nodes", sl.want.count());
        }
        verify(i, finished ? "built" : "moved into an abandoned builder");
    }

    void run()
    {
        sim::heap_reset();
        auto n = 1 + sim::small(12, "operations");
        for (std::size_t k = 0; k < n; ++k)
        {
            auto i = std::size_t(choose(3, "slot"));
            auto op = choose(7, "op");
            sim::ev("op %llu on %zu", (unsigned long long)op, i);
            auto& sl = s[i];
            if (!sl.live && op != 4)
            {
                ::new (static_cast<void*>(sl.mem)) tree(choose(2, "resource") ? &r1 : &r0);
                sl.live = true;
                sl.full = false;
            }
            switch (op)
            {
            case 0:
            case 1:
            case 2: build(i); break;
            case 3: // clear; must not need memory
                arm(1);
                sl.get().clear();
                arm(0);
                sl.full = false;
                sim::probe("clear");
                break;
            case 4: { // move construct from another slot
                auto j = std::size_t(choose(3, "from"));
                if (i != j && s[j].live)
                {
                    if (sl.live)
                        sl.get().~tree();
                    ::new (static_cast<void*>(sl.mem)) tree(std::move(s[j].get()));
                    sl.live       = true;
                    sl.full       = s[j].full;
                    sl.want       = s[j].want;
                    sl.rest_begin = s[j].rest_begin;
                    sl.rest_end   = s[j].rest_end;
                    s[j].full     = false;
                    sim::probe("move-construct");
                }
                break;
            }
            case 5: { // move assign
                auto j = std::size_t(choose(3, "from"));
                if (i != j && s[j].live)
                {
                    sl.get()      = std::move(s[j].get());
                    sl.full       = s[j].full;
                    sl.want       = s[j].want;
                    sl.rest_begin = s[j].rest_begin;
                    sl.rest_end   = s[j].rest_end;
                    s[j].full     = false;
                    sim::probe("move-assign");
                }
                break;
            }
            default:
                sl.get().~tree();
                sl.live = false;
                break;
            }
            if (was_wide && k + 4 < n)
                k = n - 4; // a few more operations only, they take long
            for (std::size_t q = 0; q < 3; ++q)
                verify(q, q == i ? "operated on" : "left alone");
        }
        for (auto& sl : s)
            if (sl.live)
                sl.get().~tree();
        r0.expect_empty("after all trees are gone");
        r1.expect_empty("after all trees are gone");
    }
};
} // namespace

void sim::run_once()
{
    if (choose(2, "iterator") == 0)
    {
        auto h = std::make_unique<History<const char*>>();
        h->run();
    }
    else
    {
        auto h = std::make_unique<History<fwd>>();
        h->run();
    }
}
