// C06: trees built by parsing, over histories of trees of one type.
#pragma once
#include "gram_inputs.hpp"
#include "ledger.hpp"
#include "treecheck.hpp"

namespace gram
{
//=== the reference: what a parse tells its handler, and the tree that follows from it ===//
struct pevent
{
    enum kind_t
    {
        start,
        finish,
        cancel,
        chain,
        op,
        chain_end,
        token,
    } kind;
    std::string name;
    bool        transparent = false, token_production = false, ignore_if_empty = false, error = false;
    std::size_t begin = 0, end = 0;
};

template <typename Reader>
struct rec_handler
{
    using iterator = typename Reader::iterator;
    std::vector<pevent>*     log;
    sim::offsets<iterator>*  off;
    std::size_t*             final_pos;

    class event_handler
    {
        lexy::production_info _info;

    public:
        event_handler(lexy::production_info info) : _info(info) {}

        pevent& add(rec_handler& h, pevent::kind_t k, iterator pos)
        {
            pevent e{};
            e.kind  = k;
            e.begin = e.end = (*h.off)(pos, "event");
            e.name             = _info.name;
            e.transparent      = _info.is_transparent;
            e.token_production = _info.is_token;
            h.log->push_back(e);
            return h.log->back();
        }
        void on(rec_handler&, lexy::parse_events::grammar_start, iterator) {}
        void on(rec_handler& h, lexy::parse_events::grammar_finish, Reader& reader) { *h.final_pos = (*h.off)(reader.position(), "end"); }
        void on(rec_handler&, lexy::parse_events::grammar_cancel, Reader&) {}
        void on(rec_handler& h, lexy::parse_events::production_start, iterator pos) { add(h, pevent::start, pos); }
        void on(rec_handler& h, lexy::parse_events::production_finish, iterator pos) { add(h, pevent::finish, pos); }
        void on(rec_handler& h, lexy::parse_events::production_cancel, iterator pos) { add(h, pevent::cancel, pos); }
        int  on(rec_handler& h, lexy::parse_events::operation_chain_start, iterator pos)
        {
            add(h, pevent::chain, pos);
            return 0;
        }
        template <typename Operation>
        void on(rec_handler& h, lexy::parse_events::operation_chain_op, Operation op, iterator pos)
        {
            lexy::production_info info(op);
            auto&                 e = add(h, pevent::op, pos);
            e.name             = info.name;
            e.transparent      = info.is_transparent;
            e.token_production = info.is_token;
        }
        void on(rec_handler& h, lexy::parse_events::operation_chain_finish, int, iterator pos) { add(h, pevent::chain_end, pos); }
        template <typename TK>
        void on(rec_handler& h, lexy::parse_events::token, TK kind_, iterator begin, iterator end)
        {
            lexy::token_kind<void> kind(kind_);
            auto&            e = add(h, pevent::token, begin);
            e.end             = (*h.off)(end, "token end");
            e.name            = kind.name();
            e.ignore_if_empty = kind.ignore_if_empty();
            e.error           = kind == lexy::error_token_kind;
        }
        template <typename Event, typename... Args>
        void on(rec_handler&, Event, const Args&...)
        {}
    };
    template <typename Production, typename State>
    using value_callback = lexy::_detail::void_value_callback;
    template <typename Result>
    auto get_result(bool ok) &&
    {
        return Result{ok};
    }
};
template <typename>
struct rec_result
{
    bool ok;
};

// Builds the documented tree from the events.
inline sim::mnode model_tree(const std::vector<pevent>& log)
{
    struct frame
    {
        sim::mnode  node; // for containers: only the children matter
        bool        container, transparent;
        std::size_t begin;
        std::size_t parent_children; // transparent: how many children the parent had
    };
    std::vector<frame> st;
    sim::mnode         root;
    auto               top = [&]() -> std::vector<sim::mnode>& {
        // A transparent production adds to the node around it.
        auto i = st.size();
        while (st[--i].transparent)
            ;
        return st[i].node.children;
    };
    auto put_token = [&](const std::string& name, bool error, std::size_t b, std::size_t e) {
        auto& c = top();
        if (error && !c.empty() && c.back().token && c.back().kind == name)
        {
            c.back().end = e;
            return;
        }
        sim::mnode t;
        t.token = true;
        t.kind  = name;
        t.begin = b;
        t.end   = e;
        c.push_back(t);
    };
    static const std::string error_name = lexy::token_kind<void>(lexy::error_token_kind).name(), position_name = lexy::token_kind<void>(lexy::position_token_kind).name();
    for (auto& e : log)
        switch (e.kind)
        {
        case pevent::start: {
            frame f{};
            f.transparent           = e.transparent && !st.empty(); // the root is always a node
            f.begin                 = e.begin;
            f.node.kind             = e.name;
            f.node.token_production = e.token_production;
            st.push_back(f);
            break;
        }
        case pevent::finish: {
            if (top().empty())
                put_token(position_name, false, st.back().begin, st.back().begin);
            auto f = std::move(st.back());
            st.pop_back();
            if (st.empty())
                root = std::move(f.node);
            else if (!f.transparent)
                top().push_back(std::move(f.node));
            break;
        }
        case pevent::cancel: {
            while (st.back().container)
                st.pop_back();
            auto f = std::move(st.back());
            st.pop_back();
            if (!st.empty() && !f.transparent && e.end != f.begin)
                put_token(error_name, true, f.begin, e.end);
            break;
        }
        case pevent::chain: {
            frame f{};
            f.container = true;
            st.push_back(f);
            break;
        }
        case pevent::op:
            if (!e.transparent)
            {
                sim::mnode n;
                n.kind             = e.name;
                n.token_production = e.token_production;
                n.children         = std::move(st.back().node.children);
                st.back().node.children.clear();
                st.back().node.children.push_back(std::move(n));
            }
            break;
        case pevent::chain_end: {
            auto f = std::move(st.back());
            st.pop_back();
            for (auto& c : f.node.children)
                top().push_back(std::move(c));
            break;
        }
        case pevent::token:
            if (!(e.ignore_if_empty && e.begin == e.end))
                put_token(e.name, e.error, e.begin, e.end);
            break;
        }
    return root;
}

struct c06p_ops
{
    void (*history)(const grammar& g);
};

template <typename P, typename E>
void run_history(const grammar& g)
{
    using C     = typename E::char_type;
    using Input = lexy::string_input<E>;
    using R     = lexy::input_reader<Input>;
    using Tree  = lexy::parse_tree<R, void, sim::resource>;
    sim::resource r0(0), r1(1);
    sim::resource* res[] = {&r0, &r1};

    struct source
    {
        units<E>    u;
        Input       input;
        bool        fatal = false;
        std::string expect; // the tree, as text
    };
    std::vector<std::unique_ptr<source>> sources;
    auto n = 1 + sim::choose(3, "texts");
    for (std::size_t i = 0; i < n; ++i)
    {
        auto s    = std::make_unique<source>();
        auto text = make_text(g, 300, 4);
        s->u      = to_units<E>(text);
        s->input  = Input(s->u.data(), s->u.size());
        sim::ev("text %zu: %s", i, sim::printable(text).c_str());
        std::vector<pevent>     log;
        std::size_t             final_pos = 0;
        sim::offsets<const C*>  off{s->u.data(), s->u.size()};
        at_input<const C*>      here(s->u.data(), s->u.size());
        State                   state;
        auto                    reader = s->input.reader();
        bool                    ok;
        if constexpr (wants_state<P>::value)
            ok = lexy::do_action<P, rec_result>(rec_handler<R>{&log, &off, &final_pos}, &state, reader).ok;
        else
            ok = lexy::do_action<P, rec_result>(rec_handler<R>{&log, &off, &final_pos}, lexy::no_parse_state, reader).ok;
        s->fatal = !ok;
        if (ok)
            s->expect = model_tree(log).str() + "rest " + std::to_string(final_pos);
        sources.push_back(std::move(s));
    }

    std::optional<Tree> trees[3];
    int                 content[3]; // -1: empty, otherwise the source
    for (int i = 0; i < 3; ++i)
    {
        trees[i].emplace(res[sim::choose(2, "resource")]);
        content[i] = -1;
    }
    auto check = [&](int i, int alternative = -2) {
        auto& t = *trees[i];
        if (t.empty())
        {
            sim::check_empty(t, "emptied");
            if (alternative == -1)
                content[i] = -1;
            if (content[i] != -1)
                sim::violate("tree-lost", "grammar %s: a tree has lost its nodes", g.name);
            return;
        }
        if (content[i] == -1)
            sim::violate("not-empty", "grammar %s: a tree that has to be empty has nodes", g.name);
        auto&                  s = *sources[std::size_t(content[i])];
        sim::offsets<const C*> off{s.u.data(), s.u.size()};
        auto                   sum = sim::read_tree(t, off, true);
        sim::check_lossless(sum, s.u.size(), true);
        auto got = sum.root.str() + "rest " + std::to_string(sum.rest_begin);
        if (got != s.expect)
        {
            std::size_t k = 0;
            while (k < got.size() && k < s.expect.size() && got[k] == s.expect[k])
                ++k;
            auto from = k > 60 ? k - 60 : 0;
            sim::violate("tree-content", "grammar %s: the tree has ...%s instead of ...%s", g.name, sim::printable(got.substr(from, 160)).c_str(),
                         sim::printable(s.expect.substr(from, 160)).c_str());
        }
    };
    auto steps = 1 + sim::choose(8, "operations");
    std::uint64_t h = sim::hash(g.name);
    for (std::size_t k = 0; k < steps; ++k)
    {
        auto i = int(sim::choose(3, "tree")), j = int(sim::choose(3, "other tree"));
        switch (sim::choose(7, "operation"))
        {
        case 0:
        case 1:
        case 2:
        case 3: {
            auto  w     = sim::choose(sources.size(), "which text");
            auto& s     = *sources[w];
            auto  old   = content[i];
            bool  fails = sim::chance(30, "allocation fails");
            // The tree may have swapped its resource with another one's: both fail.
            if (fails)
            {
                auto at = 1 + sim::choose(6, "failing allocation");
                for (auto r : res)
                    r->fail_at = r->count + at, r->failed = 0;
            }
            bool threw = false;
            {
                at_input<const C*> here(s.u.data(), s.u.size());
                State              state;
                err_t              err{&s.input};
                try
                {
                    bool fatal;
                    if constexpr (wants_state<P>::value)
                        fatal = lexy::parse_as_tree<P>(*trees[i], s.input, state, err).is_fatal_error();
                    else
                        fatal = lexy::parse_as_tree<P>(*trees[i], s.input, err).is_fatal_error();
                    if (fatal != s.fatal)
                        sim::violate("verdict", "grammar %s: parse_as_tree() fails although the parse does not, or the other way round", g.name);
                    content[i] = fatal ? -1 : int(w);
                }
                catch (std::bad_alloc&)
                {
                    threw      = true;
                    content[i] = old;
                }
            }
            if (threw && !(r0.failed || r1.failed))
                sim::violate("unexpected-exception", "grammar %s: bad_alloc without a failed allocation", g.name);
            for (auto r : res)
                r->fail_at = r->failed = 0;
            sim::ev("tree %d = text %zu%s", i, std::size_t(w), threw ? " (allocation failed)" : "");
            if (threw)
                check(i, -1);
            break;
        }
        case 4:
            if (i == j)
                break;
            sim::ev("tree %d = move(tree %d)", j, i);
            *trees[j]  = std::move(*trees[i]);
            content[j] = content[i];
            content[i] = -1;
            break;
        case 5:
            sim::ev("clear tree %d", i);
            trees[i]->clear();
            content[i] = -1;
            break;
        case 6:
            sim::ev("tree %d is made anew%s", i, i == j ? "" : " by moving");
            if (i == j)
            {
                trees[i].emplace(res[sim::choose(2, "resource")]);
                content[i] = -1;
            }
            else
            {
                Tree t(std::move(*trees[j]));
                trees[i].emplace(std::move(t));
                content[i] = content[j];
                content[j] = -1;
            }
            break;
        }
        for (int t = 0; t < 3; ++t)
        {
            check(t);
            h = h * 131 + (content[t] < 0 ? 0 : sim::hash(sources[std::size_t(content[t])]->expect));
        }
    }
    sim::state(h);
    for (auto& t : trees)
        t.reset();
    r0.expect_empty("at the end");
    r1.expect_empty("at the end");
}

template <typename P, typename E>
void* make_ops()
{
    static c06p_ops o{&run_history<P, E>};
    return &o;
}
} // namespace gram
