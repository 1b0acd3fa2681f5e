// What each action reports about one input.
#pragma once
#include "gram_inputs.hpp"
#include "treecheck.hpp"

namespace gram
{
struct record
{
    std::string match, validate, parse, tree, trace;
};
// bits of `what`: 1 match, 2 validate, 4 parse, 8 parse_as_tree, 16 trace
// `Avail`: the actions that are compiled for this kind of input.
template <typename P, unsigned Avail = 31, typename Input, typename It>
void run_actions(const Input& input, It begin, std::size_t size, unsigned& what, record& r)
{
    what &= Avail;
    at_input<It> here(begin, size);
    err_t        err{&input};
    auto         act = [&](auto f) {
        State state; // every action gets its own
        if constexpr (wants_state<P>::value)
            return f(state);
        else
            return f();
    };
    if constexpr (Avail & 1)
        if (what & 1)
    {
        bool m  = act([&](auto&... st) { return lexy::match<P>(input, st...); });
        r.match = m ? "matched" : "not matched";
    }
    if constexpr (Avail & 2)
        if (what & 2)
    {
        auto v     = act([&](auto&... st) { return lexy::validate<P>(input, st..., err); });
        r.validate = status_of(v) + "\n" + join(v.errors());
    }
    if constexpr (Avail & 4)
        if (what & 4)
    {
        auto v  = act([&](auto&... st) { return lexy::parse<P>(input, st..., err); });
        r.parse = status_of(v) + "\n" + join(v.errors());
        if constexpr (!std::is_void_v<typename decltype(v)::value_type>)
        {
            if (v.is_success() && !v.has_value())
                sim::violate("no-value", "a successful parse has no value");
            if (v.is_fatal_error() && v.has_value())
                sim::violate("fatal-value", "a failed parse has a value");
            r.parse += "  = ";
            if (v.has_value())
                desc(r.parse, std::move(v).value());
            else
                r.parse += "no value";
        }
    }
    if constexpr (Avail & 8)
        if (what & 8)
    {
        lexy::parse_tree_for<Input> tree;
        auto v = act([&](auto&... st) { return lexy::parse_as_tree<P>(tree, input, st..., err); });
        r.tree = status_of(v) + "\n" + join(v.errors());
        if (v.is_fatal_error())
        {
            sim::check_empty(tree, "not built");
            r.tree += "  empty";
        }
        else
        {
            sim::offsets<It> off{begin, size};
            auto             t = sim::read_tree(tree, off, true);
            sim::check_lossless(t, size, true);
            r.tree += "  " + t.root.str() + "rest " + std::to_string(t.rest_begin) + "-" + std::to_string(t.rest_end);
        }
    }
    if constexpr (Avail & 16)
        if (what & 16)
    {
        r.trace.clear();
        act([&](auto&... st) { return lexy::trace_to<P>(std::back_inserter(r.trace), input, st...); });
    }
}

} // namespace gram
