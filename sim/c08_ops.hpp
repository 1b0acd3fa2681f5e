// C08: parses that run next to and inside of each other.
#pragma once
#include "gram_inputs.hpp"
#include "treecheck.hpp"
#include <lexy/visualize.hpp>
#include <lexy_ext/report_error.hpp>

namespace gram
{
enum action
{
    act_parse,
    act_tree,
    act_trace,
    act_report,
    act_validate,
    act_kinds,
};
inline const char* const action_names[] = {"parse", "parse_as_tree", "trace", "report_error", "validate"};

struct c08_input // never changes, may be shared
{
    virtual ~c08_input()                      = default;
    virtual std::string run(action a) const = 0;
    virtual const char* name() const        = 0;
};
struct c08_ops
{
    c08_input* (*open)(unsigned kind, const std::string& text);
};

struct c08_out // the sink of an output may do anything as well
{
    std::string* s;
    c08_out&     operator*() { return *this; }
    c08_out&     operator++(int) { return *this; }
    c08_out&     operator=(char c)
    {
        point("output");
        s->push_back(c);
        return *this;
    }
};

template <typename P, typename Input, typename It>
std::string c08_run(action a, const Input& input, It begin, std::size_t size)
{
    at_input<It> here(begin, size);
    err_t        err{&input};
    State        state;
    std::string  r;
    auto         act = [&](auto f) {
        if constexpr (wants_state<P>::value)
            return f(state);
        else
            return f();
    };
    if (a == act_validate)
    {
        auto v = act([&](auto&... st) { return lexy::validate<P>(input, st..., err); });
        r      = status_of(v) + "\n" + join(v.errors());
    }
    else if (a == act_parse)
    {
        auto v = act([&](auto&... st) { return lexy::parse<P>(input, st..., err); });
        r      = status_of(v) + "\n" + join(v.errors());
        if constexpr (!std::is_void_v<typename decltype(v)::value_type>)
        {
            r += "  = ";
            if (v.has_value())
                desc(r, std::move(v).value());
            else
                r += "no value";
        }
    }
    else if (a == act_tree)
    {
        lexy::parse_tree_for<Input> tree;
        auto v = act([&](auto&... st) { return lexy::parse_as_tree<P>(tree, input, st..., err); });
        r      = status_of(v) + "\n" + join(v.errors());
        if (!v.is_fatal_error())
        {
            sim::offsets<It> off{begin, size};
            auto             t = sim::read_tree(tree, off, true);
            r += "  " + t.root.str() + "rest " + std::to_string(t.rest_begin) + "-" + std::to_string(t.rest_end) + "\n";
            lexy::visualize_to(c08_out{&r}, tree, {lexy::visualize_use_unicode | lexy::visualize_space});
        }
    }
    else if (a == act_trace)
        act([&](auto&... st) { return lexy::trace_to<P>(c08_out{&r}, input, st...); });
    else
        act([&](auto&... st) {
            return lexy::validate<P>(input, st..., lexy_ext::report_error.to(c08_out{&r}).path("file"));
        });
    if (state.uses)
        r += " uses " + std::to_string(state.uses);
    return r;
}

template <typename P, typename E>
struct c08_string : c08_input
{
    using C = typename E::char_type;
    units<E>              u;
    lexy::string_input<E> input;

    explicit c08_string(const std::string& text) : u(to_units<E>(text)), input(u.data(), u.size()) {}
    std::string run(action a) const override { return c08_run<P>(a, input, static_cast<const C*>(u.data()), u.size()); }
    const char* name() const override { return "string"; }
};
template <typename P, typename E>
struct c08_buffer : c08_input
{
    lexy::buffer<E> input;

    explicit c08_buffer(const units<E>& u) : input(u.data(), u.size()) {}
    std::string run(action a) const override { return c08_run<P>(a, input, input.data(), input.size()); }
    const char* name() const override { return "buffer"; }
};

template <typename P, typename E>
void* make_ops()
{
    static c08_ops o{[](unsigned kind, const std::string& text) -> c08_input* {
        if (kind == 0)
            return new c08_string<P, E>(text);
        else
            return new c08_buffer<P, E>(to_units<E>(text));
    }};
    return &o;
}
} // namespace gram
