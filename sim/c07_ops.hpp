// C07: one parse, with user code or the allocator failing at one point of it.
#pragma once
#include "gram_inputs.hpp"
#include "treecheck.hpp"

namespace gram
{
enum action
{
    act_validate,
    act_parse,
    act_tree,
    act_trace,
    act_kinds,
};
inline const char* const action_names[] = {"validate", "parse", "parse_as_tree", "trace"};

struct c07_session // an input that outlives several parses of it
{
    virtual ~c07_session() = default;
    // Throws what the parse throws.
    virtual std::string run(action a) = 0;
    virtual const char* name()        = 0;
    // The objects a failed parse left behind can be looked at.
    virtual void look() = 0;
};
struct c07_ops
{
    c07_session* (*open)(unsigned kind, const std::string& text);
};

// An output iterator that puts into a string.
struct to_string
{
    using difference_type   = std::ptrdiff_t;
    using value_type        = void;
    using pointer           = void;
    using reference         = void;
    using iterator_category = std::output_iterator_tag;
    std::string* s;
    to_string&   operator=(char c)
    {
        s->push_back(c);
        return *this;
    }
    to_string& operator*() { return *this; }
    to_string& operator++() { return *this; }
    to_string& operator++(int) { return *this; }
};

template <typename P, typename Input, typename It>
struct c07_runner
{
    lexy::parse_tree_for<Input> tree; // reused by every parse

    void look(It begin, std::size_t size)
    {
        sim::offsets<It> off{begin, size};
        if (tree.empty())
            sim::check_empty(tree, "abandoned");
        else
            sim::read_tree(tree, off, true);
    }
    std::string run(action a, const Input& input, It begin, std::size_t size)
    {
        at_input<It> here(begin, size);
        err_t        err{&input};
        State        state;
        std::string  r;
        auto         act = [&](auto f) {
            if constexpr (wants_state<P>::value)
                return f(state);
            else
                return f();
        };
        if (a == act_validate)
        {
            auto v = act([&](auto&... st) { return lexy::validate<P>(input, st..., err); });
            r      = status_of(v) + "\n" + join(v.errors());
        }
        else if (a == act_parse)
        {
            auto v = act([&](auto&... st) { return lexy::parse<P>(input, st..., err); });
            r      = status_of(v) + "\n" + join(v.errors());
            if constexpr (!std::is_void_v<typename decltype(v)::value_type>)
            {
                r += "  = ";
                if (v.has_value())
                    desc(r, std::move(v).value());
                else
                    r += "no value";
            }
        }
        else if (a == act_tree)
        {
            auto v = act([&](auto&... st) { return lexy::parse_as_tree<P>(tree, input, st..., err); });
            r      = status_of(v) + "\n" + join(v.errors());
            sim::untracked u;
            if (v.is_fatal_error())
            {
                sim::check_empty(tree, "not built");
                r += "  empty";
            }
            else
            {
                sim::offsets<It> off{begin, size};
                auto             t = sim::read_tree(tree, off, true);
                sim::check_lossless(t, size, true);
                r += "  " + t.root.str() + "rest " + std::to_string(t.rest_begin) + "-" + std::to_string(t.rest_end);
            }
        }
        else
            act([&](auto&... st) { return lexy::trace_to<P>(to_string{&r}, input, st...); });
        if (state.uses)
            r += " uses " + std::to_string(state.uses);
        return r;
    }
};

template <typename P, typename E>
struct c07_string : c07_session
{
    using C = typename E::char_type;
    units<E>                                        u;
    lexy::string_input<E>                           input;
    c07_runner<P, lexy::string_input<E>, const C*> runner;

    explicit c07_string(const std::string& text) : u(to_units<E>(text)), input(u.data(), u.size()) {}
    std::string run(action a) override { return runner.run(a, input, static_cast<const C*>(u.data()), u.size()); }
    const char* name() override { return "string"; }
    void        look() override { runner.look(static_cast<const C*>(u.data()), u.size()); }
};
template <typename P, typename E>
struct c07_buffer : c07_session
{
    using C = typename E::char_type;
    lexy::buffer<E>                          input;
    c07_runner<P, lexy::buffer<E>, const C*> runner;

    explicit c07_buffer(const units<E>& u) : input(u.data(), u.size()) {}
    std::string run(action a) override { return runner.run(a, input, input.data(), input.size()); }
    const char* name() override { return "buffer"; }
    void        look() override { runner.look(input.data(), input.size()); }
};

template <typename P, typename E>
void* make_ops()
{
    static c07_ops o{[](unsigned kind, const std::string& text) -> c07_session* {
        if (kind == 0)
            return new c07_string<P, E>(text);
        else
            return new c07_buffer<P, E>(to_units<E>(text));
    }};
    return &o;
}
} // namespace gram
