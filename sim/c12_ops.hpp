// C12: documents made of independent lines.
#pragma once
#include "run_actions.hpp"

namespace gram
{
// What a parse reports, one entry per item of the document.
struct doc_record
{
    std::string              status;
    std::vector<std::string> errors;
    std::string              value;
    std::vector<std::string> tree; // children of the root
};

struct c12_ops
{
    // Parses `seg[first..last)` of the document; positions are offsets into the document.
    void (*run)(const std::vector<std::string>& seg, std::size_t first, std::size_t last, unsigned action, doc_record& out);
};

// Errors of the document itself are relative to where it begins.
inline std::string no_begin(const std::string& e)
{
    if (e.rfind("doc@", 0) != 0)
        return e;
    auto p = e.find(' ');
    return "doc" + e.substr(p);
}
inline std::string inner(const std::string& v)
{
    // doc(doc[...],)
    auto b = v.find('['), e = v.rfind(']');
    if (b == std::string::npos || e == std::string::npos)
        return v;
    return v.substr(b + 1, e - b - 1);
}

template <typename P, typename E>
void* make_ops()
{
    static c12_ops o{[](const std::vector<std::string>& seg, std::size_t first, std::size_t last, unsigned action, doc_record& r) {
        using C = typename E::char_type;
        units<E>    all;
        std::size_t from = 0, to = 0;
        for (std::size_t i = 0; i < seg.size(); ++i)
        {
            if (i == first)
                from = all.size();
            all += to_units<E>(seg[i]);
            all.push_back(C('\n'));
            if (i + 1 == last)
                to = all.size();
        }
        std::unique_ptr<C[]> data(new C[all.size() ? all.size() : 1]);
        std::copy(all.begin(), all.end(), data.get());
        lexy::string_input<E> input(data.get() + from, to - from);
        at_input<const C*>    here(data.get(), all.size());
        err_t                 err{&input};

        if (action == 0)
        {
            auto v   = lexy::validate<P>(input, err);
            r.status = status_of(v);
            r.errors = v.errors();
        }
        else if (action == 1)
        {
            auto v   = lexy::parse<P>(input, err);
            r.status = status_of(v);
            r.errors = v.errors();
            if (v.has_value())
                desc(r.value, std::move(v).value());
            r.value = inner(r.value);
        }
        else
        {
            lexy::parse_tree_for<decltype(input)> tree;
            auto                                  v = lexy::parse_as_tree<P>(tree, input, err);
            r.status = status_of(v);
            r.errors = v.errors();
            if (!v.is_fatal_error())
            {
                sim::offsets<const C*> off{data.get(), all.size()};
                auto                   t = sim::read_tree(tree, off, true);
                for (auto& c : t.root.children)
                    if (!(c.token && c.begin == c.end))
                        r.tree.push_back(c.str());
            }
        }
        for (auto& e : r.errors)
            e = no_begin(e);
    }};
    return &o;
}
} // namespace gram
