// C10: inputs that check how they are used.
#pragma once
#include "run_actions.hpp"

namespace gram
{
// A range whose iterators check that they are used within it.
template <typename E>
class strict_iterator
{
public:
    using value_type        = typename E::char_type;
    using reference         = const value_type&;
    using pointer           = const value_type*;
    using difference_type   = std::ptrdiff_t;
    using iterator_category = std::forward_iterator_tag;

    strict_iterator() = default;
    strict_iterator(const value_type* data, chk_stats* st, std::size_t idx) : _data(data), _st(st), _idx(idx) {}

    reference operator*() const
    {
        if (!_st)
            sim::violate("singular-position", "an iterator that was never set is read");
        ++_st->ops;
        if (_idx >= _st->size)
            sim::violate("read-past-end", "the character at %zu of a range of %zu is read", _idx, _st->size);
        return _data[_idx];
    }
    strict_iterator& operator++()
    {
        if (!_st)
            sim::violate("singular-position", "an iterator that was never set is advanced");
        ++_st->ops;
        if (_idx >= _st->size)
            sim::violate("advance-past-end", "an iterator is advanced past the end of the range (%zu)", _st->size);
        ++_idx;
        return *this;
    }
    strict_iterator operator++(int)
    {
        auto copy = *this;
        ++*this;
        return copy;
    }
    friend bool operator==(const strict_iterator& a, const strict_iterator& b)
    {
        if (!a._st && !b._st)
            return true;
        if (!a._st || !b._st)
            sim::violate("singular-position", "an iterator that was never set is compared");
        if (a._st != b._st)
            sim::violate("foreign-position", "iterators of different ranges are compared");
        return a._idx == b._idx;
    }
    friend bool operator!=(const strict_iterator& a, const strict_iterator& b) { return !(a == b); }

    const value_type* _data = nullptr;
    chk_stats*        _st   = nullptr;
    std::size_t       _idx  = 0;
};
template <typename E>
struct strict_end
{
    friend bool operator==(const strict_iterator<E>& a, strict_end)
    {
        if (!a._st)
            sim::violate("singular-position", "an iterator that was never set is compared with the end");
        return a._idx == a._st->size;
    }
    friend bool operator==(strict_end e, const strict_iterator<E>& a) { return a == e; }
    friend bool operator!=(const strict_iterator<E>& a, strict_end e) { return !(a == e); }
    friend bool operator!=(strict_end e, const strict_iterator<E>& a) { return !(a == e); }
};

struct c10_ops
{
    std::size_t (*size)(const std::string& text);
    // The text, cut after `size` code units, through a checking input (0) or range (1).
    void (*run)(unsigned kind, const std::string& text, std::size_t size, unsigned& what, record& out, chk_stats& st);
};

template <typename P, typename E>
void* make_ops()
{
    static c10_ops o{[](const std::string& t) { return to_units<E>(t).size(); },
                     [](unsigned kind, const std::string& text, std::size_t size, unsigned& what, record& out, chk_stats& st) {
                         auto u = to_units<E>(text);
                         u.resize(size);
                         if (kind == 0)
                         {
                             chk_input<E> input(u);
                             run_actions<P>(input, input.begin(), u.size(), what, out);
                             st = *input.st;
                         }
                         else
                         {
                             using C = typename E::char_type;
                             std::unique_ptr<C[]> data(new C[u.size() ? u.size() : 1]);
                             std::copy(u.begin(), u.end(), data.get());
                             chk_stats s;
                             s.size = u.size();
                             strict_iterator<E>                                    begin(data.get(), &s, 0);
                             lexy::range_input<E, strict_iterator<E>, strict_end<E>> input(begin, strict_end<E>{});
                             run_actions<P, 12>(input, begin, u.size(), what, out);
                             st = s;
                         }
                     }};
    return &o;
}
} // namespace gram
