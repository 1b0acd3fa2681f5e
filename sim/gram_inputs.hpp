// The ways a text can reach the parser.
#pragma once
#include "gram.hpp"

#include <forward_list>
#include <list>
#include <lexy/input/argv_input.hpp>
#include <lexy/input/lexeme_input.hpp>
#include <lexy_ext/shell.hpp>
#include <memory>

namespace gram
{
template <typename E>
using units = std::basic_string<typename E::char_type>;

//=== a user-written input that checks how it is used ===//
struct chk_stats
{
    std::size_t   size = 0, reached = 0; // the furthest position any reader got to
    std::uint64_t ops  = 0;
    std::uint64_t peeks = 0, bumps = 0, resets = 0, eof_peeks = 0, back = 0;
};

template <typename E>
class chk_iterator
{
public:
    using value_type        = typename E::char_type;
    using reference         = const value_type&;
    using pointer           = const value_type*;
    using difference_type   = std::ptrdiff_t;
    using iterator_category = std::forward_iterator_tag;

    chk_iterator() = default;
    chk_iterator(const value_type* data, chk_stats* st, std::size_t idx) : _data(data), _st(st), _idx(idx) {}

    reference operator*() const
    {
        if (!_st)
            sim::violate("singular-position", "a position that was never set is read");
        if (_idx >= _st->size)
            sim::violate("read-past-end", "the character at %zu of an input of %zu is read", _idx, _st->size);
        if (_idx >= _st->reached)
            sim::violate("read-ahead", "the character at %zu is read through a position, but the input was only read up to %zu",
                         _idx, _st->reached);
        return _data[_idx];
    }
    chk_iterator& operator++()
    {
        if (!_st)
            sim::violate("singular-position", "a position that was never set is advanced");
        if (_idx >= _st->size)
            sim::violate("advance-past-end", "a position is advanced past the end of the input (%zu)", _st->size);
        ++_idx;
        return *this;
    }
    chk_iterator operator++(int)
    {
        auto copy = *this;
        ++*this;
        return copy;
    }
    friend bool operator==(const chk_iterator& a, const chk_iterator& b)
    {
        if (!a._st && !b._st)
            return true;
        if (!a._st || !b._st)
            sim::violate("singular-position", "a position that was never set is compared");
        if (a._st != b._st)
            sim::violate("foreign-position", "positions of different inputs are compared");
        return a._idx == b._idx;
    }
    friend bool operator!=(const chk_iterator& a, const chk_iterator& b) { return !(a == b); }

    const value_type* _data = nullptr;
    chk_stats*        _st   = nullptr;
    std::size_t       _idx  = 0;
};

template <typename E>
class chk_reader
{
public:
    using encoding = E;
    using iterator = chk_iterator<E>;
    struct marker
    {
        iterator _it;
        iterator position() const { return _it; }
    };

    explicit chk_reader(const typename E::char_type* data, chk_stats* st) : _data(data), _st(st), _idx(0) {}

    auto peek() const
    {
        ++_st->ops, ++_st->peeks;
        if (_idx == _st->size)
        {
            ++_st->eof_peeks;
            return E::eof();
        }
        return E::to_int_type(_data[_idx]);
    }
    void bump()
    {
        ++_st->ops, ++_st->bumps;
        if (_idx >= _st->size)
            sim::violate("bump-past-end", "the reader is advanced past the end of the input (%zu)", _st->size);
        ++_idx;
        _st->reached = std::max(_st->reached, _idx);
    }
    iterator position() const { return iterator(_data, _st, _idx); }
    marker   current() const
    {
        ++_st->ops;
        return {position()};
    }
    void reset(marker m)
    {
        ++_st->ops, ++_st->resets;
        if (m._it._st != _st)
            sim::violate("foreign-reset", m._it._st ? "the reader is reset to a position of another input"
                                                    : "the reader is reset to a position that was never set");
        if (m._it._idx > _st->reached)
            sim::violate("forward-reset", "the reader is reset to %zu, but no reader got further than %zu", m._it._idx, _st->reached);
        if (m._it._idx < _idx)
            ++_st->back;
        _idx = m._it._idx;
    }

private:
    const typename E::char_type* _data;
    chk_stats*                   _st;
    std::size_t                  _idx;
};

template <typename E>
class chk_input
{
public:
    using encoding  = E;
    using char_type = typename E::char_type;
    // The characters sit in a block of their exact size.
    explicit chk_input(const units<E>& u) : _data(new char_type[u.size() ? u.size() : 1]), st(new chk_stats)
    {
        std::copy(u.begin(), u.end(), _data.get());
        st->size = u.size();
    }
    auto       reader() const& { return chk_reader<E>(_data.get(), st.get()); }
    auto       begin() const { return chk_iterator<E>(_data.get(), st.get(), 0); }
    auto       end() const { return chk_iterator<E>(_data.get(), st.get(), st->size); }

    std::unique_ptr<char_type[]> _data;
    std::unique_ptr<chk_stats>   st;
};

//=== an interactive session ===//
template <typename E>
struct typed_prompt
{
    using encoding  = E;
    using char_type = typename E::char_type;
    struct session
    {
        units<E>    text;
        std::size_t pos    = 0;
        bool        closed = false, eager = false;
        unsigned    lines  = 0;
    };
    session* s;

    void primary_prompt() {}
    void continuation_prompt() {}
    void eof_prompt() {}
    bool is_open() const { return !s->closed; }
    struct read_line_callback
    {
        session*    s;
        std::size_t operator()(char_type* buffer, std::size_t size)
        {
            std::size_t n = 0;
            while (n < size && s->pos < s->text.size())
            {
                buffer[n++] = s->text[s->pos++];
                if (buffer[n - 1] == char_type('\n'))
                    break;
            }
            if (n < size && (n == 0 || buffer[n - 1] != char_type('\n')))
                s->closed = true;
            if (s->eager && s->pos == s->text.size() && n > 0 && buffer[n - 1] == char_type('\n'))
                s->closed = true;
            ++s->lines;
            return n;
        }
        void done() && {}
    };
    auto read_line() { return read_line_callback{s}; }
    struct write_message_callback
    {
        void operator()(const char_type*, std::size_t) {}
        void done() && {}
    };
    auto write_message() { return write_message_callback{}; }
};

//=== sentinel ===//
template <typename It>
struct end_at
{
    It end;
    friend bool operator==(const It& a, const end_at& b) { return a == b.end; }
    friend bool operator==(const end_at& b, const It& a) { return a == b.end; }
    friend bool operator!=(const It& a, const end_at& b) { return !(a == b.end); }
    friend bool operator!=(const end_at& b, const It& a) { return !(a == b.end); }
};

enum input_kind
{
    in_string,
    in_buffer,
    in_list,
    in_sentinel,
    in_vector,
    in_custom,
    in_shell,
    in_lexeme,
    in_argv,
    in_file,
    in_stdin,
    input_kinds,
};
inline const char* const input_names[] = {"string", "buffer", "list range", "list range with sentinel", "vector range",
                                          "custom input", "shell", "part of a larger input", "command line", "file", "standard input"};
} // namespace gram
