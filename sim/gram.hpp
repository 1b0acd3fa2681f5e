// Shared by the parsing harnesses: values with a ledger, user code with a failure schedule,
// and a textual record of everything a parse shows to its user.
#pragma once
#include "sim.hpp"
#include <algorithm>
#include <cstring>
#include <exception>
#include <functional>
#include <iterator>
#include <lexy/action/match.hpp>
#include <lexy/action/parse.hpp>
#include <lexy/action/parse_as_tree.hpp>
#include <lexy/action/trace.hpp>
#include <lexy/action/validate.hpp>
#include <lexy/callback.hpp>
#include <lexy/code_point.hpp>
#include <lexy/dsl.hpp>
#include <lexy/input/buffer.hpp>
#include <lexy/input/range_input.hpp>
#include <lexy/input/string_input.hpp>
#include <lexy/input_location.hpp>
#include <optional>
#include <tuple>

namespace gram
{
//=== the user's code: where it is called, and when it fails ===//
struct boom // the exception user code throws
{
    std::uint64_t id;
};

struct user_t
{
    std::uint64_t points   = 0; // calls of user-supplied functions so far
    std::uint64_t throw_at = 0; // 1-based, 0 = never
    std::uint64_t boom_id  = 0;
    bool          thrown   = false; // user code has thrown and the caller has not seen it yet
    const char*   thrown_in = "";
    std::int64_t  live     = 0; // values and sinks that exist
    std::uint64_t made     = 0;
    std::uint64_t moves = 0, move_throw_at = 0; // the same for copies and moves of values
    void (*at_point)(const char*) = nullptr; // something to do inside user code
};
inline thread_local user_t user;

inline void point(const char* what)
{
    if (user.thrown)
        sim::violate("user-code-after-failure", "%s is called although %s has thrown", what, user.thrown_in);
    ++user.points;
    if (user.at_point)
        user.at_point(what);
    if (user.points == user.throw_at)
    {
        user.thrown    = true;
        user.thrown_in = what;
        sim::fault(what);
        sim::ev("%s throws", what);
        throw boom{user.boom_id};
    }
}

inline void move_point(const char* what)
{
    if (user.thrown)
        sim::violate("user-code-after-failure", "a %s is made although %s has thrown", what, user.thrown_in);
    if (++user.moves == user.move_throw_at)
    {
        user.thrown    = true;
        user.thrown_in = what;
        sim::fault(what);
        sim::ev("%s throws", what);
        throw boom{user.boom_id};
    }
}

// A value made by user code.
class Val
{
    enum : std::uint32_t
    {
        alive = 0xA11CEA11,
        moved = 0x30FED30F,
        dead  = 0xDEADDEAD,
    };

public:
    std::string text;

    explicit Val(std::string t) : text(std::move(t)), _magic(alive) { ++user.live, ++user.made; }
    Val(const Val& o) : text((o.check(), move_point("value-copy"), o.text)), _magic(alive) { ++user.live, ++user.made; }
    Val(Val&& o) : text((o.check(), move_point("value-move"), std::move(o.text))), _magic(alive)
    {
        o._magic = moved;
        ++user.live, ++user.made;
    }
    Val& operator=(const Val& o)
    {
        o.check();
        move_point("value-copy");
        text   = o.text;
        _magic = alive;
        return *this;
    }
    Val& operator=(Val&& o)
    {
        o.check();
        if (this == &o)
            return *this;
        move_point("value-move");
        text     = std::move(o.text);
        _magic   = alive;
        o._magic = moved;
        return *this;
    }
    ~Val()
    {
        if (_magic != alive && _magic != moved)
            sim::violate("double-destroy", "a value is destroyed that does not exist");
        _magic = dead;
        --user.live;
    }
    void check() const
    {
        if (_magic == moved)
            sim::violate("stale-value", "a value is used again after it was passed on");
        if (_magic != alive)
            sim::violate("dead-value", "a value is used that does not exist");
    }
    friend bool operator<(const Val& a, const Val& b)
    {
        a.check(), b.check();
        return a.text < b.text;
    }

private:
    std::uint32_t _magic;
};

//=== where positions are ===//
// The input that is being parsed, per iterator type: turns positions into offsets.
template <typename It>
struct where
{
    static inline thread_local const It*   begin = nullptr;
    static inline thread_local std::size_t size  = 0;
    static inline thread_local std::size_t shift = 0; // offset of the begin itself
};

template <typename It>
std::size_t offset_of(It it, const char* what)
{
    if (!where<It>::begin)
        sim::violate("position-outside", "%s: a position that belongs to no input", what);
    auto size = where<It>::size;
    if constexpr (std::is_base_of_v<std::random_access_iterator_tag, typename std::iterator_traits<It>::iterator_category>)
    {
        auto d = it - *where<It>::begin;
        if (d < 0 || std::size_t(d) > size)
            sim::violate("position-outside", "%s: offset %lld of an input of %zu", what, (long long)d, size);
        return std::size_t(d);
    }
    else
    {
        auto        cur = *where<It>::begin;
        std::size_t n   = 0;
        while (!(cur == it))
        {
            if (n++ == size)
                sim::violate("position-outside", "%s: a position outside of the input", what);
            ++cur;
        }
        return n;
    }
}

// Sets where<> for the duration of a parse (parses may nest).
template <typename It>
struct at_input
{
    It          it;
    const It*   old;
    std::size_t old_size;
    at_input(It b, std::size_t size) : it(b), old(where<It>::begin), old_size(where<It>::size)
    {
        where<It>::begin = &it;
        where<It>::size  = size;
    }
    ~at_input()
    {
        where<It>::begin = old;
        where<It>::size  = old_size;
    }
    at_input(const at_input&) = delete;
};

//=== description of whatever a callback gets ===//
template <typename C>
void put_unit(std::string& s, C c)
{
    std::uint32_t v;
    if constexpr (sizeof(C) == 1)
        v = static_cast<unsigned char>(c);
    else
        v = static_cast<std::uint32_t>(c);
    if (v >= 0x20 && v < 0x7F && v != '\\')
        s += char(v);
    else
    {
        char b[16];
        std::snprintf(b, sizeof b, "\\%x.", v);
        s += b;
    }
}
template <typename C>
void put_string(std::string& s, const C* str, std::size_t n)
{
    for (std::size_t i = 0; i < n; ++i)
        put_unit(s, str[i]);
}

template <typename T>
struct is_lexeme : std::false_type
{};
template <typename R>
struct is_lexeme<lexy::lexeme<R>> : std::true_type
{};
template <typename T, typename = void>
struct is_position : std::false_type
{};
template <typename T>
struct is_position<T, std::void_t<decltype(*std::declval<T&>()), decltype(++std::declval<T&>())>>
: std::bool_constant<!std::is_integral_v<T>>
{};
template <typename T>
struct is_vector : std::false_type
{};
template <typename T, typename A>
struct is_vector<std::vector<T, A>> : std::true_type
{};
template <typename T>
struct is_optional : std::false_type
{};
template <typename T>
struct is_optional<std::optional<T>> : std::true_type
{};
template <typename T>
struct is_string : std::false_type
{};
template <typename C, typename T, typename A>
struct is_string<std::basic_string<C, T, A>> : std::true_type
{};
template <typename T, typename = void>
struct has_describe : std::false_type
{};
template <typename T>
struct has_describe<T, std::void_t<decltype(std::declval<const T&>().describe(std::declval<std::string&>()))>>
: std::true_type
{};

template <typename T>
void desc(std::string& s, T&& x)
{
    using U = std::decay_t<T>;
    if constexpr (std::is_same_v<U, Val>)
    {
        x.check();
        // The user takes what is given away.
        if constexpr (std::is_rvalue_reference_v<T&&> && !std::is_const_v<std::remove_reference_t<T>>)
        {
            Val taken(std::move(x));
            s += taken.text;
        }
        else
            s += x.text;
    }
    else if constexpr (is_lexeme<U>::value)
    {
        auto b = offset_of(x.begin(), "lexeme begin");
        auto e = offset_of(x.end(), "lexeme end");
        if (b > e)
            sim::violate("backward-lexeme", "a lexeme covers [%zu, %zu)", b, e);
        s += "'";
        for (auto it = x.begin(); !(it == x.end()); ++it)
            put_unit(s, static_cast<typename U::encoding::char_type>(*it));
        s += "'" + std::to_string(b);
    }
    else if constexpr (std::is_same_v<U, lexy::nullopt>)
        s += "null";
    else if constexpr (std::is_same_v<U, bool>)
        s += x ? "true" : "false";
    else if constexpr (std::is_same_v<U, lexy::code_point>)
        s += "U+" + std::to_string(std::uint32_t(x.value()));
    else if constexpr (std::is_same_v<U, const char*> || std::is_same_v<U, char*>)
    {
        if constexpr (std::is_array_v<std::remove_reference_t<T>>)
            s += x;
        else if (where<const char*>::begin)
            s += "@" + std::to_string(offset_of<const char*>(x, "position"));
        else
            s += x;
    }
    else if constexpr (std::is_integral_v<U>)
        s += std::to_string(x);
    else if constexpr (std::is_enum_v<U>)
        s += "e" + std::to_string((long long)(x));
    else if constexpr (is_string<U>::value)
    {
        s += "\"";
        put_string(s, x.data(), x.size());
        s += "\"";
    }
    else if constexpr (is_vector<U>::value)
    {
        s += "[";
        for (auto& e : x)
        {
            if constexpr (std::is_rvalue_reference_v<T&&> && !std::is_const_v<std::remove_reference_t<T>>)
                desc(s, std::move(e));
            else
                desc(s, e);
            s += ",";
        }
        s += "]";
    }
    else if constexpr (is_optional<U>::value)
    {
        if (x)
            desc(s, *x);
        else
            s += "nullopt";
    }
    else if constexpr (has_describe<U>::value)
        x.describe(s);
    else if constexpr (is_position<U>::value)
        s += "@" + std::to_string(offset_of<U>(x, "position"));
    else
        s += typeid(U).name();
}

using lexy::operator>>;
//=== callbacks ===//
template <std::size_t N>
struct str
{
    char s[N];
    consteval str(const char (&x)[N])
    {
        for (std::size_t i = 0; i < N; ++i)
            s[i] = x[i];
    }
};

template <str Name>
struct mk_t
{
    using return_type = Val;
    template <typename... Args>
    Val operator()(Args&&... args) const
    {
        point("callback");
        std::string s = Name.s;
        s += "(";
        ((desc(s, std::forward<Args>(args)), s += ","), ...);
        s += ")";
        return Val(std::move(s));
    }
};
// Makes a value that describes its arguments.
template <str Name>
inline constexpr auto mk = mk_t<Name>{};

template <str Name>
struct lst_t
{
    class sink_t
    {
    public:
        using return_type = Val;
        sink_t() : _v((point("sink-creation"), Val(std::string(Name.s) + "["))) {}
        template <typename... Args>
        void operator()(Args&&... args)
        {
            point("sink");
            _v.check();
            ((desc(_v.text, std::forward<Args>(args)), _v.text += "|"), ...);
            _v.text += ",";
        }
        Val finish() &&
        {
            point("sink-finish");
            _v.text += "]";
            return std::move(_v);
        }

    private:
        Val _v;
    };
    auto sink() const { return sink_t(); }
};
// A sink that describes what it gets.
template <str Name>
inline constexpr auto lst = lst_t<Name>{};

template <str Name>
struct both_t : mk_t<Name>, lst_t<Name>
{};
// For rules that may or may not use the sink.
template <str Name>
inline constexpr auto both = both_t<Name>{};

//=== errors ===//
struct error_text
{
    template <typename Context, typename Reader>
    static std::string head(const Context& ctx, const lexy::error<Reader, void>& e)
    {
        auto b = offset_of(e.begin(), "error begin"), en = offset_of(e.end(), "error end");
        if (b > en)
            sim::violate("backward-error", "an error covers [%zu, %zu)", b, en);
        if (!(e.position() == e.begin()))
            sim::violate("error-position", "position() of an error is not its begin");
        return base(ctx, b) + "," + std::to_string(en) + ") " + e.message();
    }
    template <typename Context, typename Reader>
    static std::string head(const Context& ctx, const lexy::error<Reader, lexy::expected_literal>& e)
    {
        std::string s = base(ctx, offset_of(e.position(), "error position")) + ") literal ";
        put_string(s, e.string(), e.length());
        if (e.index() > e.length())
            sim::violate("error-index", "index %zu of a literal of length %zu", e.index(), e.length());
        s += " index " + std::to_string(e.index());
        if (e.character() != e.string()[e.index()])
            sim::violate("error-index", "character() is not the one at index()");
        return s;
    }
    template <typename Context, typename Reader>
    static std::string head(const Context& ctx, const lexy::error<Reader, lexy::expected_keyword>& e)
    {
        auto b = offset_of(e.begin(), "error begin"), en = offset_of(e.end(), "error end");
        if (b > en)
            sim::violate("backward-error", "an error covers [%zu, %zu)", b, en);
        std::string s = base(ctx, b) + "," + std::to_string(en) + ") keyword ";
        put_string(s, e.string(), e.length());
        return s;
    }
    template <typename Context, typename Reader>
    static std::string head(const Context& ctx, const lexy::error<Reader, lexy::expected_char_class>& e)
    {
        return base(ctx, offset_of(e.position(), "error position")) + ") class " + e.name();
    }

private:
    template <typename Context>
    static std::string base(const Context& ctx, std::size_t pos)
    {
        return std::string(ctx.production()) + "@" + std::to_string(offset_of(ctx.position(), "error context")) + " ["
               + std::to_string(pos);
    }
};

using error_list = std::vector<std::string>;

// The error callback (a sink): records every error as text.
struct err_t
{
    const void* input; // which input the errors have to belong to
    struct sink_t
    {
        using return_type = error_list;
        const void* input;
        error_list  errors;
        template <typename Context, typename Error>
        void operator()(const Context& ctx, const Error& e)
        {
            point("error-callback");
            if (input && static_cast<const void*>(&ctx.input()) != input)
                sim::violate("error-input", "the error context names another input");
            errors.push_back(error_text::head(ctx, e));
        }
        error_list finish() &&
        {
            point("error-finish");
            return std::move(errors);
        }
    };
    auto sink() const
    {
        point("error-sink-creation");
        return sink_t{input, {}};
    }
};

//=== records ===//
inline const char* status_name(bool success, bool recovered, bool fatal)
{
    if (success + recovered + fatal != 1)
        sim::violate("status", "a result is success=%d recovered=%d fatal=%d at once", success, recovered, fatal);
    return success ? "success" : recovered ? "recovered" : "fatal";
}
template <typename Result>
std::string status_of(const Result& r)
{
    if (bool(r) != r.is_success() || r.is_error() == r.is_success())
        sim::violate("status", "a result's status functions disagree");
    if (r.is_success() ? r.error_count() != 0 : r.is_recovered_error() && r.error_count() == 0)
        sim::violate("status", "a result with %zu errors reports success=%d", r.error_count(), r.is_success());
    return status_name(r.is_success(), r.is_recovered_error(), r.is_fatal_error());
}
inline std::string join(const error_list& e)
{
    std::string s;
    for (auto& x : e)
        s += "  " + x + "\n";
    return s;
}

// State handed to the grammars that want one.
struct State
{
    std::uint64_t uses = 0;
    int           id   = 0;
};
template <typename P, typename = void>
struct wants_state : std::false_type
{};
template <typename P>
struct wants_state<P, std::void_t<typename P::parse_state>> : std::true_type
{};

//=== registration ===//
struct grammar
{
    const char*              name;
    std::vector<std::string> samples;  // well-formed texts, as UTF-8
    std::vector<std::string> snippets; // what mutations insert
    void*                    ops = nullptr;
    unsigned                 width = 1; // size of a code unit
    bool                     bytes = false; // text is raw bytes
};
inline std::vector<grammar>& grammars()
{
    static std::vector<grammar> g;
    return g;
}

template <typename... S>
std::vector<std::string> T(const S&... s)
{
    return std::vector<std::string>{std::string(s, sizeof(s) - 1)...};
}

// A text for the grammar: a sample, mutated.
inline std::string make_text(const grammar& g, std::size_t max = 400, unsigned max_mutations = 4)
{
    using sim::choose;
    static const std::vector<std::string> generic{" ", "\n", "(", ")", "a", "1", ",", "\t", "\r\n", std::string(1, '\0'),
                                                  "\xC3\xA4", "\xE2\x82\xAC", "\xF0\x9F\x98\x80", "\xFF", "\x80", "\"", "\\", "/", "_", "      ",
                                                  "aaaaaaaa", "00000000", "\xC3", "\r",
                                                  "\xC4\xB0", "\xC5\xA1", "\xE0\xA0\xA2", "\xF0\x90\x81\x81", "\xF0\x90\x80\xB0"}; // low byte is 0, a, \", A, 0
    std::string t;
    auto        kind = choose(8, "text kind");
    if (kind < 6 && !g.samples.empty())
        t = sim::pick(g.samples, "sample");
    else if (kind == 6)
    {
        auto n = choose(10, "snippets");
        for (std::size_t i = 0; i < n; ++i)
            t += g.snippets.empty() ? sim::pick(generic, "snippet") : sim::pick(g.snippets, "snippet");
    }
    else if (!g.samples.empty())
    {
        t = sim::pick(g.samples, "sample");
        auto& o = sim::pick(g.samples, "second sample");
        t = t.substr(0, choose(t.size() + 1, "cut")) + o.substr(choose(o.size() + 1, "from"));
    }
    auto muts = choose(max_mutations + 1, "mutations");
    for (std::size_t i = 0; i < muts; ++i)
    {
        auto p = choose(t.size() + 1, "where");
        switch (choose(8, "mutation"))
        {
        case 0: // stop early: input ends here
            t.resize(p);
            break;
        case 1:
        case 2:
            t.insert(p, g.snippets.empty() ? sim::pick(generic, "snippet") : sim::pick(g.snippets, "snippet"));
            break;
        case 3:
            t.insert(p, sim::pick(generic, "generic"));
            break;
        case 4:
            t.erase(p, 1 + sim::small(4, "erase"));
            break;
        case 5: {
            auto n = std::min<std::size_t>(t.size() - p, 1 + sim::small(12, "length"));
            auto s = t.substr(p, n);
            auto k = 1 + sim::small(6, "times");
            for (std::size_t j = 0; j < k && t.size() < max; ++j)
                t.insert(p, s);
            break;
        }
        case 6:
            if (p < t.size())
                t[p] = char(choose(256, "byte"));
            break;
        case 7:
            if (p < t.size())
                t[p] = char(t[p] ^ (1 << choose(8, "bit")));
            break;
        }
    }
    if (t.size() > max)
        t.resize(max);
    return t;
}

// The text as code units of the encoding; ill-formed UTF-8 becomes ill-formed units.
template <typename Encoding>
std::basic_string<typename Encoding::char_type> to_units(const std::string& t)
{
    using C = typename Encoding::char_type;
    std::basic_string<C> r;
    if constexpr (sizeof(C) == 1)
    {
        for (char c : t)
        {
            // Encodings without a separate end-of-file value reserve a code unit that cannot occur in a text.
            auto u = C(static_cast<unsigned char>(c));
            if (sizeof(typename Encoding::int_type) == 1 && Encoding::to_int_type(u) == Encoding::eof())
                u = C(0xFE);
            r.push_back(u);
        }
        return r;
    }
    else
    {
        for (std::size_t i = 0; i < t.size();)
        {
            auto          b = static_cast<unsigned char>(t[i]);
            unsigned      n = b < 0x80 ? 1 : b >= 0xF0 && b < 0xF8 ? 4 : b >= 0xE0 ? 3 : b >= 0xC0 ? 2 : 1;
            std::uint32_t v = n == 1 ? b : n == 2 ? b & 0x1F : n == 3 ? b & 0xF : b & 7;
            bool          ok = i + n <= t.size() && b < 0xF8 && !(b >= 0x80 && b < 0xC0);
            for (unsigned k = 1; ok && k < n; ++k)
            {
                auto c = static_cast<unsigned char>(t[i + k]);
                if ((c & 0xC0) != 0x80)
                    ok = false;
                v = v << 6 | (c & 0x3F);
            }
            if (!ok)
            {
                // An unpaired surrogate, or a plain small value.
                r.push_back(C(b & 1 ? 0xD800 + b : b & 2 ? 0xDC00 + b : b));
                ++i;
                continue;
            }
            i += n;
            if (sizeof(C) == 2 && v > 0xFFFF)
            {
                v -= 0x10000;
                r.push_back(C(0xD800 + (v >> 10)));
                r.push_back(C(0xDC00 + (v & 0x3FF)));
            }
            else
                r.push_back(C(v));
        }
        return r;
    }
}
} // namespace gram

// The harness header defines  template <class P, class E> void* gram::make_ops();
#define GRAMMAR(Name, Production, Encoding, Samples, Snippets)                                                         \
    static bool reg_##Name = [] {                                                                                      \
        gram::grammar g;                                                                                               \
        g.name     = #Name;                                                                                            \
        g.samples  = Samples;                                                                                          \
        g.snippets = Snippets;                                                                                         \
        g.width    = sizeof(typename Encoding::char_type);                                                             \
        g.ops      = gram::make_ops<Production, Encoding>();                                                           \
        gram::grammars().push_back(std::move(g));                                                                      \
        return true;                                                                                                   \
    }();
