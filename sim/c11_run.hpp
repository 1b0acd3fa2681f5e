// C11: a scanning session behaves like the parse it spells out, whatever the call order.
// A program of scanner operations is chosen while it runs; a model of the session runs in lockstep.
#pragma once
#include "gram_inputs.hpp"
#include "treecheck.hpp"
#include <lexy/action/scan.hpp>
#include <lexy/dsl/scan.hpp>

namespace c11
{
using namespace gram;
using sim::choose;
namespace dsl = lexy::dsl;

//=== the model ===//
constexpr int max_depth = 3;
enum st_t
{
    ok,
    failed,
    recovering,
};
struct mtok
{
    char        kind; // t(oken), e(rror token), w(hitespace)
    std::size_t begin, end;
    bool        operator==(const mtok& o) const { return kind == o.kind && begin == o.begin && end == o.end; }
};
struct Model
{
    std::string              t;
    std::size_t              pos = 0;
    bool                     ws  = false, flag = false, words = false;
    int                      counter = 0;
    st_t                     st      = ok;
    int                      depth   = 0;
    std::vector<std::string> errs;
    std::vector<mtok>        toks;
    std::vector<std::pair<std::string, std::size_t>> prods; // the productions that are being parsed

    bool at(char c) const { return pos < t.size() && t[pos] == c; }
    int  peek() const { return pos < t.size() ? static_cast<unsigned char>(t[pos]) : -1; }

    void error(const std::string& what)
    {
        errs.push_back(prods.back().first + "@" + std::to_string(prods.back().second) + " [" + what);
    }
    void token(char kind, std::size_t b, std::size_t e)
    {
        if (b != e)
            toks.push_back({kind, b, e});
    }
    void skip()
    {
        auto b = pos;
        while (ws && at(' '))
            ++pos;
        token('w', b, pos);
    }
};

struct match_t
{
    bool        ok;
    std::size_t end;
    std::string error; // after the begin
};
inline std::string num(std::size_t n) { return std::to_string(n); }

inline match_t m_lit(const Model& m, const char* s)
{
    std::size_t i = 0;
    while (s[i] && m.pos + i < m.t.size() && m.t[m.pos + i] == s[i])
        ++i;
    if (!s[i])
        return {true, m.pos + i, ""};
    return {false, m.pos + i, num(m.pos) + ") literal " + s + " index " + num(i)};
}
template <typename F>
match_t m_class(const Model& m, const char* name, F f, bool many)
{
    auto e = m.pos;
    while (e < m.t.size() && f(m.t[e]) && (many || e == m.pos))
        ++e;
    if (e != m.pos)
        return {true, e, ""};
    return {false, e, num(m.pos) + ") class " + name};
}
inline bool is_digit(char c) { return c >= '0' && c <= '9'; }
inline bool is_lower(char c) { return c >= 'a' && c <= 'z'; }

// the end of the identifier that starts here
inline bool        is_id(char c) { return is_lower(c) || is_digit(c); }
inline std::size_t m_ident(const Model& m)
{
    auto e = m.pos;
    if (e < m.t.size() && is_lower(m.t[e]))
        while (e < m.t.size() && is_id(m.t[e]))
            ++e;
    return e;
}

// tokens that operations take: rule and model side by side
constexpr unsigned tokens = 9;
constexpr auto     the_id = dsl::identifier(dsl::ascii::lower, dsl::ascii::lower / dsl::ascii::digit);
inline match_t            m_token(const Model& m, unsigned which)
{
    switch (which)
    {
    case 0: return m_lit(m, "ab");
    case 1: return m_class(m, "digit.decimal", is_digit, true);
    case 2: {
        // A sequence as one token: it ends where its last part ends, or where it stopped.
        auto a = m_lit(m, "c");
        if (!a.ok)
            return {false, a.end, num(m.pos) + "," + num(a.end) + ") missing token"};
        Model n = m;
        n.pos   = a.end;
        auto b  = m_lit(n, "de");
        if (!b.ok)
            return {false, b.end, num(m.pos) + "," + num(b.end) + ") missing token"};
        return {true, b.end, ""};
    }
    case 3: return m_class(m, "ASCII.lower", is_lower, false);
    case 4: return m_lit(m, ";");
    case 5: {
        for (auto l : {"xyz", "x", "("})
            if (m_lit(m, l).ok)
                return m_lit(m, l);
        return {false, m.pos, num(m.pos) + "," + num(m.pos) + ") expected literal set"};
    }
    case 7:
    case 8: { // a keyword: not the beginning of a longer identifier
        std::string k = which == 7 ? "c" : "ab";
        auto        e = m.pos + k.size();
        if (m.t.compare(m.pos, k.size(), k) == 0)
        {
            if (e == m.t.size() || !is_id(m.t[e]))
                return {true, e, ""};
        }
        else
            e = m.pos;
        return {false, e, num(m.pos) + "," + num(m_ident(m)) + ") keyword " + k};
    }
    default: { // anything but a semicolon
        auto e = m.t.find(';', m.pos);
        if (e == std::string::npos)
            return {false, m.t.size(), num(m.t.size()) + ") literal ; index 0"};
        return {true, e + 1, ""};
    }
    }
}
template <typename F>
auto with_token(unsigned which, F f)
{
    switch (which)
    {
    case 0: return f(LEXY_LIT("ab"));
    case 1: return f(dsl::digits<>);
    case 2: return f(dsl::token(dsl::lit_c<'c'> + LEXY_LIT("de")));
    case 3: return f(dsl::ascii::lower);
    case 4: return f(dsl::semicolon);
    case 5: return f(dsl::literal_set(LEXY_LIT("x"), LEXY_LIT("xyz"), LEXY_LIT("(")));
    case 7: return f(LEXY_KEYWORD("c", the_id));
    case 8: return f(LEXY_KEYWORD("ab", the_id));
    default: return f(dsl::until(dsl::semicolon));
    }
}

// Parses a token; the lexeme if it matched.
inline std::optional<std::pair<std::size_t, std::size_t>> p_token(Model& m, const match_t& r)
{
    auto b = m.pos;
    m.token(r.ok ? 't' : 'e', b, r.end);
    if (!r.ok)
        m.error(r.error);
    m.pos = r.end;
    if (!r.ok)
        return std::nullopt;
    m.skip();
    return std::make_pair(b, r.end);
}
inline std::string quote(const Model& m, std::size_t b, std::size_t e) { return "'" + m.t.substr(b, e - b) + "'" + num(b); }

using mvalue = std::optional<std::string>; // of a rule that succeeded

struct in_prod
{
    Model&      m;
    std::size_t begin, toks;
    bool        finished = false;
    in_prod(Model& m, const char* name) : m(m), begin(m.pos), toks(m.toks.size()) { m.prods.emplace_back(name, m.pos); }
    ~in_prod()
    {
        m.prods.pop_back();
        if (!finished)
        {
            // What a production consumed that failed is in the tree as an error.
            m.toks.resize(toks);
            m.token('e', begin, m.pos);
        }
    }
};

//=== grammar and model side by side ===//
struct tag
{
    static constexpr auto name = "tag";
};
struct flag_id;
struct counter_id;
constexpr auto the_flag    = dsl::context_flag<flag_id>;
constexpr auto the_counter = dsl::context_counter<counter_id>;

struct item // a lower case letter, and a prime if there is one
{
    static constexpr auto name  = "item";
    static constexpr auto rule  = dsl::capture(dsl::ascii::lower) >> dsl::opt(dsl::lit_c<'\''> >> dsl::position);
    static constexpr auto value = mk<"item">;
};
inline mvalue p_item(Model& m)
{
    in_prod p(m, "item");
    auto    l = p_token(m, m_class(m, "ASCII.lower", is_lower, false));
    if (!l)
        return std::nullopt;
    std::string v = "item(" + quote(m, l->first, l->second) + ",";
    if (m.at('\''))
    {
        p_token(m, m_lit(m, "'"));
        v += "@" + num(m.pos) + ",";
    }
    else
        v += "null,";
    p.finished = true;
    return v + ")";
}

struct pair // not a branch: x, then y and z
{
    static constexpr auto name  = "pair";
    static constexpr auto rule  = dsl::lit_c<'x'> + dsl::capture(LEXY_LIT("yz"));
    static constexpr auto value = mk<"pair">;
};
inline mvalue p_pair(Model& m)
{
    in_prod p(m, "pair");
    if (!p_token(m, m_lit(m, "x")))
        return std::nullopt;
    auto l = p_token(m, m_lit(m, "yz"));
    if (!l)
        return std::nullopt;
    p.finished = true;
    return "pair(" + quote(m, l->first, l->second) + ",)";
}

struct nest // recursive
{
    static constexpr auto name  = "nest";
    static constexpr auto rule  = dsl::lit_c<'('> >> dsl::recurse<nest> + dsl::lit_c<')'> | dsl::capture(dsl::ascii::digit);
    static constexpr auto value = mk<"nest">;
};
inline mvalue p_nest(Model& m)
{
    in_prod p(m, "nest");
    if (m.at('('))
    {
        p_token(m, m_lit(m, "("));
        if (m.depth >= max_depth)
        {
            m.error(num(m.pos) + "," + num(m.pos) + ") maximum recursion depth exceeded");
            return std::nullopt;
        }
        ++m.depth;
        auto v = p_nest(m);
        --m.depth;
        if (!v || !p_token(m, m_lit(m, ")")))
            return std::nullopt;
        p.finished = true;
        return "nest(" + *v + ",)";
    }
    auto d = m_class(m, "", is_digit, false);
    if (!d.ok)
    {
        m.error(num(m.pos) + "," + num(m.pos) + ") exhausted choice");
        return std::nullopt;
    }
    auto l     = p_token(m, d);
    p.finished = true;
    return "nest(" + quote(m, l->first, l->second) + ",)";
}

struct tight : lexy::token_production // whitespace only after it
{
    static constexpr auto name  = "tight";
    static constexpr auto rule  = dsl::lit_c<'t'> >> dsl::capture(dsl::ascii::lower);
    static constexpr auto value = mk<"tight">;
};
inline mvalue p_tight(Model& m)
{
    mvalue r;
    bool   ws = m.ws;
    {
        in_prod p(m, "tight");
        m.ws = false;
        if (p_token(m, m_lit(m, "t")))
            if (auto l = p_token(m, m_class(m, "ASCII.lower", is_lower, false)))
                r = "tight(" + quote(m, l->first, l->second) + ",)", p.finished = true;
        m.ws = ws;
    }
    if (r)
        m.skip();
    return r;
}

// What a scan production does is decided by the session it belongs to.
inline thread_local Model*   cur   = nullptr;
inline thread_local unsigned level = 0, budget = 0;
inline thread_local bool     with_vars = false; // are the context variables there?

template <typename S>
void program(S& s, unsigned ops);

struct sub : lexy::scan_production<Val>
{
    static constexpr auto name = "sub";
    template <typename Context, typename Reader>
    static scan_result scan(lexy::rule_scanner<Context, Reader>& s);
};
// The result a scan production chose, for the model.
inline thread_local mvalue sub_result;

//=== one operation ===//
template <typename S>
std::size_t offset(S& s)
{
    return offset_of(s.position(), "scanner position");
}
template <typename T>
std::string result_text(const lexy::scan_result<T>& r)
{
    if (r.has_value() != bool(r))
        sim::violate("result-status", "a scan_result's status functions disagree");
    if (!r)
        return "none";
    std::string s;
    if constexpr (std::is_void_v<T>)
        s = "void";
    else if constexpr (std::is_same_v<T, Val>)
        s = r.value().text;
    else
        desc(s, r.value());
    return s;
}
inline void same_value(const char* what, const std::string& got, const mvalue& want)
{
    auto w = want ? *want : std::string("none");
    if (got != w)
        sim::violate("scan-value", "%s: result %s instead of %s", what, sim::printable(got).c_str(), sim::printable(w).c_str());
}

// The model of a rule that is parsed: nothing in the failed state.
template <typename F>
mvalue parse_model(Model& m, F f)
{
    if (m.st == failed)
        return std::nullopt;
    mvalue v = f();
    if (!v)
        m.st = failed;
    return v;
}

// Identifiers with what they reserve.
constexpr unsigned idents = 6;
template <typename F>
auto with_ident(unsigned which, F f)
{
    switch (which)
    {
    case 0: return f(the_id);
    case 1: return f(the_id.reserve(LEXY_LIT("ab"), LEXY_LIT("c"), LEXY_KEYWORD("abab", the_id)));
    case 2: return f(the_id.reserve_prefix(LEXY_LIT("xyz"), LEXY_LIT("ab")));
    case 3: return f(the_id.reserve_containing(LEXY_LIT("bab"), LEXY_LIT("yzx"), LEXY_LIT("11")));
    case 4: return f(the_id.reserve_suffix(LEXY_LIT("bab"), LEXY_LIT("a"), LEXY_LIT("zxyz"), LEXY_LIT("aaa")));
    default: return f(the_id.reserve(LEXY_LIT("xyzab")).reserve_prefix(LEXY_LIT("cc")).reserve_containing(LEXY_LIT("tt")).reserve_suffix(LEXY_LIT("abab"), LEXY_LIT("111")));
    }
}
inline bool is_reserved(const std::string& s, unsigned which)
{
    using list  = std::initializer_list<const char*>;
    auto is     = [&](list l) { return std::any_of(l.begin(), l.end(), [&](const char* r) { return s == r; }); };
    auto starts = [&](list l) { return std::any_of(l.begin(), l.end(), [&](const char* r) { return s.rfind(r, 0) == 0; }); };
    auto has    = [&](list l) { return std::any_of(l.begin(), l.end(), [&](const char* r) { return s.find(r) != s.npos; }); };
    auto ends   = [&](list l) {
        return std::any_of(l.begin(), l.end(), [&](const char* r) {
            auto n = std::strlen(r);
            return n <= s.size() && s.compare(s.size() - n, n, r) == 0;
        });
    };
    switch (which)
    {
    case 0: return false;
    case 1: return is({"ab", "c", "abab"});
    case 2: return starts({"xyz", "ab"});
    case 3: return has({"bab", "yzx", "11"});
    case 4: return ends({"bab", "a", "zxyz", "aaa"});
    default: return is({"xyzab"}) || starts({"cc"}) || has({"tt"}) || ends({"abab", "111"});
    }
}

// The value of the digits in [b, e), whatever else is among them.
inline std::string m_value(Model& m, std::size_t b, std::size_t e)
{
    long long v = 0;
    for (auto i = b; i < e && v <= 32767; ++i)
        if (is_digit(m.t[i]))
            v = v * 10 + (m.t[i] - '0');
    if (v > 32767)
    {
        // Reported, and the parse goes on with whatever value.
        m.error(num(b) + "," + num(e) + ") integer overflow");
        return "?";
    }
    return num(std::size_t(v));
}
// The digits of an integer: plain ones, with separators, with a suffix, without a leading zero.
constexpr unsigned int_kinds = 4;
inline match_t     m_digits(const Model& m, unsigned kind)
{
    auto   r = m_class(m, "digit.decimal", is_digit, true);
    auto   b = m.pos;
    Model  n;
    auto   rest = [&](const char* l) {
        n.t = m.t, n.pos = r.end;
        return m_lit(n, l);
    };
    switch (kind)
    {
    case 0: return r;
    case 1:
        while (r.ok && r.end < m.t.size() && m.t[r.end] == '\'')
        {
            n.t = m.t, n.pos = r.end + 1;
            r = m_class(n, "digit.decimal", is_digit, true);
        }
        return r;
    case 2:
        if (r.ok && rest("ab").ok)
            return {true, r.end + 2, ""};
        if (r.ok)
            r.end = rest("ab").end;
        return {false, r.end, num(b) + "," + num(r.end) + ") missing token"};
    default:
        if (r.ok && r.end != b + 1 && m.t[b] == '0')
            return {false, b + 1, num(b) + "," + num(b + 1) + ") forbidden leading zero"};
        return r;
    }
}
inline mvalue p_int(Model& m, unsigned kind)
{
    auto b = m.pos;
    auto r = m_digits(m, kind);
    if (!r.ok)
    {
        m.error(r.error);
        while (r.end < m.t.size() && is_digit(m.t[r.end]))
            ++r.end;
        if (r.end == b)
            return std::nullopt;
        sim::probe("recovered integer");
    }
    m.token('t', b, r.end);
    auto v = m_value(m, b, r.end);
    m.pos  = r.end;
    m.skip();
    return v;
}
template <typename F>
auto with_int(unsigned kind, F f)
{
    switch (kind)
    {
    case 0: return f(dsl::integer<short>);
    case 1: return f(dsl::integer<short>(dsl::digits<>.sep(dsl::digit_sep_tick)));
    case 2: return f(dsl::integer<short, dsl::decimal>(dsl::token(dsl::digits<> + LEXY_LIT("ab"))));
    default: return f(dsl::integer<short>(dsl::digits<>.no_leading_zero()));
    }
}

template <typename S>
void check(S& s, const char* op)
{
    auto& m = *cur;
    if (offset(s) != m.pos)
        sim::violate("scan-position", "after %s the scanner is at %zu instead of %zu", op, offset(s), m.pos);
    if (bool(s) != (m.st == ok))
        sim::violate("scan-state", "after %s the scanner is %s", op, s ? "ok although it failed before" : "not ok although nothing failed");
    if (s.is_at_eof() != (m.pos == m.t.size()))
        sim::violate("scan-eof", "after %s is_at_eof() is %d at %zu of %zu", op, s.is_at_eof(), m.pos, m.t.size());
}

template <typename S>
void one_op(S& s)
{
    auto& m = *cur;
    using state_t = st_t;
    (void)sizeof(state_t);
    auto op = m.words && sim::chance(40, "identifier") ? 22 + choose(3, "word operation") : choose(28, "operation");
    switch (op)
    {
    case 0: { // parse a token
        auto w = unsigned(choose(tokens, "token"));
        sim::ev("parse token %u", w);
        with_token(w, [&](auto rule) { s.parse(rule); });
        parse_model(m, [&]() -> mvalue { return p_token(m, m_token(m, w)) ? mvalue("") : std::nullopt; });
        check(s, "parse(token)");
        break;
    }
    case 1: { // capture a token
        auto        w = unsigned(choose(tokens, "token"));
        std::string got;
        sim::ev("capture token %u", w);
        with_token(w, [&](auto rule) { got = result_text(s.capture(rule)); });
        auto v = parse_model(m, [&]() -> mvalue {
            auto l = p_token(m, m_token(m, w));
            return l ? mvalue(quote(m, l->first, l->second)) : std::nullopt;
        });
        check(s, "capture()");
        same_value("capture", got, v);
        break;
    }
    case 2: { // branch on a token
        auto w   = unsigned(choose(tokens, "token"));
        bool got = false;
        sim::ev("branch token %u", w);
        with_token(w, [&](auto rule) { got = s.branch(rule); });
        bool want = false;
        if (m.st != failed)
        {
            auto r = m_token(m, w);
            if (r.ok)
                p_token(m, r), want = true;
        }
        if (got != want)
            sim::violate("scan-branch", "branch(token %u) is %d instead of %d", w, got, want);
        check(s, "branch(token)");
        break;
    }
    case 3: { // a branch that may fail after it was taken
        lexy::scan_result<lexy::lexeme<typename std::decay_t<decltype(s.remaining_input().reader())>>> r;
        sim::ev("branch x >> yz");
        bool got  = s.branch(r, dsl::lit_c<'x'> >> dsl::capture(LEXY_LIT("yz")));
        bool want = false;
        mvalue v;
        if (m.st != failed && m.at('x'))
        {
            want = true;
            p_token(m, m_lit(m, "x"));
            if (auto l = p_token(m, m_lit(m, "yz")))
                v = quote(m, l->first, l->second);
            else
                m.st = failed;
        }
        if (got != want)
            sim::violate("scan-branch", "branch('x' >> \"yz\") is %d instead of %d", got, want);
        check(s, "branch(x >> yz)");
        same_value("branch", result_text(r), v);
        break;
    }
    case 4: { // look ahead
        auto w   = unsigned(choose(tokens + 1, "token"));
        bool got = false;
        sim::ev("peek token %u", w);
        bool want = false;
        if (w == tokens)
        {
            got = s.peek(dsl::lit_c<'x'> + LEXY_LIT("yz"));
            want = m.st != failed && m.t.compare(m.pos, 3, "xyz") == 0;
        }
        else
        {
            with_token(w, [&](auto rule) { got = s.peek(rule); });
            want = m.st != failed && m_token(m, w).ok;
        }
        if (got != want)
            sim::violate("scan-peek", "peek(token %u) is %d instead of %d", w, got, want);
        check(s, "peek()");
        break;
    }
    case 5: { // discard
        auto w   = unsigned(choose(tokens, "token"));
        bool got = false;
        sim::ev("discard token %u", w);
        with_token(w, [&](auto rule) { got = s.discard(rule); });
        bool want = false;
        if (m.st != failed)
        {
            auto r = m_token(m, w);
            if (r.ok)
            {
                want = true;
                m.token('e', m.pos, r.end);
                m.pos = r.end;
            }
        }
        if (got != want)
            sim::violate("scan-discard", "discard(token %u) is %d instead of %d", w, got, want);
        check(s, "discard()");
        break;
    }
    case 6: { // errors of the user's own
        auto kind = choose(4, "error kind");
        auto b = s.position(), e = s.position();
        auto p = num(m.pos);
        sim::ev("error %llu", (unsigned long long)kind);
        switch (kind)
        {
        case 0: s.error(tag{}, b, e); break;
        case 1: s.error("message", b, e); break;
        case 2: s.fatal_error(tag{}, b, e); break;
        default: s.fatal_error("message", b, e); break;
        }
        m.error(p + "," + p + ") " + (kind % 2 ? "message" : "tag"));
        if (kind >= 2)
        {
            sim::fault("fatal-error");
            m.st = failed;
        }
        check(s, "error()");
        break;
    }
    case 7:
    case 8:
    case 9:
        if (m.st == failed) // recovery
        {
            sim::probe("recovery");
            sim::ev("recovery starts");
            auto guard = s.error_recovery();
            m.st       = recovering;
            check(s, "error_recovery()");
            program(s, unsigned(sim::small(4, "operations in recovery")));
            // A failure during recovery may be recovered from on its own; the guard decides in any case.
            if (choose(2, "recovered?"))
            {
                sim::ev("recovery finished");
                std::move(guard).finish();
                m.st = ok;
            }
            else
            {
                sim::ev("recovery cancelled");
                sim::fault("recovery-cancelled");
                std::move(guard).cancel();
                m.st = failed;
            }
            check(s, "recovery");
            break;
        }
        [[fallthrough]];
    case 10: { // a production, three ways of asking for it
        auto how = choose(4, "overload");
        sim::ev("production item %llu", (unsigned long long)how);
        std::string got;
        if (how == 0)
            got = result_text(s.template parse<item>());
        else if (how == 1)
            got = result_text(s.parse(item{}));
        else if (how == 2)
        {
            lexy::scan_result<Val> r;
            s.parse(r, dsl::p<item>);
            got = result_text(r);
        }
        else
            got = result_text(s.template parse<Val>(dsl::p<item>));
        auto v = parse_model(m, [&] { return p_item(m); });
        check(s, "parse(production)");
        same_value("parse(production)", got, v);
        break;
    }
    case 11: { // a production as branch
        sim::ev("branch item");
        lexy::scan_result<Val> r;
        auto                   how  = choose(2, "overload");
        bool                   got  = how ? s.branch(r, item{}) : s.branch(r, dsl::p<item>);
        bool                   want = m.st != failed && m.pos < m.t.size() && is_lower(m.t[m.pos]);
        mvalue                 v;
        if (want)
            v = parse_model(m, [&] { return p_item(m); });
        if (got != want)
            sim::violate("scan-branch", "branch(production) is %d instead of %d", got, want);
        check(s, "branch(production)");
        same_value("branch(production)", result_text(r), v);
        break;
    }
    case 12: { // a production that fails half way
        sim::ev("production pair");
        auto got = result_text(s.template parse<pair>());
        auto v   = parse_model(m, [&] { return p_pair(m); });
        check(s, "parse(pair)");
        same_value("parse(pair)", got, v);
        break;
    }
    case 13: { // recursion
        sim::ev("production nest");
        lexy::scan_result<Val> r;
        s.parse(r, dsl::recurse<nest>);
        auto v = parse_model(m, [&]() -> mvalue {
            if (m.depth >= max_depth)
            {
                m.error(num(m.pos) + "," + num(m.pos) + ") maximum recursion depth exceeded");
                return std::nullopt;
            }
            ++m.depth;
            auto v = p_nest(m);
            --m.depth;
            return v;
        });
        check(s, "parse(recurse)");
        same_value("parse(recurse)", result_text(r), v);
        break;
    }
    case 14: { // token production
        sim::ev("production tight");
        auto got = result_text(s.template parse<tight>());
        auto v   = parse_model(m, [&] { return p_tight(m); });
        check(s, "parse(tight)");
        same_value("parse(tight)", got, v);
        break;
    }
    case 15: { // integer
        auto how = choose(int_kinds + 2, "overload");
        sim::ev("integer %llu", (unsigned long long)how);
        lexy::scan_result<short> r;
        if (how == int_kinds)
            r = s.template integer<short, lexy::dsl::decimal>(dsl::digits<>);
        else if (how > int_kinds)
            r = s.template integer<short>(dsl::digits<>);
        else
            with_int(unsigned(how), [&](auto rule) { s.parse(r, rule); });
        auto v = parse_model(m, [&] { return p_int(m, how < int_kinds ? unsigned(how) : 0); });
        check(s, "integer()");
        if (!v || *v != "?")
            same_value("integer", r ? num(std::size_t(r.value())) : "none", v);
        else if (!r)
            sim::violate("scan-value", "integer(): no value after an overflow, which recovers");
        break;
    }
    case 24: { // an integer as branch
        auto kind = unsigned(choose(int_kinds, "integer"));
        sim::ev("branch integer %u", kind);
        lexy::scan_result<short> r;
        bool                     got = false, want = m.st != failed && m_digits(m, kind).ok;
        with_int(kind, [&](auto rule) { got = s.branch(r, rule); });
        mvalue v;
        if (want)
            v = p_int(m, kind);
        if (got != want)
            sim::violate("scan-branch", "branch(integer %u) is %d instead of %d", kind, got, want);
        check(s, "branch(integer)");
        if (!v || *v != "?")
            same_value("branch(integer)", r ? num(std::size_t(r.value())) : "none", v);
        break;
    }
    case 16: { // a rule that recovers on its own
        sim::ev("try ab, until ;");
        s.parse(dsl::try_(LEXY_LIT("ab"), dsl::until(dsl::semicolon)));
        parse_model(m, [&]() -> mvalue {
            if (p_token(m, m_token(m, 0)))
                return "";
            auto r = m_token(m, 6);
            auto b = m.pos;
            m.token(r.ok ? 't' : 'e', b, r.end);
            if (!r.ok)
                m.error(r.error);
            m.pos = r.end;
            if (!r.ok)
                return std::nullopt;
            m.skip();
            return "";
        });
        check(s, "parse(try)");
        break;
    }
    case 25: { // look for something ahead: keywords of three kinds, literals that begin alike
        constexpr auto id_z  = dsl::identifier(dsl::ascii::lower, dsl::ascii::upper);
        constexpr auto id_p  = dsl::identifier(dsl::ascii::lower, dsl::ascii::punct);
        constexpr auto rule  = dsl::lookahead(dsl::literal_set(LEXY_KEYWORD("ab", the_id), LEXY_KEYWORD("z", id_z), LEXY_LIT("32")),
                                              dsl::literal_set(LEXY_KEYWORD("c", id_p), dsl::semicolon, LEXY_LIT("3276")));
        bool           found = false, looked = m.st != failed;
        auto           e     = m.pos;
        auto           has   = [&](const char* l, auto trailing) {
            auto n = std::strlen(l);
            return m.t.compare(e, n, l) == 0 && (e + n == m.t.size() || !trailing(m.t[e + n]));
        };
        auto none  = [](char) { return false; };
        auto upper = [](char c) { return c >= 'A' && c <= 'Z'; };
        auto punct = [](char c) { return std::ispunct(static_cast<unsigned char>(c)) != 0; };
        for (; e < m.t.size(); ++e)
        {
            std::size_t n = 0;
            if (has("c", punct) || has(";", none))
                n = 1;
            else if (has("3276", none))
                n = 4;
            else if (has("ab", is_id) || has("32", none))
                found = true, n = 2;
            else if (has("z", upper))
                found = true, n = 1;
            if (n)
            {
                e += n;
                break;
            }
        }
        sim::ev("lookahead");
        switch (choose(3, "how"))
        {
        case 0: {
            bool got = s.peek(rule);
            if (got != (looked && found))
                sim::violate("scan-peek", "peek(lookahead) is %d instead of %d", got, looked && found);
            break;
        }
        case 1: {
            bool got = s.branch(rule);
            if (got != (looked && found))
                sim::violate("scan-branch", "branch(lookahead) is %d instead of %d", got, looked && found);
            break;
        }
        default:
            s.parse(rule.template error<tag>);
            if (looked && !found)
                m.error(num(m.pos) + "," + num(e) + ") tag");
            break;
        }
        check(s, "lookahead");
        break;
    }
    case 17: { // the rest, as an input of its own
        sim::ev("remaining input");
        auto rest   = s.remaining_input();
        auto reader = rest.reader();
        if (offset_of(reader.position(), "remaining input") != m.pos)
            sim::violate("scan-rest", "the remaining input starts at %zu instead of %zu", offset_of(reader.position(), "remaining input"), m.pos);
        std::string text;
        using enc = typename std::decay_t<decltype(reader)>::encoding;
        for (; reader.peek() != enc::eof(); reader.bump())
            text += char(reader.peek());
        if (text != m.t.substr(m.pos))
            sim::violate("scan-rest", "the remaining input is %s instead of %s", sim::printable(text).c_str(), sim::printable(m.t.substr(m.pos)).c_str());
        check(s, "remaining_input()");
        break;
    }
    case 18:
    case 19:
        if (level < 3 && budget > 0) // a scan production inside
        {
            sim::probe("nested scan");
            sim::ev("production sub");
            sub_result.reset();
            bool runs = m.st != failed;
            auto before = m.st;
            auto got    = result_text(s.template parse<sub>());
            mvalue v;
            if (runs)
            {
                v    = sub_result;
                m.st = v ? before : failed;
            }
            check(s, "parse(scan production)");
            same_value("parse(scan production)", got, v);
            break;
        }
        [[fallthrough]];
    case 20: { // a choice
        sim::ev("choice");
        s.parse(dsl::lit_c<'x'> >> LEXY_LIT("yz") | dsl::lit_c<'('> >> dsl::lit_c<')'>);
        parse_model(m, [&]() -> mvalue {
            if (m.at('x'))
            {
                p_token(m, m_lit(m, "x"));
                return p_token(m, m_lit(m, "yz")) ? mvalue("") : std::nullopt;
            }
            if (m.at('('))
            {
                p_token(m, m_lit(m, "("));
                return p_token(m, m_lit(m, ")")) ? mvalue("") : std::nullopt;
            }
            m.error(num(m.pos) + "," + num(m.pos) + ") exhausted choice");
            return std::nullopt;
        });
        check(s, "parse(choice)");
        break;
    }
    case 21: { // without whitespace
        sim::ev("no_whitespace");
        s.parse(dsl::no_whitespace(dsl::lit_c<'x'> + LEXY_LIT("yz")));
        parse_model(m, [&]() -> mvalue {
            auto ws = m.ws;
            m.ws    = false;
            bool r  = p_token(m, m_lit(m, "x")) && p_token(m, m_lit(m, "yz"));
            m.ws    = ws;
            if (!r)
                return std::nullopt;
            m.skip();
            return "";
        });
        check(s, "parse(no_whitespace)");
        break;
    }
    case 22: { // an identifier, reserved or not
        auto w = unsigned(choose(idents, "identifier"));
        sim::ev("identifier %u", w);
        std::string got;
        with_ident(w, [&](auto rule) { got = result_text(s.template parse<lexy::lexeme<typename std::decay_t<decltype(s.remaining_input().reader())>>>(rule)); });
        auto v = parse_model(m, [&]() -> mvalue {
            auto b = m.pos, e = m_ident(m);
            if (e == b)
            {
                m.error(num(b) + ") class ASCII.lower");
                return std::nullopt;
            }
            m.token('t', b, e);
            if (is_reserved(m.t.substr(b, e - b), w))
            {
                sim::probe("reserved identifier");
                m.error(num(b) + "," + num(e) + ") reserved identifier");
            }
            m.pos = e;
            m.skip();
            return quote(m, b, e);
        });
        check(s, "parse(identifier)");
        same_value("identifier", got, v);
        break;
    }
    case 23: { // an identifier that is taken only if it is not reserved
        auto w = unsigned(choose(idents, "identifier"));
        sim::ev("branch identifier %u", w);
        lexy::scan_result<lexy::lexeme<typename std::decay_t<decltype(s.remaining_input().reader())>>> r;
        bool   got = false, want = false;
        mvalue v;
        with_ident(w, [&](auto rule) { got = s.branch(r, rule); });
        auto b = m.pos, e = m_ident(m);
        if (m.st != failed && e != b && !is_reserved(m.t.substr(b, e - b), w))
        {
            want = true;
            m.token('t', b, e);
            m.pos = e;
            m.skip();
            v = quote(m, b, e);
        }
        if (got != want)
            sim::violate("scan-branch", "branch(identifier %u) is %d instead of %d", w, got, want);
        check(s, "branch(identifier)");
        same_value("branch(identifier)", result_text(r), v);
        break;
    }
    default: // context variables
        if (with_vars)
        {
            auto how = choose(6, "variable operation");
            sim::ev("variable %llu", (unsigned long long)how);
            switch (how)
            {
            case 0:
            case 1:
                how ? s.parse(the_flag.set()) : s.parse(the_flag.reset());
                if (m.st != failed)
                    m.flag = how;
                break;
            case 2:
                s.parse(the_flag.toggle());
                if (m.st != failed)
                    m.flag = !m.flag;
                break;
            case 3: {
                bool got = s.branch(the_flag.is_set());
                bool want = m.st != failed && m.flag;
                if (got != want)
                    sim::violate("scan-flag", "branch(flag is set) is %d instead of %d", got, want);
                break;
            }
            case 4:
                s.parse(the_counter.inc());
                if (m.st != failed)
                    ++m.counter;
                break;
            default: {
                auto r = s.template parse<int>(the_counter.value());
                mvalue v;
                if (m.st != failed)
                    v = std::to_string(m.counter);
                same_value("counter value", r ? std::to_string(r.value()) : "none", v);
                break;
            }
            }
            check(s, "variable operation");
            break;
        }
        else
        {
            sim::ev("position, end of input");
            bool end = s.branch(dsl::eof);
            if (end != (m.st != failed && m.pos == m.t.size()) || s.peek(dsl::eof) != end)
                sim::violate("scan-branch", "branch(eof) is %d at %zu of %zu", end, m.pos, m.t.size());
            if (m.pos == m.t.size())
                s.parse(dsl::eof);
            auto r = s.template parse<decltype(s.position())>(dsl::position);
            same_value("position", r ? num(offset_of(r.value(), "position")) : "none", m.st == failed ? mvalue() : mvalue(num(m.pos)));
            check(s, "parse(position)");
        }
        break;
    }
}

template <typename S>
void program(S& s, unsigned ops)
{
    for (unsigned i = 0; i < ops && budget > 0; ++i)
    {
        --budget;
        one_op(s);
    }
}

// The body of every scan function.
template <typename Context, typename Reader>
lexy::scan_result<Val> body(lexy::rule_scanner<Context, Reader>& s, const char* name)
{
    auto&   m = *cur;
    std::optional<in_prod> p;
    if (level > 0) // the root is there already
        p.emplace(m, name);
    auto begin = m.pos;
    ++level;
    m.st = ok;
    if (s.recursion_depth() != std::size_t(m.depth))
        sim::violate("scan-depth", "recursion_depth() is %zu instead of %d", s.recursion_depth(), m.depth);
    check(s, "entering a scan function");
    program(s, unsigned(sim::small(level == 1 ? 12 : 5, "operations")));
    if (s.recursion_depth() != std::size_t(m.depth))
        sim::violate("scan-depth", "recursion_depth() is %zu instead of %d", s.recursion_depth(), m.depth);
    if (offset_of(s.begin(), "begin()") != begin)
        sim::violate("scan-begin", "begin() is %zu instead of %zu", offset_of(s.begin(), "begin()"), begin);
    --level;
    // What is returned decides, whatever the state.
    bool success = sim::chance(15, "result against the state") ? m.st != ok : m.st == ok;
    sim::ev("returns %d", success);
    if (success != (m.st == ok))
        sim::fault("result-against-state");
    if (p)
        p->finished = success;
    if (!success)
    {
        sub_result.reset();
        return choose(2, "how it fails") ? lexy::scan_result<Val>() : lexy::scan_result<Val>(lexy::scan_failed);
    }
    sub_result = std::string(name) + "@" + num(begin) + "-" + num(m.pos) + " and some more text";
    if (choose(2, "keep the value"))
    {
        // Made from a value that the scan function goes on using.
        Val                    kept(*sub_result);
        lexy::scan_result<Val> r(kept);
        if (kept.check(); kept.text != *sub_result)
            sim::violate("scan-steals", "making a result from a variable changed the variable");
        return r;
    }
    return Val(*sub_result);
}
template <typename Context, typename Reader>
sub::scan_result sub::scan(lexy::rule_scanner<Context, Reader>& s)
{
    return body(s, "sub");
}

//=== the ways to get a scanner ===//
struct ctl
{
    static constexpr auto max_recursion_depth = c11::max_depth;
};
struct ctl_ws
{
    static constexpr auto max_recursion_depth = c11::max_depth;
    static constexpr auto whitespace          = dsl::ascii::blank;
};
struct root : lexy::scan_production<Val>
{
    static constexpr auto name                = "root";
    static constexpr auto max_recursion_depth = c11::max_depth;
    template <typename Context, typename Reader>
    static scan_result scan(lexy::rule_scanner<Context, Reader>& s)
    {
        return body(s, "root");
    }
};
// Rules around the scan function: whatever it consumed, they continue there.
struct root_ws
{
    static constexpr auto name                = "root_ws";
    static constexpr auto max_recursion_depth = c11::max_depth;
    static constexpr auto whitespace          = dsl::ascii::blank;
    static constexpr auto rule = the_flag.create() + the_counter.create() + dsl::if_(dsl::lit_c<'='>) + dsl::position + dsl::scan + dsl::opt(dsl::lit_c<'!'> >> dsl::position) + the_flag.value() + the_counter.value();
    static constexpr auto value = mk<"root_ws">;
    using scan_result           = lexy::scan_result<Val>;
    template <typename Context, typename Reader, typename Arg>
    static scan_result scan(lexy::rule_scanner<Context, Reader>& s, State& state, Arg arg)
    {
        if (++state.uses != 1)
            sim::violate("scan-state-object", "the state object is not the caller's");
        std::string text;
        desc(text, arg);
        if (text != "@" + num(cur->pos))
            sim::violate("scan-arguments", "the scan function gets %s at %zu", text.c_str(), cur->pos);
        return body(s, "root_ws");
    }
};
} // namespace c11

namespace c11
{
inline void compare_errors(const error_list& got, const Model& m)
{
    for (std::size_t i = 0; i < std::max(got.size(), m.errs.size()); ++i)
        if (i >= got.size() || i >= m.errs.size() || got[i] != m.errs[i])
            sim::violate("scan-errors", "error %zu is %s instead of %s", i, i < got.size() ? got[i].c_str() : "missing",
                         i < m.errs.size() ? m.errs[i].c_str() : "none");
}
template <typename Result>
void compare_status(const Result& r, bool is_ok, const Model& m)
{
    auto want = is_ok ? m.errs.empty() ? "success" : "recovered" : "fatal";
    if (status_of(r) != want)
        sim::violate("scan-status", "the result is %s instead of %s", status_of(r).c_str(), want);
    compare_errors(r.errors(), m);
}

// A parse whose root is scanned by hand.
template <typename P, unsigned Action, typename Input, typename It>
void by_rule(const Input& input, It begin, Model& m)
{
    constexpr bool is_ws = std::is_same_v<P, root_ws>;
    // What surrounds the scan function is modelled here; the scan function's own model runs inside.
    m.ws      = is_ws;
    with_vars = is_ws;
    State state;
    err_t err{&input};
    auto  act = [&](auto f) {
        if constexpr (is_ws)
            return f(state);
        else
            return f();
    };
    in_prod p(m, P::name);
    std::size_t start = m.pos;
    m.skip();
    if (is_ws && m.at('='))
        p_token(m, m_lit(m, "="));
    // The production starts where the action starts.
    auto after = [&]() -> mvalue {
        if (!sub_result)
            return std::nullopt;
        std::string v = std::string(P::name) + "(";
        if constexpr (!is_ws)
            return *sub_result;
        else
        {
            v += *sub_result + ",";
            if (m.at('!'))
            {
                p_token(m, m_lit(m, "!"));
                v += "@" + num(m.pos) + ",";
            }
            else
                v += "null,";
            return v + (m.flag ? "true," : "false,") + std::to_string(m.counter) + ",)";
        }
    };
    (void)start;
    sim::ev("root %s action %u", P::name, Action);
    if constexpr (Action == 0)
    {
        auto r = act([&](auto&... st) { return lexy::validate<P>(input, st..., err); });
        auto v = after();
        compare_status(r, v.has_value(), m);
    }
    else if constexpr (Action == 1)
    {
        auto        r = act([&](auto&... st) { return lexy::parse<P>(input, st..., err); });
        auto        v = after();
        std::string got = "none";
        compare_status(r, v.has_value(), m);
        if (r.has_value())
            got = r.value().text;
        same_value("the parse", got, v);
    }
    else if constexpr (Action == 2)
    {
        bool r = act([&](auto&... st) { return lexy::match<P>(input, st...); });
        auto v = after();
        if (r != (v && m.errs.empty()))
            sim::violate("scan-status", "match() is %d instead of %d", r, v.has_value());
    }
    else
    {
        lexy::parse_tree_for<Input> tree;
        auto r = act([&](auto&... st) { return lexy::parse_as_tree<P>(tree, input, st..., err); });
        auto v = after();
        compare_status(r, v.has_value(), m);
        if (!v)
            sim::check_empty(tree, "not built");
        else
        {
            sim::offsets<It> off{begin, m.t.size()};
            auto             t = sim::read_tree(tree, off, true);
            sim::check_lossless(t, m.t.size(), true);
            std::vector<const sim::mnode*> toks;
            t.root.tokens(toks);
            // Error tokens that follow each other are one or several, as the tree likes.
            auto merged = [](const std::vector<mtok>& v) {
                std::vector<mtok> r;
                for (auto& k : v)
                    if (!r.empty() && r.back().kind == 'e' && k.kind == 'e')
                        r.back().end = k.end;
                    else
                        r.push_back(k);
                return r;
            };
            std::vector<mtok> got;
            for (auto k : toks)
                if (k->begin != k->end)
                    got.push_back({k->kind == "error token" ? 'e' : k->kind == "whitespace" ? 'w' : 't', k->begin, k->end});
            auto have = merged(got), want = merged(m.toks);
            for (std::size_t i = 0; i < std::max(have.size(), want.size()); ++i)
                if (i >= have.size() || i >= want.size() || !(have[i] == want[i]))
                {
                    mtok none{'-', 0, 0}, h = i < have.size() ? have[i] : none, w = i < want.size() ? want[i] : none;
                    sim::violate("scan-tokens", "token %zu of the tree is %c[%zu,%zu), expected %c[%zu,%zu)", i, h.kind, h.begin, h.end, w.kind, w.begin, w.end);
                }
            if (t.rest_begin != m.pos)
                sim::violate("scan-position", "the parse ended at %zu instead of %zu", t.rest_begin, m.pos);
        }
    }
    sim::state(sim::hash(std::string(P::name) + num(m.errs.size()) + "/" + num(m.pos) + "/" + num(m.toks.size()) + (sub_result ? "s" : "f")));
}

// A scanner over the whole input.
template <typename Control, bool WithState, typename Input>
void by_scanner(const Input& input, Model& m)
{
    m.ws      = std::is_same_v<Control, ctl_ws>;
    with_vars = false;
    err_t err{&input};
    State state;
    auto  go = [&](auto&& scanner) {
        in_prod p(m, "scanner control production");
        check(scanner, "creating the scanner");
        program(scanner, unsigned(sim::small(20, "operations")));
        auto r = std::move(scanner).finish();
        compare_status(r, m.st == ok, m);
    };
    level = 1;
    sim::ev("scanner, whitespace %d", m.ws);
    if constexpr (WithState)
        go(lexy::scan<Control>(input, state, err));
    else
        go(lexy::scan<Control>(input, err));
    sim::state(sim::hash("scanner" + num(m.errs.size()) + "/" + num(m.pos) + "/" + num(m.toks.size()) + num(m.st)));
}

//=== drivers: one per translation unit ===//
using driver = void (*)(Model&);
inline std::vector<std::pair<std::string, driver>>& drivers()
{
    static std::vector<std::pair<std::string, driver>> d;
    return d;
}
using enc = lexy::utf8_char_encoding;
template <typename F>
void on_string(Model& m, F f)
{
    std::unique_ptr<char[]> data(new char[m.t.size()]);
    std::copy(m.t.begin(), m.t.end(), data.get());
    lexy::string_input<enc> input(data.get(), m.t.size());
    at_input<const char*>   here(data.get(), m.t.size());
    f(input, static_cast<const char*>(data.get()));
}
template <typename F>
void on_custom(Model& m, F f)
{
    chk_input<enc>              input(m.t);
    at_input<chk_iterator<enc>> here(input.begin(), m.t.size());
    f(input, input.begin());
}
template <typename F>
void on_list(Model& m, F f)
{
    using It = typename std::list<char>::const_iterator;
    std::list<char>            l(m.t.begin(), m.t.end());
    lexy::range_input<enc, It> input(l.cbegin(), l.cend());
    at_input<It>               here(l.cbegin(), m.t.size());
    f(input, l.cbegin());
}
#define DRIVER(Name, On, ...)                                                                                          \
    static bool reg_##Name = [] {                                                                                      \
        c11::drivers().emplace_back(#Name, [](c11::Model& m) { c11::On(m, [&](const auto& input, auto begin) { __VA_ARGS__; }); }); \
        return true;                                                                                                   \
    }();
} // namespace c11
