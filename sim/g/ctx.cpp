#include HARNESS_OPS
namespace g_ctx
{
namespace dsl = lexy::dsl;
using namespace gram;
struct unequal
{
    static constexpr auto name = "unequal";
};
struct raw
{
    static constexpr auto id   = dsl::context_identifier<struct rid>(dsl::identifier(dsl::ascii::alpha));
    static constexpr auto rule = LEXY_LIT("R") >> id.create() + id.capture() + dsl::lit_c<'('> + dsl::list(dsl::capture(dsl::ascii::digit) | dsl::peek_not(dsl::lit_c<')'> + dsl::ascii::alpha) >> dsl::capture(dsl::ascii::punct)) + dsl::lit_c<')'> + id.rematch().error<unequal>;
    static constexpr auto value = both<"raw">;
};
struct count
{
    static constexpr auto c = dsl::context_counter<struct cid>;
    static constexpr auto d = dsl::context_counter<struct did>;
    static constexpr auto rule = LEXY_LIT("C") >> c.create() + d.create<3>() + dsl::while_(dsl::lit_c<'a'> >> c.inc() | dsl::lit_c<'b'> >> d.inc() | dsl::lit_c<'c'> >> c.dec()) + (c.is<2>() >> dsl::lit_c<'!'> | d.is_zero() >> dsl::lit_c<'?'> | dsl::equal_counts(c, d) >> dsl::lit_c<'='> | dsl::else_ >> dsl::position) + c.value() + d.value();
    static constexpr auto value = mk<"count">;
};
struct push
{
    static constexpr auto c = dsl::context_counter<struct pid>;
    static constexpr auto rule = LEXY_LIT("P") >> c.create() + c.push(dsl::while_(dsl::lit_c<'<'>)) + dsl::capture(dsl::token(dsl::while_(dsl::ascii::lower))) + c.pop(dsl::while_(dsl::lit_c<'>'>)) + (c.is_zero() | dsl::error<unequal>) + c.value();
    static constexpr auto value = mk<"push">;
};
struct flag
{
    static constexpr auto f = dsl::context_flag<struct fid>;
    static constexpr auto rule = LEXY_LIT("F") >> f.create() + dsl::while_(dsl::lit_c<'t'> >> f.toggle() | dsl::lit_c<'s'> >> f.set() | dsl::lit_c<'r'> >> f.reset()) + dsl::if_(f.is_set() >> dsl::lit_c<'!'>) + dsl::if_(f.is_reset() >> dsl::lit_c<'?'>) + f.value();
    static constexpr auto value = mk<"flag">;
};
struct nest
{
    static constexpr auto c    = dsl::context_counter<struct cid>;
    static constexpr auto rule = dsl::square_bracketed(c.create<7>() + dsl::list(dsl::recurse_branch<struct any_>) + c.inc() + c.value());
    static constexpr auto value = both<"nest">;
};
struct any_
{
    static constexpr auto rule  = dsl::p<raw> | dsl::p<count> | dsl::p<push> | dsl::p<flag> | dsl::p<nest>;
    static constexpr auto value = mk<"any">;
};
struct line
{
    static constexpr auto indent = dsl::context_counter<struct iid>;
    static constexpr auto rule   = dsl::lit_c<':'> >> dsl::repeat(dsl::integer<unsigned>(dsl::digits<>))(dsl::p<any_>);
    static constexpr auto value  = mk<"line">;
};
struct repl
{
    static constexpr auto rule   = dsl::lit_c<'*'> >> dsl::repeat(dsl::integer<unsigned>(dsl::digits<>)).list(dsl::p<any_>, dsl::sep(dsl::lit_c<','>));
    static constexpr auto value  = lst<"repl"> >> mk<"repl">;
};
struct repc
{
    static constexpr auto rule   = dsl::lit_c<'+'> >> dsl::repeat(dsl::integer<unsigned>(dsl::digits<>)).capture(dsl::ascii::alpha);
    static constexpr auto value  = mk<"repc">;
};
struct production
{
    static constexpr auto rule  = dsl::list(dsl::p<repl> | dsl::p<repc> | dsl::p<any_>, dsl::sep(dsl::newline)) + dsl::eof;
    static constexpr auto value = lst<"l"> >> mk<"ctx">;
};
} // namespace g_ctx
using gram::T;
GRAMMAR(ctx, g_ctx::production, lexy::utf8_encoding,
        T("Rabc(12)x3)abc\nCaa!\nCaaabbbb=\nCcc", "P<<<abc>>>\nP<a>>\nFtst!\nFtsr?", "[Caa!Cbc[P<x>Ca]F]\n*2Ca,Ft", "+3abc\n+5ab", "Rab(1)ac)ab", "*3F,F", "R(1)", "Ra(1)b", "[[[C]]]", "*0\n+0"),
        T("R", "abc", "(", ")", "C", "a", "b", "c", "!", "?", "=", "P", "<", ">", "F", "t", "s", "r", "[", "]", "*2", "+3", ",", "\n", "1"))
#ifdef ALL_ENCODINGS
GRAMMAR(ctx16, g_ctx::production, lexy::utf16_encoding,
        T("Rabc(12)x3)abc\nCaa!\nCaaabbbb=\nCcc", "P<<<abc>>>\nP<a>>\nFtst!\nFtsr?", "[Caa!Cbc[P<x>Ca]F]\n*2Ca,Ft", "+3abc\n+5ab", "Rab(1)ac)ab", "*3F,F", "R(1)", "Ra(1)b", "[[[C]]]", "*0\n+0"),
        T("R", "abc", "(", ")", "C", "a", "b", "c", "!", "?", "=", "P", "<", ">", "F", "t", "s", "r", "[", "]", "*2", "+3", ",", "\n", "1"))
#endif
