#include HARNESS_OPS
namespace g_look
{
namespace dsl = lexy::dsl;
using namespace gram;
struct tag
{
    static constexpr auto name = "tag";
};
struct la
{
    static constexpr auto rule  = dsl::lookahead(LEXY_LIT("=>"), dsl::newline) >> dsl::capture(dsl::until(LEXY_LIT("=>")));
    static constexpr auto value = mk<"la">;
};
struct pk
{
    static constexpr auto rule  = dsl::peek(LEXY_LIT("abc") + dsl::digits<>) >> dsl::capture(dsl::token(dsl::while_(dsl::ascii::character - dsl::ascii::newline)));
    static constexpr auto value = mk<"pk">;
};
struct lp
{
    static constexpr auto rule  = LEXY_LIT("loop") >> dsl::loop(dsl::lit_c<'.'> | dsl::lit_c<'!'> >> dsl::break_ | dsl::lit_c<'x'> >> (dsl::lit_c<'y'> | dsl::error<tag>)) + dsl::position;
    static constexpr auto value = mk<"lp">;
};
struct dw
{
    static constexpr auto rule  = LEXY_LIT("dw") >> dsl::do_while(dsl::ascii::digit, dsl::comma) + dsl::position;
    static constexpr auto value = mk<"dw">;
};
struct wo
{
    static constexpr auto rule  = LEXY_LIT("wo") >> (dsl::while_one(dsl::lit_c<'a'> >> dsl::lit_c<'b'>) | dsl::else_ >> dsl::lit_c<'z'>) + dsl::position;
    static constexpr auto value = mk<"wo">;
};
struct un
{
    static constexpr auto rule  = LEXY_LIT("un") >> dsl::capture(dsl::until(dsl::lit_c<'#'> / dsl::lit_c<'%'>).or_eof());
    static constexpr auto value = mk<"un">;
};
struct pn
{
    static constexpr auto rule  = LEXY_LIT("pn") >> dsl::peek_not(dsl::lit_c<'!'>).error<tag> + dsl::peek(dsl::ascii::digit).error<tag> + dsl::integer<int>;
    static constexpr auto value = mk<"pn">;
};
struct op
{
    static constexpr auto rule  = LEXY_LIT("op") >> dsl::opt(dsl::lookahead(dsl::lit_c<'?'>, dsl::lit_c<';'>) >> dsl::capture(dsl::until(dsl::lit_c<'?'>))) + dsl::if_(dsl::semicolon);
    static constexpr auto value = mk<"op">;
};
struct mst
{
    static constexpr auto rule  = LEXY_LIT("mu") >> dsl::must(dsl::lit_c<'1'> | dsl::lit_c<'2'>).error<tag> + dsl::opt(dsl::lit_c<'3'> >> dsl::position);
    static constexpr auto value = mk<"mst">;
};
struct production
{
    static constexpr auto rule  = dsl::list(dsl::p<lp> | dsl::p<dw> | dsl::p<wo> | dsl::p<un> | dsl::p<pn> | dsl::p<op> | dsl::p<mst> | dsl::p<pk> | dsl::p<la>, dsl::sep(dsl::ascii::newline));
    static constexpr auto value = lst<"l"> >> mk<"look">;
};
} // namespace g_look
using gram::T;
#define LOOK_SAMPLES T("loop....xyxy!\ndw1,2,3\nwoababab", "un some text until # here", "pn12\nopabc?;\nop\nmu13", "abc123 rest\nfoo bar => x", "loop..x", "dw1,x", "woaba", "no arrow\n", "pn!\npnx\nmu4", "abcx => y", "un a long text without any end marker at all", "op not;?")
#define LOOK_SNIPPETS T("loop", ".", "!", "x", "y", "dw", "1", ",", "wo", "ab", "z", "un", "#", "%", "pn", "op", "?", ";", "mu", "3", "abc", "abc1", "=>", "\n", "\r\n", "\r", "long text long text")
GRAMMAR(look, g_look::production, lexy::utf8_encoding, LOOK_SAMPLES, LOOK_SNIPPETS)
#ifdef ALL_ENCODINGS
GRAMMAR(look32, g_look::production, lexy::utf32_encoding, LOOK_SAMPLES, LOOK_SNIPPETS)
#endif
