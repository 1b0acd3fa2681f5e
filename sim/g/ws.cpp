#include HARNESS_OPS
namespace g_ws
{
namespace dsl = lexy::dsl;
using namespace gram;
struct word
{
    static constexpr auto rule  = dsl::identifier(dsl::ascii::alpha, dsl::ascii::alnum);
    static constexpr auto value = mk<"w">;
};
struct num : lexy::token_production
{
    static constexpr auto rule  = dsl::sign + dsl::integer<int> + dsl::opt(dsl::period >> dsl::capture(dsl::digits<>));
    static constexpr auto value = mk<"num">;
};
struct tight : lexy::token_production
{
    struct part
    {
        static constexpr auto rule  = dsl::capture(dsl::token(dsl::ascii::lower + dsl::while_(dsl::ascii::lower)));
        static constexpr auto value = mk<"part">;
    };
    static constexpr auto rule  = dsl::lit_c<'#'> >> dsl::list(dsl::p<part>, dsl::sep(dsl::lit_c<'-'>));
    static constexpr auto value = lst<"tight"> >> mk<"tight">;
};
struct odd_ws
{
    static constexpr auto whitespace = dsl::lit_c<'_'> | dsl::lit_c<'~'> >> dsl::lit_c<'~'>;
    static constexpr auto rule       = LEXY_LIT("odd") + dsl::p<word> + dsl::colon + dsl::p<tight> + dsl::exclamation_mark;
    static constexpr auto value      = mk<"odd">;
};
struct nows
{
    static constexpr auto rule  = dsl::lit_c<'$'> >> dsl::no_whitespace(dsl::list(dsl::capture(dsl::ascii::digit), dsl::sep(dsl::lit_c<':'>))) + dsl::semicolon;
    static constexpr auto value = lst<"nows"> >> mk<"nows">;
};
struct manual
{
    static constexpr auto rule  = dsl::lit_c<'%'> >> dsl::whitespace(dsl::lit_c<'*'> / dsl::lit_c<'+'> | dsl::lit_c<'('> >> dsl::until(dsl::lit_c<')'>)) + dsl::p<word> + dsl::position;
    static constexpr auto value = mk<"manual">;
};
struct block
{
    static constexpr auto rule  = dsl::curly_bracketed.opt_list(dsl::recurse<struct item>, dsl::ignore_trailing_sep(dsl::comma));
    static constexpr auto value = lst<"b"> >> mk<"block">;
};
struct item
{
    static constexpr auto rule  = dsl::p<tight> | dsl::p<nows> | dsl::p<manual> | dsl::p<block> | dsl::peek(LEXY_LIT("odd")) >> dsl::p<odd_ws> | dsl::p<word> | dsl::else_ >> dsl::p<num>;
    static constexpr auto value = mk<"item">;
};
struct production
{
    static constexpr auto max_recursion_depth = 6;
    static constexpr auto whitespace = dsl::ascii::blank | LEXY_LIT("//") >> dsl::until(dsl::newline).or_eof() | LEXY_LIT("/*") >> dsl::until(LEXY_LIT("*/")) | dsl::newline;
    static constexpr auto rule       = dsl::list(dsl::p<item>, dsl::sep(dsl::semicolon)) + dsl::eof;
    static constexpr auto value      = lst<"l"> >> mk<"ws">;
};
} // namespace g_ws
using gram::T;
GRAMMAR(ws, g_ws::production, lexy::ascii_encoding,
        T("abc ; +12.5; // comment\n #a-bc-d ; /* c */ { a , b , } ", "odd_~~ab_c_:#x-y_!;x", "$1:2:3 ; a; $1 :2;", "%*+*word  /**/ ;{a,{b,{c,{d,{e,{f,{g}}}}}}}", "  \n\n// only a comment", "/* open", "%(x)*(y)z; %+(x", "{a b}", "- 12", "odd~abc:#a!", "a;b;//x"),
        T(" ", "\n", "//", "/*", "*/", "odd", "_", "~~", "~", "#a", "-", "$1", ":", "%", "(", ")", "*", "+", "{", "}", ",", ";", "!", ".", "12", "abc", "a"))
#ifdef ALL_ENCODINGS
GRAMMAR(ws32, g_ws::production, lexy::utf32_encoding,
        T("abc ; +12.5; // comment\n #a-bc-d ; /* c */ { a , b , } ", "odd_~~ab_c_:#x-y_!;x", "$1:2:3 ; a; $1 :2;", "%*+*word  /**/ ;{a,{b,{c,{d,{e,{f,{g}}}}}}}", "  \n\n// only a comment", "/* open", "%(x)*(y)z; %+(x", "{a b}", "- 12", "odd~abc:#a!", "a;b;//x"),
        T(" ", "\n", "//", "/*", "*/", "odd", "_", "~~", "~", "#a", "-", "$1", ":", "%", "(", ")", "*", "+", "{", "}", ",", ";", "!", ".", "12", "abc", "a"))
#endif
