#include HARNESS_OPS
namespace g_json
{
namespace dsl = lexy::dsl;
using namespace gram;
struct value_;

struct null : lexy::token_production
{
    static constexpr auto rule  = LEXY_LIT("null");
    static constexpr auto value = mk<"null">;
};
struct boolean : lexy::token_production
{
    struct true_ : lexy::transparent_production
    {
        static constexpr auto rule  = LEXY_LIT("true");
        static constexpr auto value = mk<"true">;
    };
    struct false_ : lexy::transparent_production
    {
        static constexpr auto rule  = LEXY_LIT("false");
        static constexpr auto value = mk<"false">;
    };
    static constexpr auto rule  = dsl::p<true_> | dsl::p<false_>;
    static constexpr auto value = mk<"bool">;
};
struct number : lexy::token_production
{
    struct integer : lexy::transparent_production
    {
        static constexpr auto rule = dsl::minus_sign + dsl::integer<std::int64_t>(dsl::digits<>.no_leading_zero());
        static constexpr auto value = mk<"int">;
    };
    struct fraction : lexy::transparent_production
    {
        static constexpr auto rule  = dsl::lit_c<'.'> >> dsl::capture(dsl::digits<>);
        static constexpr auto value = mk<"frac">;
    };
    struct exponent : lexy::transparent_production
    {
        static constexpr auto rule
            = (dsl::lit_c<'e'> | dsl::lit_c<'E'>) >> dsl::sign + dsl::integer<std::int16_t>;
        static constexpr auto value = mk<"exp">;
    };
    static constexpr auto rule  = dsl::peek(dsl::lit_c<'-'> / dsl::digit<>) >> dsl::p<integer> + dsl::opt(dsl::p<fraction>) + dsl::opt(dsl::p<exponent>);
    static constexpr auto value = mk<"number">;
};
struct string : lexy::token_production
{
    struct invalid_char
    {
        static constexpr auto name = "invalid character in string";
    };
    static constexpr auto escapes = lexy::symbol_table<char>.map<'"'>('"').map<'\\'>('\\').map<'n'>('\n').map<'t'>('\t');
    struct code_point_id
    {
        static constexpr auto rule  = dsl::lit_c<'u'> >> dsl::code_point_id<4>;
        static constexpr auto value = lexy::construct<lexy::code_point>;
    };
    static constexpr auto rule = [] {
        auto cp     = (-dsl::unicode::control).error<invalid_char>;
        auto escape = dsl::backslash_escape.symbol<escapes>().rule(dsl::p<code_point_id>);
        return dsl::quoted(cp, escape);
    }();
    static constexpr auto value = lexy::as_string<std::string, lexy::utf8_encoding> >> mk<"str">;
};
struct array
{
    static constexpr auto rule  = dsl::square_bracketed.opt_list(dsl::recurse<value_>, dsl::sep(dsl::comma));
    static constexpr auto value = lst<"arr"> >> mk<"array">;
};
struct object
{
    struct member
    {
        static constexpr auto rule  = dsl::p<string> + dsl::try_(dsl::colon) + dsl::recurse<value_>;
        static constexpr auto value = mk<"member">;
    };
    static constexpr auto rule  = dsl::curly_bracketed.opt_list(dsl::try_(dsl::p<member>), dsl::sep(dsl::comma));
    static constexpr auto value = lst<"obj"> >> mk<"object">;
};
struct value_ : lexy::transparent_production
{
    struct expected
    {
        static constexpr auto name = "expected json value";
    };
    static constexpr auto rule  = dsl::p<null> | dsl::p<boolean> | dsl::p<number> | dsl::p<string> | dsl::p<object> | dsl::p<array> | dsl::error<expected>;
    static constexpr auto value = lexy::forward<Val>;
};
struct production
{
    static constexpr auto max_recursion_depth = 12;
    static constexpr auto whitespace          = dsl::ascii::space / dsl::ascii::newline;
    static constexpr auto rule                = dsl::p<value_> + dsl::eof;
    static constexpr auto value               = mk<"json">;
};
} // namespace g_json
using gram::T;
GRAMMAR(json, g_json::production, lexy::utf8_encoding,
        T("{\"a\": [1, -2.5e+3, true, null], \"b\\n\": {\"\\u00e4\": \"\xC3\xA4\"}}", "[[[[[]]]]]", "{\"a\" 1, : 3, \"c\": 4}",
          "  [ \"long string without escapes 0123456789\", 123456789012345678 ]\n", "{\"a\":[1 2],\"b\":}", "nul", "\"\\u12"),
        T("{", "}", "[", "]", ",", ":", "\"", "\\", "\\u0041", "null", "true", "fals", "-", "1e5", ".5", "        ", "\"x\": 1", "[1,2,3]",
          "99999999999999999999"))
