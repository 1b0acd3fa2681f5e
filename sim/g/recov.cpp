#include HARNESS_OPS
namespace g_recov
{
namespace dsl = lexy::dsl;
using namespace gram;
struct tag
{
    static constexpr auto name = "tag";
};
struct word
{
    static constexpr auto rule  = dsl::capture(dsl::token(dsl::while_one(dsl::ascii::alpha)));
    static constexpr auto value = mk<"w">;
};
struct assign
{
    static constexpr auto rule = dsl::p<word> >> dsl::try_(dsl::lit_c<'='>, dsl::nullopt) + dsl::try_(dsl::integer<int>, dsl::find(dsl::semicolon).limit(dsl::lit_c<'}'>));
    static constexpr auto value = mk<"assign">;
};
struct block
{
    static constexpr auto rule  = dsl::curly_bracketed.limit(dsl::lit_c<'#'>).opt_list(dsl::recurse<struct stmt>);
    static constexpr auto value = lst<"b"> >> mk<"block">;
};
struct stmt
{
    static constexpr auto rule = [] {
        auto s = dsl::p<block> | LEXY_LIT("!") >> dsl::error<tag> | LEXY_LIT("?") >> dsl::error<tag>(dsl::while_(dsl::ascii::digit)) | dsl::p<assign> >> dsl::must(dsl::semicolon).error<tag>;
        return s;
    }();
    static constexpr auto value = mk<"stmt">;
};
struct trans : lexy::transparent_production
{
    static constexpr auto rule  = LEXY_LIT("a") + LEXY_LIT("b") + dsl::p<word>;
    static constexpr auto value = mk<"trans">;
};
struct rec
{
    static constexpr auto rule  = dsl::lit_c<'@'> >> dsl::try_(dsl::p<trans>, dsl::recover(LEXY_LIT("!!"), dsl::lit_c<'0'> >> dsl::capture(dsl::ascii::digit)).limit(dsl::semicolon)) + dsl::position;
    static constexpr auto value = mk<"rec">;
};
struct inner
{
    static constexpr auto rule  = dsl::lit_c<'%'> >> dsl::terminator(dsl::semicolon)(dsl::p<word> + dsl::comma + dsl::p<word>);
    static constexpr auto value = mk<"inner">;
};
struct production
{
    static constexpr auto max_recursion_depth = 8;
    static constexpr auto whitespace          = dsl::ascii::blank;
    static constexpr auto rule  = dsl::terminator(dsl::eof).list(dsl::p<rec> | dsl::p<inner> | dsl::else_ >> dsl::p<stmt>, dsl::sep(dsl::newline));
    static constexpr auto value = lst<"l"> >> mk<"recov">;
};
} // namespace g_recov
using gram::T;
GRAMMAR(recov, g_recov::production, lexy::utf8_char_encoding,
        T("a=1;\n{b=2;c=3;}\n@abx", "a 1;\na=x;\n{a=x}", "{a=1;{b=x;}!c=2;}\n?123\n@ax!!\n@ax 05", "%a,b;\n%a b;\n%a,;\n%x", "@ac;\n@abc\n@\n", "{{{{{{{{{{a=1;}}}", "{a=1; # }", "@a!!", "@ab 1 !! x"),
        T("=", ";", "{", "}", "!", "?", "#", "@", "ab", "abx", "!!", "0", "05", "%", ",", "a", "1", "\n", " "))
#ifdef ALL_ENCODINGS
GRAMMAR(recov32, g_recov::production, lexy::utf32_encoding,
        T("a=1;\n{b=2;c=3;}\n@abx", "a 1;\na=x;\n{a=x}", "{a=1;{b=x;}!c=2;}\n?123\n@ax!!\n@ax 05", "%a,b;\n%a b;\n%a,;\n%x", "@ac;\n@abc\n@\n", "{{{{{{{{{{a=1;}}}", "{a=1; # }", "@a!!", "@ab 1 !! x"),
        T("=", ";", "{", "}", "!", "?", "#", "@", "ab", "abx", "!!", "0", "05", "%", ",", "a", "1", "\n", " "))
#endif
