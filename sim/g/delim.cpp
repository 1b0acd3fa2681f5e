#include HARNESS_OPS
namespace g_delim
{
namespace dsl = lexy::dsl;
using namespace gram;
struct bad
{
    static constexpr auto name = "bad character";
};
struct bad_escape
{
    static constexpr auto name = "bad escape";
};
struct sq
{
    static constexpr auto table = lexy::symbol_table<char>.map<'n'>('\n').map<'\''>('\'').map(LEXY_LIT("long"), 'L');
    static constexpr auto rule  = dsl::single_quoted(dsl::ascii::print.error<bad>, dsl::backslash_escape.symbol<table>().rule(dsl::lit_c<'x'> >> dsl::code_point_id<2>));
    static constexpr auto value = lexy::as_string<std::string, lexy::utf8_char_encoding> >> mk<"sq">;
};
// A production inside of a delimited.
struct inner
{
    static constexpr auto rule  = dsl::identifier(dsl::ascii::alpha);
    static constexpr auto value = mk<"inner">;
};
struct tq
{
    static constexpr auto rule  = dsl::triple_quoted(dsl::code_point, dsl::escape(dsl::dollar_sign).rule(dsl::lit_c<'{'> >> dsl::p<inner> + dsl::lit_c<'}'>).capture(dsl::ascii::alpha));
    static constexpr auto value = lst<"tq"> >> mk<"triple">;
};
struct dq
{
    static constexpr auto rule  = dsl::quoted.limit(dsl::ascii::newline)(dsl::ascii::character, dsl::backslash_escape.capture(dsl::ascii::character));
    static constexpr auto value = lexy::as_string<std::string> >> mk<"dq">;
};
struct bt
{
    static constexpr auto rule  = dsl::backticked(-dsl::ascii::control);
    static constexpr auto value = lexy::as_list<std::vector<Val>> >> mk<"bt">;
};
struct lex_to_val
{
    static constexpr auto rule  = dsl::delimited(LEXY_LIT("[["), LEXY_LIT("]]"))(dsl::ascii::alnum);
    static constexpr auto value = lst<"brk"> >> mk<"brk">;
};
struct word_del
{
    static constexpr auto rule  = dsl::delimited(dsl::lit_c<'|'>)(dsl::ascii::word.error<bad>);
    static constexpr auto value = lst<"word"> >> mk<"word">;
};
struct graph_del
{
    static constexpr auto rule  = dsl::delimited(dsl::lit_c<'%'>, LEXY_LIT("%%"))(dsl::ascii::graph / dsl::ascii::blank);
    static constexpr auto value = lst<"graph"> >> mk<"graph">;
};
struct fold
{
    static constexpr auto rule  = dsl::delimited(LEXY_LIT("<"), LEXY_LIT(">"))(dsl::ascii::digit.error<bad>);
    static constexpr auto value = lexy::fold_inplace<std::string>([] { return std::string("f"); }, [](std::string& s, auto lex) { point("callback"); desc(s, lex); }) >> mk<"fold">;
};
struct cfd
{
    static constexpr auto rule  = dsl::delimited(dsl::lit_c<'{'>, dsl::ascii::case_folding(LEXY_LIT("end}")))(dsl::ascii::print.error<bad>);
    static constexpr auto value = lst<"cfd"> >> mk<"cfd">;
};
struct cfe
{
    static constexpr auto rule  = dsl::delimited(dsl::lit_c<'('>, dsl::lit_c<')'>)(dsl::ascii::alnum, dsl::escape(dsl::ascii::case_folding(LEXY_LIT("x"))).capture(dsl::ascii::digit));
    static constexpr auto value = lst<"cfe"> >> mk<"cfe">;
};
struct production
{
    static constexpr auto whitespace = dsl::ascii::space;
    static constexpr auto rule       = dsl::list(dsl::p<tq> | dsl::p<dq> | dsl::p<sq> | dsl::p<lex_to_val> | dsl::p<word_del> | dsl::p<graph_del> | dsl::p<cfd> | dsl::p<cfe> | dsl::p<fold>) + dsl::eof;
    static constexpr auto value      = lst<"l"> >> mk<"delim">;
};
} // namespace g_delim
using gram::T;
GRAMMAR(delim, g_delim::production, lexy::utf8_char_encoding,
        T("'abc\\n\\x41def\\longxyz' \"a string of some length\\\" and more\"", "\"\"\"triple $a \" \"\" \xC3\xA4 end\"\"\" [[abc123]] |word_9|", "%a b c%d e%% <12345678901234567>",
          "'unterminated text here", "\"line\nbreak\"", "'\\q' 'a\tb' '\x7f'", "|under_score and space|", "\"\"\"$1\"\"\" \"\"\"\"\"\"", "'\xC3\xA4\xC3\xB6\xC3\xBC'", "[[abc]def]]", "<12a4>", "{some text END} {eNd} {ENDEND}", "(abcdefghX1abcx2defghijklmn)", "\"\"\"a\nb${word} c\n${d}\"\"\"", "\"\"\"a\n${word} $\n$a${b"),
        T("'", "\"", "\"\"\"", "\\", "\\n", "\\x4", "\\long", "$a", "$", "${ab}", "${", "}", "[[", "]]", "]", "|", "%", "%%", "<", ">", "{", "end}", "END}", "(", "x1", "X1", ")", "abcdefgh", "12345678", "        ", "\n", "\t", "\x7f", "\x01", "\xC3\xA4", "\xF0\x9F\x98\x80"))
