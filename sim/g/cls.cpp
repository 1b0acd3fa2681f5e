#include HARNESS_OPS
namespace g_cls
{
namespace dsl = lexy::dsl;
using namespace gram;
// Every character class of its own in a delimited rule, in a loop and in until().
template <str Name, typename Open, typename Class>
struct del
{
    static constexpr auto name  = Name.s;
    static constexpr auto rule  = dsl::delimited(Open{}, dsl::lit_c<'"'>)(Class{});
    static constexpr auto value = lst<Name> >> mk<Name>;
};
#define DEL(Name, C, Class)                                                                                            \
    struct Name : del<#Name, decltype(dsl::lit_c<C>), std::decay_t<decltype(Class)>>                                   \
    {};
DEL(ctl, '0', dsl::ascii::control)
DEL(low, '1', dsl::ascii::lower)
DEL(upp, '2', dsl::ascii::upper)
DEL(alp, '3', dsl::ascii::alpha)
DEL(alu, '4', dsl::ascii::alpha_underscore)
DEL(dig, '5', dsl::ascii::digit)
DEL(aln, '6', dsl::ascii::alnum)
DEL(wor, '7', dsl::ascii::word)
DEL(gra, '8', dsl::ascii::graph)
DEL(pri, '9', dsl::ascii::print)
DEL(chr, 'A', dsl::ascii::character)
DEL(any, 'B', (dsl::ascii::punct / dsl::ascii::lower))
DEL(mns, 'C', (dsl::ascii::print - dsl::lit_c<'q'>))
DEL(itc, 'K', (dsl::ascii::alnum & -dsl::ascii::upper))
constexpr auto vowel = LEXY_CHAR_CLASS("vowel", LEXY_ASCII_ONE_OF("aeiou") / dsl::ascii::upper);
DEL(vow, 'L', vowel)
DEL(oth, 'M', (dsl::ascii::other_space / dsl::ascii::alpha_digit))
struct dgs
{
    static constexpr auto rule  = dsl::lit_c<'D'> >> dsl::capture(dsl::digits<dsl::decimal>) + dsl::opt(dsl::lit_c<'b'> >> dsl::capture(dsl::digits<dsl::binary>)) + dsl::opt(dsl::lit_c<'o'> >> dsl::capture(dsl::digits<dsl::octal>)) + dsl::opt(dsl::lit_c<'x'> >> dsl::capture(dsl::digits<dsl::hex_lower>));
    static constexpr auto value = mk<"dgs">;
};
struct idn
{
    static constexpr auto rule  = dsl::lit_c<'E'> >> dsl::identifier(dsl::ascii::alpha_underscore, dsl::ascii::word);
    static constexpr auto value = mk<"idn">;
};
struct idl
{
    static constexpr auto rule  = dsl::lit_c<'F'> >> dsl::identifier(dsl::ascii::lower, dsl::ascii::lower) + dsl::opt(dsl::identifier(dsl::ascii::upper));
    static constexpr auto value = mk<"idl">;
};
struct unt
{
    static constexpr auto rule  = dsl::lit_c<'G'> >> dsl::capture(dsl::until(LEXY_LIT("end"))) + dsl::capture(dsl::until(dsl::newline).or_eof());
    static constexpr auto value = mk<"unt">;
};
struct cfc // closing delimiter in any case, escaped characters
{
    static constexpr auto rule  = dsl::delimited(dsl::lit_c<'H'>, dsl::ascii::case_folding(LEXY_LIT("Stop")))(dsl::ascii::print, dsl::escape(dsl::lit_c<'\\'>).capture(dsl::ascii::character));
    static constexpr auto value = lst<"cfc"> >> mk<"cfc">;
};
struct esc // several kinds of escape
{
    static constexpr auto table = lexy::symbol_table<char>.map<'n'>('\n').map<'t'>('\t');
    static constexpr auto rule  = dsl::delimited(dsl::lit_c<'J'>, dsl::lit_c<'"'>)(dsl::ascii::print, dsl::escape(dsl::lit_c<'\\'>).capture(dsl::ascii::character), dsl::dollar_escape.symbol<table>(), dsl::escape(LEXY_LIT("&#")).rule(dsl::digits<> >> dsl::lit_c<';'>));
    static constexpr auto value = lst<"esc"> >> mk<"esc">;
};
struct wsp
{
    static constexpr auto rule  = dsl::lit_c<'I'> >> dsl::whitespace(dsl::ascii::space / dsl::lit_c<'.'>) + dsl::position + dsl::until(dsl::ascii::newline).or_eof();
    static constexpr auto value = mk<"wsp">;
};
struct production
{
    static constexpr auto rule  = dsl::list(dsl::p<ctl> | dsl::p<low> | dsl::p<upp> | dsl::p<alp> | dsl::p<alu> | dsl::p<dig> | dsl::p<aln> | dsl::p<wor> | dsl::p<gra> | dsl::p<pri> | dsl::p<chr> | dsl::p<any> | dsl::p<mns> | dsl::p<itc> | dsl::p<vow> | dsl::p<oth> | dsl::p<dgs> | dsl::p<idn> | dsl::p<idl> | dsl::p<unt> | dsl::p<cfc> | dsl::p<esc> | dsl::p<wsp>) + dsl::capture(dsl::any);
    static constexpr auto value = lst<"l"> >> mk<"cls">;
};
} // namespace g_cls
using gram::T;
#define CLS_S T("0\x01\x02\x03\x1f\x7f\x01\x02\x03\x04\"1abcdefghijklmnopqrstuvwxyz\"2ABCDEFGHIJKLMNOPQRSTUVWXYZ\"", "3abcdXYZabcdefgh\"4abc_ABC_abcdefghi\"5012345678901234567\"60a9zAZ012345678\"", "7ab_09_AZabcdefghij\"8!~abc#$%&'()*+,\"9 !~ abc def ghi jkl\"A\x01 a\x7f abcdefghijk\"", "Babc.,;abcdefghij\"Cabc defghijklmn pqr\"D0123456789b0101010101o01234567x0123456789abcdef", "Eabc_DEF_0123456789_xyz.", "FabcdefghijklmnopABCDEFGHIJ", "Gsome text with no en but the end and more\n", "Htext sto Sto\\Stop more text sTOP", "Jabcdefgh$nijklmnopq&#12;rstuvwxyz\\\"01234567&0123456$q&#;\"", "I   \t\n ....        ....x\n", "Kab01cd23ef45gh67\"Laeiouaeiou\"Laeioub\"M\n\r\f\vabcd0123ABCD\t\"", "1abcdefg`\"", "1abcdefgh{\"", "2ABCDEFG@HIJKLMN\"", "5/0123456:\"")
#define CLS_N T("\"", "0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "A", "B", "C", "D", "E", "F", "G", "H", "I", "J", "K", "L", "M", "aeiouAEI", "\v", "\\", "$", "$n", "&#", "&#1;", "&", "abcdefgh", "ABCDEFGH", "01234567", "@", "`", "[", "{", "/", ":", "_", "\x7f", "\x1f", "\x80", "\xC3\xA4", "        ", "stop", "end", "q", "~", "!", "\n")
GRAMMAR(cls, g_cls::production, lexy::ascii_encoding, CLS_S, CLS_N)
#ifndef ONE_ENCODING
GRAMMAR(cls32, g_cls::production, lexy::utf32_encoding, CLS_S, CLS_N)
#endif
#ifdef ALL_ENCODINGS
GRAMMAR(cls16, g_cls::production, lexy::utf16_encoding, CLS_S, CLS_N)
#endif
