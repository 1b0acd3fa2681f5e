#include HARNESS_OPS
namespace g_uni
{
namespace dsl = lexy::dsl;
using namespace gram;
struct bad
{
    static constexpr auto name = "bad";
};
struct id
{
    static constexpr auto rule  = dsl::identifier(dsl::unicode::xid_start_underscore, dsl::unicode::xid_continue);
    static constexpr auto value = mk<"id">;
};
struct cps
{
    static constexpr auto rule  = dsl::lit_c<'1'> >> dsl::list(dsl::capture(dsl::code_point.range<0x80, 0x20AC>()) | dsl::capture(dsl::code_point.noncharacter()) | dsl::capture(dsl::code_point.set<0x1F600, 0x41>()));
    static constexpr auto value = lst<"cps"> >> mk<"cps">;
};
struct cf
{
    static constexpr auto rule  = dsl::lit_c<'2'> >> dsl::unicode::simple_case_folding(dsl::lit_cp<0x41, 0xC4, 0x3A3, 'b'>) + dsl::position;
    static constexpr auto value = mk<"cf">;
};
struct lc
{
    static constexpr auto rule  = dsl::lit_c<'3'> >> dsl::lit_cp<0x1F600, 0x20AC> + dsl::capture(dsl::unicode::upper / dsl::unicode::digit) + dsl::opt(dsl::unicode::newline);
    static constexpr auto value = mk<"lc">;
};
struct str
{
    static constexpr auto rule  = dsl::quoted((dsl::unicode::print - dsl::unicode::blank).error<bad>, dsl::backslash_escape.rule(dsl::lit_c<'u'> >> dsl::code_point_id<4>));
    static constexpr auto value = lst<"str"> >> mk<"str">;
};
struct rawstr
{
    static constexpr auto rule  = dsl::lit_c<'4'> >> dsl::single_quoted(-dsl::unicode::control, dsl::dollar_escape.capture(dsl::code_point));
    static constexpr auto value = lst<"raw"> >> mk<"raw">;
};
constexpr auto scf = dsl::unicode::simple_case_folding;
struct cfs
{
    static constexpr auto table = lexy::symbol_table<int>.case_folding(dsl::unicode::simple_case_folding).map<LEXY_SYMBOL("yes")>(1).map<LEXY_SYMBOL("yesterday")>(2).map<LEXY_SYMBOL("no")>(3);
    static constexpr auto rule  = dsl::lit_c<'7'> >> dsl::list(dsl::literal_set(scf(LEXY_LIT("str")), scf(LEXY_LIT("strasse")), scf(dsl::lit_cp<0xE4, 'h'>), scf(dsl::lit_cp<0x3C3, 0x3C3>), LEXY_LIT("stop")) >> dsl::position | dsl::lit_c<'='> >> dsl::symbol<table>);
    static constexpr auto value = lst<"cfs"> >> mk<"cfs">;
};
struct is_even
{
    static constexpr auto name() { return "even"; }
    constexpr bool operator()(lexy::code_point cp) const { return cp.value() % 2 == 0; }
};
struct gc
{
    static constexpr auto rule  = dsl::lit_c<'6'> >> dsl::list(dsl::capture(dsl::code_point.general_category<lexy::code_point::Lu>()) | dsl::capture(dsl::code_point.general_category<lexy::code_point::symbol>()) | dsl::capture(dsl::code_point.if_<is_even>()) | dsl::lit_c<'-'> >> dsl::capture(dsl::code_point.bmp()));
    static constexpr auto value = lst<"gc"> >> mk<"gc">;
};
struct wh
{
    static constexpr auto rule  = dsl::lit_c<'5'> >> dsl::capture(dsl::token(dsl::while_(dsl::unicode::alpha / dsl::lit_c<'-'>))) + dsl::until(dsl::unicode::newline).or_eof();
    static constexpr auto value = mk<"wh">;
};
struct production
{
    static constexpr auto whitespace = dsl::unicode::space;
    static constexpr auto rule       = dsl::terminator(dsl::eof).opt_list(dsl::try_(dsl::p<str> | dsl::p<cps> | dsl::p<cf> | dsl::p<lc> | dsl::p<rawstr> | dsl::p<wh> | dsl::p<gc> | dsl::p<cfs> | dsl::p<id>, dsl::any));
    static constexpr auto value      = lst<"l"> >> mk<"uni">;
};
} // namespace g_uni
using gram::T;
#define UNI_S T("abc \xC3\xA4\xC3\xB6 _x1 1\xC3\xA4\xE2\x82\xAC\xF0\x9F\x98\x80\x41", "2A\xC3\x84\xCE\xA3""b 2a\xC3\xA4\xCF\x83""B 2a\xC3\xA4\xCF\x82""b", "3\xF0\x9F\x98\x80\xE2\x82\xAC""A 3\xF0\x9F\x98\x80\xE2\x82\xAD", "\"\xC3\xA4\\u20ACxyz\" \"a b\" \"\xC3\"", "4'abc$\xE2\x82\xAC' 5abc-\xC3\xA4\xE2\x80\xA8 x", "\"\\uD800\"", "6\xC3\x84\xE2\x82\xAC+bd-\xE2\x82\xAC-\xF0\x9F\x98\x80", "7strSTRasseStopstoPstrasx", "7\xC3\x84H\xCF\x83\xCE\xA3=YES=yesterday=Yesterda=No", "2A\xC3\x84", "1\xEF\xBF\xBF", "5abcdefghijklmnop qrst\n", "\xE2\x80\x83 a")
#define UNI_N T("\xC3\xA4", "\xE2\x82\xAC", "\xF0\x9F\x98\x80", "\xC3\x84", "\xCE\xA3", "\xCF\x82", "\"", "'", "$", "\\u00e4", "1", "2A", "3", "4'", "5", "6", "7", "str", "Asse", "stop", "=Yes", "terday", "H", "\xCF\x83", "-", "+", "\xC3", "\xF0\x9F", "\xFF", "\xED\xA0\x80", "\xF4\x90\x80\x80", "\xF0\x80\x80\x80", "\xF0\xA0\x80\x80", "\xE2\x80\xA8", "\n", " ", "A", "abcdefgh")
GRAMMAR(uni, g_uni::production, lexy::utf8_encoding, UNI_S, UNI_N)
#ifndef ONE_ENCODING
GRAMMAR(uni16, g_uni::production, lexy::utf16_encoding, UNI_S, UNI_N)
GRAMMAR(uni32, g_uni::production, lexy::utf32_encoding, UNI_S, UNI_N)
#endif
