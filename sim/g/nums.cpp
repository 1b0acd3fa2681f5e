#include HARNESS_OPS
namespace g_nums
{
namespace dsl = lexy::dsl;
using namespace gram;
struct dec
{
    static constexpr auto rule  = dsl::lit_c<'d'> >> dsl::integer<std::int16_t>(dsl::digits<>.sep(dsl::digit_sep_tick));
    static constexpr auto value = mk<"dec">;
};
struct hex
{
    static constexpr auto rule  = LEXY_LIT("0x") >> dsl::integer<std::uint32_t>(dsl::digits<dsl::hex>.sep(dsl::digit_sep_underscore));
    static constexpr auto value = mk<"hex">;
};
struct bin
{
    static constexpr auto rule  = LEXY_LIT("0b") >> dsl::integer<std::uint8_t, dsl::binary>;
    static constexpr auto value = mk<"bin">;
};
struct oct
{
    static constexpr auto rule  = LEXY_LIT("0o") >> dsl::integer<std::int64_t>(dsl::digits<dsl::octal>.no_leading_zero());
    static constexpr auto value = mk<"oct">;
};
struct fixed
{
    static constexpr auto rule  = dsl::lit_c<'f'> >> dsl::integer<int>(dsl::n_digits<3>) + dsl::integer<unsigned>(dsl::n_digits<2, dsl::hex_upper>.sep(dsl::lit_c<'\''>));
    static constexpr auto value = mk<"fixed">;
};
struct sign
{
    static constexpr auto rule  = dsl::lit_c<'s'> >> dsl::sign + dsl::integer<std::int32_t>;
    static constexpr auto value = lexy::as_integer<std::int32_t> | mk<"sign">;
};
struct psign
{
    static constexpr auto rule  = dsl::lit_c<'p'> >> dsl::plus_sign + dsl::integer<std::int8_t>;
    static constexpr auto value = lexy::as_integer<std::int8_t> | mk<"psign">;
};
struct msign
{
    static constexpr auto rule  = dsl::lit_c<'m'> >> dsl::minus_sign + dsl::integer<std::int64_t> + dsl::opt(dsl::lit_c<'z'> >> dsl::zero);
    static constexpr auto value = mk<"msign">;
};
struct bounded
{
    static constexpr auto rule  = dsl::lit_c<'b'> >> dsl::integer<lexy::bounded<std::uint8_t, 100>> + dsl::lit_c<'.'> + dsl::integer<lexy::unbounded<std::uint16_t>>;
    static constexpr auto value = mk<"bounded">;
};
struct cp
{
    static constexpr auto rule  = LEXY_LIT("u") >> dsl::code_point_id<4>;
    static constexpr auto value = mk<"cp">;
};
struct real : lexy::token_production
{
    static constexpr auto rule = [] {
        auto digits = dsl::digits<>.no_leading_zero();
        auto exp    = (dsl::lit_c<'e'> | dsl::lit_c<'E'>) >> dsl::if_(dsl::lit_c<'+'> | dsl::lit_c<'-'>) + dsl::digits<>;
        return dsl::peek(dsl::digit<>) >> dsl::capture(dsl::token(digits + dsl::if_(dsl::lit_c<'.'> >> dsl::digits<>) + dsl::if_(exp)));
    }();
    static constexpr auto value = mk<"real">;
};
struct production
{
    static constexpr auto whitespace = dsl::ascii::blank;
    static constexpr auto rule       = dsl::terminator(dsl::semicolon | dsl::eof).opt_list(
        dsl::try_(dsl::p<hex> | dsl::p<bin> | dsl::p<oct> | dsl::p<dec> | dsl::p<fixed> | dsl::p<sign> | dsl::p<psign> | dsl::p<msign> | dsl::p<bounded> | dsl::p<cp> | dsl::p<real>, dsl::find(dsl::lit_c<','>)), dsl::sep(dsl::lit_c<','>));
    static constexpr auto value = lst<"l"> >> mk<"nums">;
};
} // namespace g_nums
using gram::T;
#define NUM_SAMPLES T("p+1,p12,m-9223372036854775807z0,m5", "p-1,p+128,m+1,mz", "d12'345,0xdead_beef,0b10101010,0o777;", "f123A'F , s-2147483648, s+1 , b100.65536", "u20AC,uFFFF,uD800,123456789012345678901234567890.5e-10", "d32768,0xFFFFFFFFF,0b111111111", "000,0o0777,d,0x,b101.1", "12345678901234567890123456789012", "d1'2'3,0x_1,0x1_,d1''2")
#define NUM_SNIPPETS T(",", ";", "d", "0x", "0b", "0o", "f", "s", "-", "+", "b", "p", "m", "z0", "u", ".", "e5", "'", "_", "12345678", "00000000", "ffffffff", "FFFF", "7", "8", "9", "a", "G", "/", ":", "10101010")
GRAMMAR(nums, g_nums::production, lexy::utf8_char_encoding, NUM_SAMPLES, NUM_SNIPPETS)
#ifndef ONE_ENCODING
GRAMMAR(nums32, g_nums::production, lexy::utf32_encoding, NUM_SAMPLES, NUM_SNIPPETS)
#endif
#ifdef ALL_ENCODINGS
GRAMMAR(nums16, g_nums::production, lexy::utf16_encoding, NUM_SAMPLES, NUM_SNIPPETS)
#endif
