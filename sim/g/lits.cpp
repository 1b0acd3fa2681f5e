#include HARNESS_OPS
namespace g_lits
{
namespace dsl = lexy::dsl;
using namespace gram;
enum class fl
{
    none = 0,
    r    = 1,
    w    = 2,
    x    = 4,
};
constexpr fl operator|(fl a, fl b) { return fl(int(a) | int(b)); }
struct lits
{
    static constexpr auto set  = dsl::literal_set(LEXY_LIT("a"), LEXY_LIT("ab"), LEXY_LIT("abc"), LEXY_LIT("abcd"), LEXY_LIT("longliteral"), LEXY_LIT("b"));
    static constexpr auto rule = dsl::lit_c<'1'> >> set + dsl::position;
    static constexpr auto value = mk<"set">;
};
struct cf
{
    static constexpr auto rule  = dsl::lit_c<'2'> >> dsl::ascii::case_folding(LEXY_LIT("HelloWorldHello")) + dsl::position;
    static constexpr auto value = mk<"cf">;
};
struct lon
{
    static constexpr auto rule  = dsl::lit_c<'3'> >> LEXY_LIT("a literal of some length 123") + dsl::position;
    static constexpr auto value = mk<"long">;
};
struct eight
{
    static constexpr auto rule  = dsl::lit_c<'4'> >> (LEXY_LIT("12345678") | LEXY_LIT("1234567") | LEXY_LIT("123456789") | LEXY_LIT("1234")) + dsl::position;
    static constexpr auto value = mk<"eight">;
};
struct nf
{
    static constexpr auto rule  = dsl::lit_c<'5'> >> (dsl::not_followed_by(LEXY_LIT("="), LEXY_LIT("=")) | LEXY_LIT("==") >> dsl::position | dsl::followed_by(LEXY_LIT("+"), dsl::ascii::digit) >> dsl::integer<int>);
    static constexpr auto value = mk<"nf">;
};
struct flags
{
    static constexpr auto table = lexy::symbol_table<fl>.map<'r'>(fl::r).map<'w'>(fl::w).map<'x'>(fl::x);
    static constexpr auto rule  = dsl::lit_c<'6'> >> dsl::flags<fl::none>(dsl::symbol<table>) + dsl::flag<fl::x>(dsl::lit_c<'!'>) + dsl::flag(LEXY_LIT("?"));
    static constexpr auto value = mk<"flags">;
};
struct capt
{
    static constexpr auto rule  = dsl::lit_c<'7'> >> dsl::capture(dsl::token(LEXY_LIT("tok") >> dsl::if_(LEXY_LIT("en")))) + dsl::capture(dsl::token(dsl::ascii::alpha + dsl::while_(dsl::ascii::digit))) + dsl::opt(dsl::capture(dsl::ascii::punct));
    static constexpr auto value = mk<"capt">;
};
struct sets
{
    static constexpr auto rule  = dsl::lit_c<'8'> >> dsl::while_(dsl::literal_set(LEXY_LIT("foo"), LEXY_LIT("foobar"), LEXY_LIT("bar"), dsl::ascii::case_folding(LEXY_LIT("qux")))) + dsl::position;
    static constexpr auto value = mk<"sets">;
};
struct not_in_set
{
    static constexpr auto name = "not in set";
};
struct lset
{
    static constexpr auto set   = LEXY_LITERAL_SET(LEXY_LIT("in"), LEXY_LIT("int"), LEXY_LIT("interface"), LEXY_LIT("integer"), LEXY_LIT("is")).error<not_in_set>;
    static constexpr auto rule  = dsl::lit_c<'9'> >> dsl::list(set >> dsl::position, dsl::sep(dsl::hash_sign));
    static constexpr auto value = lst<"lset"> >> mk<"lset">;
};
struct production
{
    static constexpr auto rule = dsl::list(
        dsl::p<lits> | dsl::p<cf> | dsl::p<lon> | dsl::p<eight> | dsl::p<nf> | dsl::p<flags> | dsl::p<capt> | dsl::p<sets> | dsl::p<lset>, dsl::sep(dsl::lit_c<'\n'>));
    static constexpr auto value = lst<"l"> >> mk<"lits">;
};
} // namespace g_lits
using gram::T;
#define SAMPLES                                                                                                        \
    T("1abcd\n1abce\n2hELLOwORLDhello", "3a literal of some length 123\n412345678\n41234567\n4123456789", "5==\n5+1\n6rwx!?\n6r", "7tokena123.\n8foofoobarbarQUXfoo",  \
      "9int#interface#in#integer#interfac#is", "9#inte", "3a literal of some lengtx 123", "4123456", "1abc\n1longlitera\n1b", "2helloWORLDhellp")
#define SNIPPETS                                                                                                       \
    T("\n", "1", "2", "3", "4", "5", "6", "7", "8", "9", "#", "int", "er", "face", "ab", "abcd", "longliteral", "longlitera", "HELLO", "a literal", " of some", "12345678", "=", "+1", "rwx", "!", "?", "tok", "en", "foo", "bar", "QuX")
GRAMMAR(lits, g_lits::production, lexy::ascii_encoding, SAMPLES, SNIPPETS)
#ifndef ONE_ENCODING
GRAMMAR(lits32, g_lits::production, lexy::utf32_encoding, SAMPLES, SNIPPETS)
#endif
#ifdef ALL_ENCODINGS
GRAMMAR(lits16, g_lits::production, lexy::utf16_encoding, SAMPLES, SNIPPETS)
#endif
