#include HARNESS_OPS
namespace g_ident
{
namespace dsl = lexy::dsl;
using namespace gram;
constexpr auto id  = dsl::identifier(dsl::ascii::alpha_underscore, dsl::ascii::word);
constexpr auto idd = dsl::identifier(dsl::ascii::lower, dsl::ascii::alpha / dsl::lit_c<'-'>);

struct kw
{
    static constexpr auto rule = LEXY_KEYWORD("int", id) | LEXY_KEYWORD("interface", id) | dsl::ascii::case_folding(LEXY_KEYWORD("Begin", id));
    static constexpr auto value = mk<"kw">;
};
struct reserved_id : lexy::token_production
{
    static constexpr auto rule
        = id.reserve(LEXY_KEYWORD("int", id), LEXY_KEYWORD("namespace_name", id)).reserve_prefix(LEXY_LIT("__")).reserve_suffix(LEXY_LIT("_t")).reserve_containing(LEXY_LIT("BAD"));
    static constexpr auto value = mk<"id">;
};
struct pat
{
    static constexpr auto rule  = dsl::lit_c<'$'> >> idd.pattern() + dsl::position;
    static constexpr auto value = mk<"pat">;
};
struct table_sym
{
    static constexpr auto table = lexy::symbol_table<int>.map(LEXY_LIT("one"), 1).map(LEXY_LIT("onetwo"), 12).map(LEXY_LIT("two"), 2).map(LEXY_LIT("verylongsymbolname"), 99);
    static constexpr auto rule  = dsl::lit_c<'%'> >> dsl::symbol<table>(id);
    static constexpr auto value = mk<"sym">;
};
struct table_plain
{
    static constexpr auto rule  = dsl::lit_c<'='> >> dsl::symbol<table_sym::table>;
    static constexpr auto value = mk<"plain">;
};
struct cf
{
    static constexpr auto table = lexy::symbol_table<int>.case_folding(dsl::ascii::case_folding).map(LEXY_LIT("alpha"), 1).map(LEXY_LIT("Beta"), 2);
    static constexpr auto rule  = dsl::lit_c<'~'> >> dsl::symbol<table>;
    static constexpr auto value = mk<"cf">;
};
struct must_kw
{
    static constexpr auto rule  = dsl::lit_c<'?'> >> LEXY_KEYWORD("int", id) + dsl::position;
    static constexpr auto value = mk<"must_kw">;
};
struct kwset
{
    static constexpr auto rule  = dsl::lit_c<'^'> >> dsl::capture(dsl::literal_set(LEXY_KEYWORD("in", id), LEXY_KEYWORD("int", id), LEXY_LIT("inti"), LEXY_LIT("+"), LEXY_LIT("++"))) + dsl::opt(dsl::literal_set(LEXY_KEYWORD("a", id), LEXY_KEYWORD("ab", idd)) >> dsl::position);
    static constexpr auto value = mk<"kwset">;
};
struct production
{
    static constexpr auto whitespace = dsl::ascii::space;
    static constexpr auto rule       = dsl::terminator(dsl::eof).opt_list(
        dsl::try_(dsl::p<pat> | dsl::p<must_kw> | dsl::p<kwset> | dsl::p<table_sym> | dsl::p<table_plain> | dsl::p<cf> | dsl::peek(LEXY_KEYWORD("int", id)) >> dsl::p<kw>
                                                   | dsl::p<reserved_id> | dsl::else_ >> dsl::p<kw>,
                                           dsl::until(dsl::lit_c<' '>).or_eof()));
    static constexpr auto value = lst<"l"> >> mk<"ids">;
};
} // namespace g_ident
using gram::T;
GRAMMAR(ident, g_ident::production, lexy::default_encoding,
        T("int foo __bar baz_t aBADb interface", "$abc-DEF $a %one %onetwo %onetwothree =one =onetwo =onetw", "~ALPHA ~beta ~Bet begin BEGIN",
          "namespace_name namespace_nam namespace_names averyveryverylongidentifiername_with_0123456789", "%verylongsymbolname =verylongsymbolnam", "int1 int int_", "?int ?in ?intx ?", "^in ^int ^ints ^inti ^++ ^+ab ^ina ^in a ^ins ^in ab ^in a- ^in ab- ^", "a_t _t t __ _"),
        T("int", "_t", "__", "BAD", "$", "?", "^", "in", "^int", "+", "%", "=", "~", "one", "two", "alpha", "BETA", "begin", " ", "a", "Z9_", "abcdefghijklmnopqrstuvwxyz", "-", "@", "[", "`", "{", "/", ":"))
#ifdef ALL_ENCODINGS
GRAMMAR(ident32, g_ident::production, lexy::utf32_encoding,
        T("int foo __bar baz_t aBADb interface", "$abc-DEF $a %one %onetwo %onetwothree =one =onetwo =onetw", "~ALPHA ~beta ~Bet begin BEGIN",
          "namespace_name namespace_nam namespace_names averyveryverylongidentifiername_with_0123456789", "%verylongsymbolname =verylongsymbolnam", "int1 int int_", "?int ?in ?intx ?", "^in ^int ^ints ^inti ^++ ^+ab ^ina ^in a ^ins ^in ab ^in a- ^in ab- ^", "a_t _t t __ _"),
        T("int", "_t", "__", "BAD", "$", "?", "^", "in", "^int", "+", "%", "=", "~", "one", "two", "alpha", "BETA", "begin", " ", "a", "Z9_", "abcdefghijklmnopqrstuvwxyz", "-", "@", "[", "`", "{", "/", ":"))
#endif
