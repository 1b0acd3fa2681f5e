#include HARNESS_OPS
#include <set>
namespace g_lists
{
namespace dsl = lexy::dsl;
using namespace gram;
struct item
{
    static constexpr auto rule  = dsl::capture(dsl::ascii::lower);
    static constexpr auto value = mk<"i">;
};
struct trail
{
    static constexpr auto rule  = dsl::parenthesized.list(dsl::p<item>, dsl::trailing_sep(dsl::comma));
    static constexpr auto value = lexy::as_list<std::vector<Val>> >> mk<"trail">;
};
struct ign
{
    static constexpr auto rule  = dsl::square_bracketed.opt_list(dsl::try_(dsl::p<item>, dsl::nullopt), dsl::ignore_trailing_sep(dsl::capture(dsl::comma)));
    static constexpr auto value = lst<"ign"> >> mk<"ign">;
};
struct coll
{
    static constexpr auto rule  = dsl::curly_bracketed.list(dsl::p<item>, dsl::sep(dsl::semicolon));
    static constexpr auto value = lexy::as_collection<std::multiset<Val>> >> lexy::callback<Val>([](std::multiset<Val>&& s) {
                                     point("callback");
                                     std::string t = "set";
                                     for (auto& v : s)
                                         desc(t, v);
                                     return Val(t);
                                 });
};
struct angle
{
    static constexpr auto rule  = dsl::angle_bracketed(dsl::times<3>(dsl::p<item>, dsl::sep(dsl::colon)));
    static constexpr auto value = mk<"angle">;
};
struct comb
{
    static constexpr auto rule = dsl::lit_c<'c'> >> dsl::combination(LEXY_LIT("1") >> dsl::p<item>, LEXY_LIT("2") >> dsl::capture(dsl::ascii::digit), LEXY_LIT("3") >> dsl::position);
    static constexpr auto value = lst<"comb"> >> mk<"comb">;
};
struct dup
{
    static constexpr auto name = "duplicate";
};
struct miss
{
    static constexpr auto name = "missing";
};
struct comb2
{
    static constexpr auto rule = dsl::lit_c<'C'> >> dsl::combination(LEXY_LIT("1") >> dsl::p<item>, LEXY_LIT("2") >> dsl::capture(dsl::ascii::digit), dsl::lit_c<'3'>).missing_error<miss>.duplicate_error<dup>;
    static constexpr auto value = lst<"comb2"> >> mk<"comb2">;
};
struct pcomb
{
    static constexpr auto rule  = dsl::lit_c<'p'> >> dsl::partial_combination(LEXY_LIT("x") >> dsl::p<item>, LEXY_LIT("y") >> dsl::p<item>).duplicate_error<dup>;
    static constexpr auto value = lst<"pcomb"> >> mk<"pcomb">;
};
struct term
{
    static constexpr auto rule  = dsl::lit_c<'t'> >> dsl::terminator(dsl::exclamation_mark).list(dsl::p<item>, dsl::sep(dsl::lit_c<'&'>));
    static constexpr auto value = lexy::fold<Val>([] { return Val("f"); }, [](Val&& a, Val&& b) { point("callback"); std::string s; desc(s, std::move(a)); desc(s, std::move(b)); return Val(s); }) >> mk<"term">;
};
struct nosep
{
    static constexpr auto rule  = dsl::lit_c<'n'> >> dsl::list(dsl::capture(dsl::digit<>)) + dsl::if_(dsl::peek_not(dsl::comma) >> dsl::position);
    static constexpr auto value = lst<"nosep"> >> mk<"nosep">;
};
struct rep
{
    static constexpr auto rule  = dsl::lit_c<'r'> >> dsl::twice(dsl::brackets(LEXY_LIT("(("), LEXY_LIT("))")).opt(dsl::p<item>));
    static constexpr auto value = mk<"rep">;
};
struct repeat_
{
    static constexpr auto rule  = dsl::lit_c<'q'> >> dsl::list(dsl::else_ >> dsl::p<item>, dsl::sep(dsl::period));
    static constexpr auto value = lst<"q"> >> mk<"q">;
};
struct blist
{
    static constexpr auto rule  = dsl::list(LEXY_LIT("+") >> dsl::p<item>) >> dsl::position;
    static constexpr auto value = lst<"blist"> >> mk<"blist">;
};
struct clist
{
    static constexpr auto rule  = dsl::lit_c<'='> >> dsl::repeat(dsl::integer<int>(dsl::digits<>) + dsl::lit_c<':'>).list(dsl::p<item>, dsl::sep(dsl::lit_c<'+'>)) + dsl::position;
    static constexpr auto value = lst<"clist"> >> mk<"clist">;
};
struct dlist
{
    static constexpr auto rule  = dsl::lit_c<'~'> >> dsl::repeat(dsl::integer<int>(dsl::n_digits<2>))(dsl::ascii::lower, dsl::trailing_sep(dsl::lit_c<'-'>)) + dsl::position;
    static constexpr auto value = mk<"dlist">;
};
struct production
{
    static constexpr auto whitespace = dsl::ascii::blank;
    static constexpr auto rule       = dsl::terminator(dsl::eof).opt_list(
        dsl::p<trail> | dsl::p<ign> | dsl::p<coll> | dsl::p<angle> | dsl::p<comb> | dsl::p<comb2> | dsl::p<pcomb> | dsl::p<term> | dsl::p<nosep> | dsl::p<rep> | dsl::p<repeat_> | dsl::p<blist> | dsl::p<clist> | dsl::p<dlist>, dsl::sep(dsl::newline));
    static constexpr auto value = lst<"l"> >> mk<"lists">;
};
} // namespace g_lists
using gram::T;
GRAMMAR(lists, g_lists::production, lexy::ascii_encoding,
        T("(a,b,c,)\n[a,,b,]\n{z;a;m;a}", "<a:b:c>\nc2 5 1a3\npxayb\nta&b&c!", "n12345\nr((a))(())\nqa.b.c", "[]\n[1,a]\n(a;b)\n<a:b>", "c1a1b\nc1a2\npxaxb", "C1a2 53\nC1a1b\nC1ax\nC", "(a b)\n{a;;b}\nta&&b!\nta", "(a,b", "+a+b+\n=2:a+b\n=3:a+b\n~02a-b-\n+\n=0:\n~03a-", "~00\n=1:1\n+a+1"),
        T("(", ")", "[", "]", "{", "}", "<", ">", ",", ";", ":", "&", "!", "a", "b", "c", "C", "p", "x", "y", "t", "n", "r", "q", "1", "2", "3", "((", "))", ".", "+", "=2:", "~03", "-", "\n", "  "))
