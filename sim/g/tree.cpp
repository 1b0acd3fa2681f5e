#include HARNESS_OPS
namespace g_tree
{
namespace dsl = lexy::dsl;
using namespace gram;
struct empty
{
    static constexpr auto rule  = dsl::position;
    static constexpr auto value = mk<"empty">;
};
struct empty_tr : lexy::transparent_production
{
    static constexpr auto rule  = dsl::if_(dsl::lit_c<'~'>);
    static constexpr auto value = mk<"etr">;
};
struct leaf
{
    static constexpr auto rule  = dsl::capture(dsl::ascii::lower);
    static constexpr auto value = mk<"leaf">;
};
struct pair : lexy::transparent_production
{
    static constexpr auto rule  = dsl::p<leaf> >> dsl::lit_c<'='> + dsl::p<empty> + dsl::recurse<struct node> + dsl::p<empty_tr>;
    static constexpr auto value = mk<"pair">;
};
struct inl
{
    static constexpr auto rule  = dsl::lit_c<'^'> >> dsl::inline_<leaf> + dsl::inline_<empty>;
    static constexpr auto value = mk<"inl">;
};
struct group
{
    static constexpr auto rule  = dsl::round_bracketed.opt_list(dsl::recurse_branch<struct node>);
    static constexpr auto value = lst<"g"> >> mk<"group">;
};
struct paren
{
    static constexpr auto rule  = dsl::square_bracketed(dsl::recurse<struct node>);
    static constexpr auto value = mk<"paren">;
};
struct ex : lexy::transparent_production, lexy::expression_production
{
    static constexpr auto atom = dsl::lit_c<'x'> | dsl::lit_c<'0'> >> dsl::p<leaf>;
    struct neg : dsl::prefix_op
    {
        static constexpr auto op = dsl::op(dsl::lit_c<'-'>);
        using operand            = dsl::atom;
    };
    struct add : dsl::infix_op_left
    {
        static constexpr auto op = dsl::op(dsl::lit_c<'+'>);
        using operand            = neg;
    };
    using operation             = add;
    static constexpr auto value = mk<"ex">;
};
struct node
{
    static constexpr auto rule  = (dsl::p<pair> | dsl::p<inl> | dsl::p<group> | dsl::p<paren> | dsl::peek(dsl::lit_c<'<'>) >> dsl::lit_c<'<'> + dsl::try_(dsl::p<ex>) + dsl::lit_c<'>'> | dsl::lit_c<'!'> >> LEXY_DEBUG("node") + dsl::p<empty>);
    static constexpr auto value = mk<"node">;
};
struct production
{
    static constexpr auto max_recursion_depth = 7;
    static constexpr auto rule                = dsl::try_(dsl::p<node>, dsl::find(dsl::lit_c<'.'>)) + dsl::if_(dsl::lit_c<'.'> >> dsl::try_(dsl::p<ex>)) + dsl::p<empty_tr>;
    static constexpr auto value               = mk<"tree">;
};
struct nothing
{
    static constexpr auto rule  = dsl::opt(dsl::lit_c<'n'> >> dsl::p<leaf>) + dsl::p<empty_tr> + dsl::p<empty>;
    static constexpr auto value = mk<"nothing">;
};
struct really_nothing
{
    static constexpr auto rule  = dsl::if_(dsl::lit_c<'n'> >> dsl::p<leaf>);
    static constexpr auto value = mk<"rnothing">;
};
} // namespace g_tree
namespace g_tree
{
struct node2;
}
using gram::T;
GRAMMAR(tree, g_tree::production, lexy::ascii_encoding,
        T("a=b=!", "(a=!b=!^c).x+-x", "[[[a=(!!)]]].x", "<x+-x+0a>", "<x+>.0", "(a=!b=", "[[[[[[[[[[!]]]]", "^a~", "a=^b~~.x+", "(((((((((!)))", ".-", "<0>", "(a=<x+0>)"),
        T("a", "=", "!", "(", ")", "[", "]", "^", "<", ">", "x", "+", "-", "0", ".", "~", "b"))
#ifndef ONE_ENCODING
GRAMMAR(nothing, g_tree::nothing, lexy::utf8_encoding, T("", "na", "n", "~", "nx~", "q"), T("n", "a", "~"))
GRAMMAR(rnothing, g_tree::really_nothing, lexy::utf8_encoding, T("", "na", "n", "q"), T("n", "a"))
#endif
