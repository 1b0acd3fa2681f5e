#include HARNESS_OPS
namespace g_expr
{
namespace dsl = lexy::dsl;
using namespace gram;

struct expr : lexy::expression_production
{
    static constexpr auto max_operator_nesting = 7;
    struct expected_operand
    {
        static constexpr auto name = "expected operand";
    };
    struct call
    {
        static constexpr auto rule  = dsl::parenthesized.opt_list(dsl::recurse<expr>, dsl::trailing_sep(dsl::comma));
        static constexpr auto value = lst<"args"> >> mk<"call">;
    };
    static constexpr auto atom = [] {
        auto paren = dsl::parenthesized(dsl::recurse<expr>);
        auto num   = dsl::integer<int>;
        auto name  = dsl::identifier(dsl::ascii::alpha);
        return paren | num | name >> dsl::if_(dsl::p<call>) | dsl::error<expected_operand>;
    }();
    struct power : dsl::infix_op_right
    {
        static constexpr auto op = dsl::op<0>(LEXY_LIT("**"));
        using operand            = dsl::atom;
    };
    struct post : dsl::postfix_op
    {
        static constexpr auto op = dsl::op<1>(LEXY_LIT("!")) / dsl::op<2>(dsl::square_bracketed(dsl::recurse<expr>));
        using operand            = power;
    };
    struct prefix : dsl::prefix_op
    {
        static constexpr auto op = dsl::op<3>(LEXY_LIT("-")) / dsl::op<4>(LEXY_LIT("~"));
        using operand            = post;
    };
    struct mul : dsl::infix_op_left
    {
        static constexpr auto op = dsl::op<5>(dsl::not_followed_by(LEXY_LIT("*"), dsl::lit_c<'*'>)) / dsl::op<6>(LEXY_LIT("/"));
        using operand            = prefix;
    };
    struct bit : dsl::infix_op_left
    {
        static constexpr auto op = dsl::op<7>(LEXY_LIT("&"));
        using operand            = dsl::atom;
    };
    struct add : dsl::infix_op_left
    {
        static constexpr auto op = dsl::op<8>(LEXY_LIT("+")) / dsl::op<9>(LEXY_LIT("-"));
        using operand            = dsl::groups<mul, bit>;
    };
    struct chain : dsl::infix_op_list
    {
        static constexpr auto op = dsl::op<10>(LEXY_LIT("<>")) / dsl::op<14>(LEXY_LIT("<:") >> dsl::integer<int> + dsl::lit_c<':'>);
        using operand            = add;
    };
    struct compare : dsl::infix_op_single
    {
        static constexpr auto op = dsl::op<11>(LEXY_LIT("==")) / dsl::op<12>(LEXY_LIT("<"));
        using operand            = chain;
    };
    struct ternary : dsl::infix_op_single
    {
        static constexpr auto op = dsl::op<13>(LEXY_LIT("?") >> dsl::recurse<expr> + dsl::lit_c<':'>);
        using operand            = compare;
    };
    using operation             = ternary;
    static constexpr auto value = both<"expr">;
};
struct statement
{
    static constexpr auto rule  = dsl::p<expr>;
    static constexpr auto value = mk<"stmt">;
};
struct production
{
    static constexpr auto max_recursion_depth = 6;
    static constexpr auto whitespace          = dsl::ascii::space | LEXY_LIT("#") >> dsl::until(dsl::newline).or_eof();
    static constexpr auto rule = dsl::terminator(dsl::eof).opt_list(dsl::try_(dsl::p<statement>, dsl::find(dsl::lit_c<';'>)), dsl::sep(dsl::semicolon));
    static constexpr auto value = lst<"l"> >> mk<"prog">;
};
} // namespace g_expr
using gram::T;
GRAMMAR(expr, g_expr::production, lexy::default_encoding,
        T("1 + 2 * -3 ** 4 ** 5!; a[1+2](x, y,)", "1 <> 2 <> 3 <> 4 == 5 + 6", "a ? b : c ? d : e; -~-x!", "f(((1))) ; 1 == 2 == 3 ; 1 & 2 * 3",
          "1 + ; 2 # comment\n; )", "((((((((1))))))))", "a<b", "1 <:2: 3 <> 4 <:x: 5; 6", "-~-~-~-~-~1; 2 ** 3 ** 4 ** 5 ** 6 ** 7 ** 8 ** 9; a!!!!!!!!!!", "1*2*3*4+5-6-7/8"),
        T("+", "-", "*", "**", "/", "&", "!", "~", "==", "<", "<>", "<:", "<:1:", "?", ":", "(", ")", "[", "]", ",", ";", "1", "x", "f(", "# c", "\n", " ", "999999999999"))
