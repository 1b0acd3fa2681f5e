#include HARNESS_OPS
namespace g_state
{
namespace dsl = lexy::dsl;
using namespace gram;
struct agg
{
    Val  a{"-"}, b{"-"};
    int  n = 0;
    void describe(std::string& s) const
    {
        s += "agg{";
        desc(s, a), s += ";", desc(s, b), s += ";", desc(s, n), s += "}";
    }
};
struct point_
{
    int a;
    std::optional<Val> b;
    void describe(std::string& s) const
    {
        s += "pt{";
        desc(s, a), s += ";";
        desc(s, b), s += "}";
    }
};
struct leaf
{
    static constexpr auto rule  = dsl::capture(dsl::ascii::lower);
    static constexpr auto value = lexy::bind(mk<"leaf">, lexy::_1, 42);
};
struct st // uses the state
{
    static constexpr auto rule  = dsl::lit_c<'s'> >> dsl::p<leaf>;
    static constexpr auto value = lexy::callback_with_state<Val>([](State& s, Val&& v) {
        point("callback");
        ++s.uses;
        std::string t = "st" + std::to_string(s.uses) + ":";
        desc(t, std::move(v));
        return Val(t);
    });
};
struct bound
{
    static constexpr auto rule  = dsl::lit_c<'t'> >> dsl::p<leaf> + dsl::p<leaf>;
    static constexpr auto value = lexy::bind(lexy::callback<Val>([](State& s, Val&& x, Val&& y) { point("callback"); ++s.uses; std::string t="b" + std::to_string(s.uses); desc(t, std::move(x)); desc(t, std::move(y)); return Val(t); }), lexy::parse_state, lexy::_2, lexy::_1);
};
struct ag
{
    static constexpr auto rule  = dsl::lit_c<'a'> >> (dsl::member<&agg::a> = dsl::p<leaf>) + dsl::if_(dsl::lit_c<'b'> >> (LEXY_MEM(b) = dsl::p<leaf>)) + dsl::if_(dsl::lit_c<'n'> >> (dsl::member<&agg::n> = dsl::integer<int>));
    static constexpr auto value = lexy::as_aggregate<agg>;
};
struct comb
{
    static constexpr auto rule  = dsl::lit_c<'c'> >> dsl::partial_combination(dsl::lit_c<'x'> >> (dsl::member<&agg::a> = dsl::p<leaf>), dsl::lit_c<'y'> >> (dsl::member<&agg::b> = dsl::p<leaf>), dsl::lit_c<'z'> >> (dsl::member<&agg::n> = dsl::integer<int>(dsl::digits<>)));
    static constexpr auto value = lexy::as_aggregate<agg> >> mk<"comb">;
};
struct cons
{
    static constexpr auto rule  = dsl::lit_c<'k'> >> dsl::integer<int>(dsl::digits<>) + dsl::opt(dsl::p<leaf>);
    static constexpr auto value = lexy::construct<point_>;
};
struct nw
{
    static constexpr auto rule  = dsl::lit_c<'w'> >> dsl::p<leaf> + dsl::p<leaf>;
    static constexpr auto value = lexy::new_<std::pair<Val, Val>, std::unique_ptr<std::pair<Val, Val>>> | lexy::callback<Val>([](std::unique_ptr<std::pair<Val, Val>> p) { point("callback"); std::string s="new"; desc(s,p->first); desc(s,p->second); return Val(s); });
};
struct ret
{
    static constexpr auto rule  = dsl::lit_c<'r'> >> (dsl::p<leaf> >> dsl::return_ | dsl::lit_c<'!'> >> dsl::position + dsl::return_) + dsl::lit_c<'?'>;
    static constexpr auto value = mk<"ret">;
};
struct pas
{
    static constexpr auto rule  = dsl::lit_c<'p'> >> dsl::parse_as<Val>(dsl::p<leaf>) + dsl::parse_as<std::optional<Val>>(dsl::opt(dsl::p<leaf>));
    static constexpr auto value = mk<"pas">;
};
struct fwd
{
    static constexpr auto rule  = dsl::lit_c<'f'> >> dsl::p<leaf>;
    static constexpr auto value = lexy::forward<Val>;
};
inline void effect_fn(State& s) { ++s.uses; }
struct eff
{
    static constexpr auto rule  = dsl::lit_c<'e'> >> dsl::p<leaf> + dsl::position;
    static constexpr auto value = mk<"eff">;
};
struct scanned : lexy::scan_production<Val>
{
    template <typename Context, typename Reader, typename S>
    static scan_result scan(lexy::rule_scanner<Context, Reader>& s, S& st)
    {
        point("scan");
        ++st.uses;
        auto v = s.template parse<leaf>();
        if (!v)
            return lexy::scan_failed;
        std::string t = "scan";
        desc(t, std::move(v).value());
        return Val(t);
    }
};
struct foldl
{
    static constexpr auto rule  = dsl::lit_c<'l'> >> dsl::list(dsl::p<leaf>);
    static constexpr auto value = lexy::fold_inplace<Val>([] { point("callback"); return Val("z"); }, [](Val& a, Val&& b) { point("callback"); desc(a.text, std::move(b)); }) >> mk<"foldl">;
};
struct vec
{
    static constexpr auto rule  = dsl::parenthesized.opt_list(dsl::p<leaf>);
    static constexpr auto value = lexy::as_list<std::vector<Val>>;
};
struct concat
{
    static constexpr auto rule  = dsl::lit_c<'v'> >> dsl::list(dsl::p<vec>, dsl::sep(dsl::comma));
    static constexpr auto value = lexy::concat<std::vector<Val>> >> mk<"concat">;
};
struct coll
{
    static constexpr auto rule  = dsl::lit_c<'o'> >> dsl::opt(dsl::list(dsl::p<leaf>));
    static constexpr auto value = lexy::collect<std::vector<Val>>(mk<"each">) >> mk<"coll">;
};
// Operators whose tags are made from the position, the state, or both.
struct op_pos
{
    std::string text;
    template <typename It>
    constexpr explicit op_pos(It pos) : text("op@" + num_(offset_of(pos, "operator"))) {}
    static std::string num_(std::size_t n) { return std::to_string(n); }
    void describe(std::string& s) const { s += text; }
};
struct op_state
{
    std::string text;
    template <typename It>
    explicit op_state(State& st, It pos) : text("op" + std::to_string(++st.uses) + "@" + std::to_string(offset_of(pos, "operator"))) {}
    void describe(std::string& s) const { s += text; }
};
struct no_operand
{
    static constexpr auto name = "no operand";
};
struct sx : lexy::expression_production
{
    static constexpr auto atom = dsl::p<leaf> | dsl::error<no_operand>;
    struct post : dsl::postfix_op
    {
        static constexpr auto op = dsl::op<op_state>(dsl::lit_c<'\''>);
        using operand            = dsl::atom;
    };
    struct pre : dsl::prefix_op
    {
        static constexpr auto op = dsl::op<op_pos>(dsl::lit_c<'-'>) / dsl::op<op_state>(dsl::lit_c<'~'>);
        using operand            = post;
    };
    struct sum : dsl::infix_op_left
    {
        static constexpr auto op = dsl::op<op_state>(dsl::lit_c<'+'>) / dsl::op<op_pos>(LEXY_LIT("++") >> dsl::position);
        using operand            = pre;
    };
    struct chain : dsl::infix_op_list
    {
        static constexpr auto op = dsl::op<op_state>(dsl::lit_c<'<'>);
        using operand            = sum;
    };
    using operation             = chain;
    static constexpr auto value = both<"sx">;
};
struct ops // operators outside of an expression
{
    static constexpr auto rule  = dsl::lit_c<'j'> >> dsl::p<leaf> + (dsl::op<op_state>(dsl::lit_c<'+'>) | (dsl::op<op_pos>(dsl::lit_c<'-'>) / dsl::op<op_state>(dsl::lit_c<'~'>)) | dsl::else_ >> dsl::op<op_state>(dsl::lit_c<'='>)) + dsl::p<leaf>;
    static constexpr auto value = mk<"ops">;
};
struct production
{
    using parse_state = State;
    static constexpr auto whitespace = dsl::ascii::space;
    static constexpr auto rule       = dsl::list(dsl::p<st> | dsl::p<bound> | dsl::p<ag> | dsl::p<comb> | dsl::p<cons> | dsl::p<nw> | dsl::p<ret> | dsl::p<pas> | dsl::p<fwd> | dsl::p<eff> | dsl::p<foldl> | dsl::p<concat> | dsl::p<coll> | dsl::p<ops> | dsl::lit_c<'x'> >> dsl::p<sx> | dsl::lit_c<'#'> >> dsl::p<scanned>, dsl::sep(dsl::semicolon)) + dsl::eof;
    static constexpr auto value      = lst<"l"> >> mk<"state">;
};
} // namespace g_state
using gram::T;
GRAMMAR(state, g_state::production, lexy::utf8_char_encoding,
        T("sa;sb;txy;sc", "aqbrn12;axn5;az", "cxaybz3;cya;cxaxb", "k1a;k2;wab;ra;r!", "pa;pab;fa;ea;labcdef;v(ab),(),(c);oabc;o;#a;#b", "sa;txq1", "wa", "axbyn99999999999", "v(a),(1)", "#1"),
        T("s", "t", "a", "b", "n1", "c", "x", "y", "z1", "k1", "w", "r", "!", "?", "p", "f", "e", "l", "v", "(", ")", ",", "o", "#", ";", "x", "j", "+", "++", "'", "<", "~"))
