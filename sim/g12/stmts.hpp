// One line of a document: anything that keeps state while it is parsed, and may fail in the middle of it.
#include "../c12_ops.hpp"
#include <set>
namespace S
{
namespace dsl = lexy::dsl;
using namespace gram;
constexpr auto nl = dsl::lit_c<'\n'>;

struct tag
{
    static constexpr auto name = "tag";
};
struct word
{
    static constexpr auto rule  = dsl::identifier(dsl::ascii::alpha, dsl::ascii::alnum);
    static constexpr auto value = mk<"w">;
};

//=== recursion ===//
struct nest
{
    static constexpr auto rule  = dsl::round_bracketed.limit(nl).opt_list(dsl::recurse<struct node>, dsl::sep(dsl::comma));
    static constexpr auto value = both<"nest">;
};
struct hard // no recovery of its own
{
    static constexpr auto rule  = dsl::square_bracketed(dsl::recurse<struct node>);
    static constexpr auto value = mk<"hard">;
};
struct soft // recovers in the middle
{
    static constexpr auto rule  = dsl::lit_c<'!'> >> dsl::try_(dsl::recurse<struct node>, dsl::find(dsl::semicolon).limit(nl)) + dsl::semicolon;
    static constexpr auto value = mk<"soft">;
};
struct brnch
{
    static constexpr auto rule  = dsl::lit_c<'^'> >> (dsl::recurse_branch<struct node> | dsl::lit_c<'-'> | dsl::else_ >> dsl::error<tag>);
    static constexpr auto value = mk<"brnch">;
};
struct node
{
    static constexpr auto rule  = dsl::p<nest> | dsl::p<hard> | dsl::p<soft> | dsl::p<brnch> | dsl::p<word>;
    static constexpr auto value = mk<"node">;
};

//=== whitespace ===//
struct tight
{
    static constexpr auto rule  = dsl::lit_c<'$'> >> dsl::no_whitespace(dsl::list(dsl::capture(dsl::ascii::digit), dsl::sep(dsl::lit_c<':'>))) + dsl::semicolon;
    static constexpr auto value = both<"tight">;
};
struct tok : lexy::token_production
{
    struct part
    {
        static constexpr auto rule  = dsl::no_whitespace(dsl::ascii::lower + dsl::if_(dsl::lit_c<'\''> >> dsl::ascii::upper)) + dsl::capture(dsl::ascii::digit);
        static constexpr auto value = mk<"part">;
    };
    static constexpr auto rule  = dsl::hash_sign >> dsl::list(dsl::p<part>, dsl::sep(dsl::lit_c<'-'>));
    static constexpr auto value = both<"tok">;
};
struct own
{
    static constexpr auto whitespace = dsl::lit_c<'_'> | dsl::lit_c<'='> >> dsl::lit_c<'>'>;
    static constexpr auto rule       = dsl::lit_c<'o'> + dsl::lit_c<'p'> + dsl::opt(dsl::p<tok>) + dsl::try_(dsl::lit_c<'q'>) + dsl::no_whitespace(dsl::lit_c<'r'> + dsl::lit_c<'s'>) + dsl::lit_c<'t'>;
    static constexpr auto value      = mk<"own">;
};
struct mixed
{
    static constexpr auto rule = dsl::percent_sign >> dsl::try_(dsl::no_whitespace(dsl::lit_c<'a'> + dsl::try_(dsl::p<tok>, dsl::nullopt) + dsl::lit_c<'b'>), dsl::find(dsl::lit_c<'c'>).limit(nl)) + dsl::lit_c<'c'> + dsl::p<word>;
    static constexpr auto value = mk<"mixed">;
};

//=== context variables ===//
struct raw
{
    static constexpr auto id    = dsl::context_identifier<struct rid>(dsl::identifier(dsl::ascii::alpha));
    static constexpr auto rule  = LEXY_LIT("R:") >> id.create() + id.capture() + dsl::lit_c<'('> + dsl::while_(dsl::ascii::digit) + dsl::lit_c<')'> + id.rematch().error<tag>;
    static constexpr auto value = mk<"raw">;
};
struct count
{
    static constexpr auto c     = dsl::context_counter<struct cid>;
    static constexpr auto f     = dsl::context_flag<struct fid>;
    static constexpr auto rule  = LEXY_LIT("C:") >> c.create() + f.create() + dsl::while_(dsl::lit_c<'a'> >> c.inc() | dsl::lit_c<'b'> >> f.toggle()) + dsl::opt(dsl::lit_c<'('> >> dsl::recurse<struct count_in> + dsl::lit_c<')'>) + dsl::while_(dsl::lit_c<'a'> >> c.inc()) + (c.is<2>() >> dsl::lit_c<'!'> | dsl::else_ >> dsl::position) + dsl::if_(f.is_set() >> dsl::lit_c<'?'>) + c.value() + f.value();
    static constexpr auto value = mk<"count">;
};
struct count_in
{
    static constexpr auto c     = dsl::context_counter<struct cid>;
    static constexpr auto rule  = c.create<5>() + dsl::while_(dsl::lit_c<'c'> >> c.inc()) + dsl::if_(dsl::p<count>) + c.value();
    static constexpr auto value = mk<"cin">;
};

// Variables of the document; a line may create its own under the same name, or look at these.
constexpr auto outer = dsl::context_counter<struct cid>.create<3>() + dsl::context_flag<struct fid>.create<true>() + dsl::context_counter<struct oid>.create<7>();
struct query
{
    static constexpr auto c     = dsl::context_counter<struct cid>;
    static constexpr auto f     = dsl::context_flag<struct fid>;
    static constexpr auto o     = dsl::context_counter<struct oid>;
    static constexpr auto rule  = LEXY_LIT("q:") >> (c.is<3>() >> dsl::lit_c<'c'> | dsl::else_ >> dsl::error<tag>) + (f.is_set() >> dsl::lit_c<'f'> | dsl::else_ >> dsl::error<tag>) + (o.is<7>() >> dsl::opt(dsl::lit_c<'o'>) | dsl::else_ >> dsl::error<tag>) + c.value() + f.value() + o.value() + dsl::opt(dsl::p<word>);
    static constexpr auto value = mk<"query">;
};

//=== expressions ===//
struct expr : lexy::expression_production
{
    static constexpr auto atom = dsl::parenthesized.limit(nl)(dsl::recurse<expr>) | dsl::integer<int> | dsl::identifier(dsl::ascii::alpha) | dsl::error<tag>;
    struct prefix : dsl::prefix_op
    {
        static constexpr auto op = dsl::op<0>(dsl::lit_c<'-'>);
        using operand            = dsl::atom;
    };
    struct mul : dsl::infix_op_left
    {
        static constexpr auto op = dsl::op<1>(dsl::lit_c<'*'>) / dsl::op<2>(dsl::square_bracketed.limit(nl)(dsl::recurse<expr>));
        using operand            = prefix;
    };
    struct pow : dsl::infix_op_right
    {
        static constexpr auto op = dsl::op<3>(dsl::lit_c<'^'>);
        using operand            = mul;
    };
    struct chain : dsl::infix_op_list
    {
        static constexpr auto op = dsl::op<4>(dsl::lit_c<'+'>);
        using operand            = pow;
    };
    struct cmp : dsl::infix_op_single
    {
        static constexpr auto op = dsl::op<5>(LEXY_LIT("=="));
        using operand            = chain;
    };
    using operation             = cmp;
    static constexpr auto value = both<"expr">;
};
struct calc
{
    static constexpr auto rule  = dsl::lit_c<'='> >> dsl::p<expr> + dsl::if_(dsl::semicolon >> dsl::try_(dsl::p<expr>, dsl::find(dsl::semicolon).limit(nl)) + dsl::semicolon);
    static constexpr auto value = mk<"calc">;
};

//=== delimited ===//
struct dq
{
    static constexpr auto rule  = dsl::quoted.limit(dsl::ascii::newline)(dsl::ascii::character, dsl::backslash_escape.capture(dsl::ascii::punct).rule(dsl::lit_c<'u'> >> dsl::code_point_id<2>)) >> dsl::opt(dsl::p<word>);
    static constexpr auto value = both<"dq">;
};
struct inter
{
    static constexpr auto rule  = dsl::delimited(dsl::lit_c<'\''>).limit(dsl::ascii::newline)(dsl::ascii::print, dsl::dollar_escape.rule(dsl::lit_c<'{'> >> dsl::recurse<struct node> + dsl::lit_c<'}'>));
    static constexpr auto value = both<"inter">;
};

//=== lists and the like ===//
struct lists
{
    static constexpr auto item  = dsl::try_(dsl::p<word>, dsl::nullopt);
    static constexpr auto rule  = dsl::curly_bracketed.limit(nl).opt_list(dsl::lit_c<'<'> >> dsl::p<word> + dsl::lit_c<'>'> | dsl::p<word> | dsl::lit_c<'{'> >> dsl::recurse<struct node> + dsl::lit_c<'}'>, dsl::trailing_sep(dsl::comma));
    static constexpr auto value = both<"lists">;
};
struct comb
{
    static constexpr auto rule  = LEXY_LIT("c:") >> dsl::combination(dsl::lit_c<'1'> >> dsl::p<word>, dsl::lit_c<'2'> >> dsl::capture(dsl::ascii::digit), dsl::lit_c<'3'> >> dsl::position) + dsl::opt(dsl::lit_c<'.'> >> dsl::times<2>(dsl::p<word>, dsl::sep(dsl::comma)));
    static constexpr auto value = both<"comb">;
};
struct nums
{
    static constexpr auto rule  = LEXY_LIT("n:") >> dsl::list(dsl::sign + dsl::integer<signed char>(dsl::digits<>.sep(dsl::digit_sep_tick).no_leading_zero()) + dsl::opt(dsl::lit_c<'x'> >> dsl::integer<int, dsl::hex>(dsl::n_digits<2, dsl::hex>)), dsl::sep(dsl::comma));
    static constexpr auto value = both<"nums">;
};
struct look
{
    static constexpr auto rule  = LEXY_LIT("l:") >> (dsl::lookahead(LEXY_LIT("=>"), nl) >> dsl::p<word> + LEXY_LIT("=>") + dsl::p<word> | dsl::peek(dsl::ascii::digit + dsl::ascii::alpha) >> dsl::ascii::digit + dsl::p<word> | dsl::peek_not(dsl::ascii::punct) >> dsl::p<word> | dsl::else_ >> dsl::must(dsl::lit_c<'@'>).error<tag>);
    static constexpr auto value = mk<"look">;
};
constexpr auto ident = dsl::identifier(dsl::ascii::alpha, dsl::ascii::alnum);
constexpr auto kw    = LEXY_KEYWORD("let", ident);
struct let
{
    static constexpr auto table = lexy::symbol_table<int>.map<'a'>(1).map(LEXY_LIT("bc"), 2);
    static constexpr auto rule  = kw >> ident.reserve(kw, LEXY_KEYWORD("var", ident)) + dsl::opt(dsl::colon >> dsl::symbol<table>(ident)) + dsl::recover(dsl::lit_c<'~'>).limit(nl) + dsl::try_(dsl::p<word>, dsl::recover(dsl::lit_c<';'>, dsl::lit_c<'0'> >> dsl::capture(dsl::ascii::digit)).limit(nl));
    static constexpr auto value = mk<"let">;
};
struct flags
{
    enum f
    {
        a = 1,
        b = 2
    };
    static constexpr auto table = lexy::symbol_table<f>.map<'a'>(a).map<'b'>(b);
    static constexpr auto rule  = LEXY_LIT("f:") >> dsl::flags(dsl::symbol<table>) + dsl::try_(dsl::lit_c<'.'>) + dsl::times<2>(dsl::p<word>);
    static constexpr auto value = mk<"flags">;
};
struct swap
{
    static constexpr auto rule  = LEXY_LIT("e:") >> dsl::try_(dsl::p<word> + dsl::lit_c<'='> + dsl::p<word>, dsl::while_(dsl::ascii::punct)) + dsl::error<tag>(dsl::while_(dsl::ascii::digit));
    static constexpr auto value = mk<"swap">;
};

//=== scan ===//
struct sc : lexy::scan_production<Val>
{
    template <typename Context, typename Reader>
    static scan_result scan(lexy::rule_scanner<Context, Reader>& s)
    {
        point("scan");
        std::string text = "sc:" + std::to_string(s.recursion_depth());
        while (s && !s.is_at_eof() && !s.peek(nl))
        {
            if (s.branch(dsl::lit_c<'<'>))
            {
                lexy::scan_result<Val> v;
                s.parse(v, dsl::recurse<struct node>);
                if (v)
                    desc(text, std::move(v).value());
            }
            else if (s.branch(dsl::lit_c<'.'>))
                s.parse(dsl::no_whitespace(dsl::ascii::digit + dsl::ascii::digit));
            else if (s.branch(dsl::lit_c<'!'>))
                s.fatal_error(tag{}, s.begin(), s.position());
            else
            {
                auto c = s.capture(dsl::token(dsl::while_one(dsl::ascii::lower)));
                if (c)
                    desc(text, c.value());
            }
            if (!s)
            {
                // Continue after a comma.
                auto guard = s.error_recovery();
                while (!s.is_at_eof() && !s.peek(nl) && !s.peek(dsl::comma) && s.discard(dsl::ascii::character))
                {}
                if (!s.branch(dsl::comma))
                {
                    std::move(guard).cancel();
                    return lexy::scan_failed;
                }
                std::move(guard).finish();
            }
        }
        desc(text, s.position());
        return s ? scan_result(Val(text)) : lexy::scan_failed;
    }
};

struct stmt
{
    static constexpr auto rule = dsl::p<raw> | dsl::p<count> | dsl::p<query> | dsl::p<comb> | dsl::p<nums> | dsl::p<look> | dsl::p<flags> | dsl::p<swap> | LEXY_LIT("s:") >> dsl::p<sc> | LEXY_LIT("w:") >> dsl::p<own> | dsl::p<let> | dsl::p<tight> | dsl::p<tok> | dsl::p<mixed> | dsl::p<calc> | dsl::p<dq> | dsl::p<inter> | dsl::p<lists> | dsl::p<node>;
    static constexpr auto value = mk<"stmt">;
};

template <typename D>
struct doc_base
{
    static constexpr auto name                = "doc";
    static constexpr auto max_recursion_depth = 6;
    static constexpr auto whitespace          = dsl::ascii::blank | dsl::lit_c<'`'> >> dsl::lit_c<'`'>;
    static constexpr auto value               = lst<"doc"> >> mk<"doc">;
};

inline auto samples()
{
    return T("(a,(b,c),[d])", "[[[[a]]]]", "((((((a))))))", "!a;", "!(a,!b;);", "^(a)", "^-", "[!^[a];]", "$1:2:3 ;", "#a1-b2", "#a'B3-c4", "w:o_p_q_rst", "w:o=>p#a1qrst", "%ab c word", "%a#a1b c word",
             "R:abc(12)abc", "C:aa!", "C:aab?!", "C:ab?", "C:(ccC:aa!)a", "C:(ccC:aa", "C:aa", "q:cfo", "q:cf word", "q:cfo x", "=1+2*-3^4==5", "=(1[2]);a;", "=((((1))))", "\"abc\\.\\u41\" word", "'a${(b)}c'", "{a, <b>, {c}, }", "c:1a25 3", "c:3 1b22.a,b", "n:+12,-3x0f,1'2", "l:a=>b",
             "l:1ab", "l:abc", "let x:a ~y", "let y:bc~ 05", "f:ab.x y", "e:a=b12", "s:ab<(c).12 d", "s:ab!x,cd", "abc", "a `` b", "");
}
inline auto snippets()
{
    return T("(", ")", "[", "]", "!", ";", "^", "-", "$", "1", ":", "#", "a", "'", "B", "w:", "o", "_", "=>", "p", "q", "rs", "t", "%", "b", "c", "R:", "C:", "q:cf", "?", "=", "+", "*", "==", "\"", "\\", "\\u", "${", "}", "{", "<", ">", ",", "n:", "x0f",
             "999", "l:", "@", "let ", "var", "~", "0", "f:", ".", "e:", "s:", " ", "`", "``", "((((((((", "[[[[[[[[", "!!!!!!!!", "\xC3\xA4", "\x01");
}
} // namespace S
