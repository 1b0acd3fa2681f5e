#include HARNESS_OPS
namespace g_misc
{
struct sub;
}
LEXY_DECLARE_SUBGRAMMAR(g_misc::sub)
namespace g_misc
{
namespace dsl = lexy::dsl;
using namespace gram;
struct tag
{
    static constexpr auto name = "tag";
};
struct leaf
{
    static constexpr auto rule  = dsl::capture(dsl::ascii::lower);
    static constexpr auto value = mk<"leaf">;
};
// a grammar inside the grammar
struct cell
{
    static constexpr auto rule  = dsl::parenthesized.opt_list(dsl::recurse<struct cells>, dsl::sep(dsl::comma));
    static constexpr auto value = lst<"cell"> >> mk<"cell">;
};
struct cells
{
    static constexpr auto rule  = dsl::p<cell> | dsl::p<leaf> | LEXY_LIT("::") >> dsl::subgrammar<sub, Val>;
    static constexpr auto value = mk<"cells">;
};
struct sub
{
    static constexpr auto c          = dsl::context_counter<struct cid>;
    static constexpr auto whitespace = dsl::lit_c<'_'>;
    static constexpr auto rule       = c.create() + dsl::list(dsl::p<cells> | dsl::lit_c<'^'> >> c.inc() + dsl::nullopt) + c.value() + dsl::period;
    static constexpr auto value      = both<"sub">;
};
struct outer
{
    static constexpr auto c     = dsl::context_counter<struct cid>;
    static constexpr auto rule  = dsl::lit_c<'&'> >> c.create<3>() + dsl::subgrammar<sub, Val> + c.inc() + c.value() + dsl::no_whitespace(dsl::opt(dsl::lit_c<'-'> >> dsl::subgrammar<sub, Val>)) + dsl::try_(LEXY_LIT("!"), dsl::nullopt);
    static constexpr auto value = mk<"outer">;
};
inline Val effect_val() { point("effect"); return Val("eff"); }
inline void effect_void() { point("effect"); }
static constexpr auto eff_val = &effect_val;
static constexpr auto eff_void = &effect_void;
struct eff
{
    static constexpr auto rule  = dsl::lit_c<'e'> >> dsl::effect<eff_val> + dsl::effect<eff_void> + dsl::p<leaf> + dsl::effect<eff_val> + dsl::lit_c<'.'>;
    static constexpr auto value = mk<"eff">;
};
struct units_
{
    static constexpr auto rule  = dsl::lit_c<'u'> >> dsl::code_unit_id<lexy::utf8_char_encoding, 2> + dsl::opt(LEXY_ASCII_ONE_OF("xyz") >> dsl::code_unit_id<lexy::utf8_char_encoding, 3, dsl::octal>);
    static constexpr auto value = mk<"units">;
};
struct quotes
{
    static constexpr auto rule  = dsl::triple_backticked(dsl::ascii::print) | dsl::double_backticked(dsl::ascii::print, dsl::dollar_escape.rule(dsl::p<leaf>)) | dsl::triple_quoted(dsl::ascii::alnum) | dsl::single_quoted(dsl::ascii::alpha / LEXY_ASCII_ONE_OF("+-"));
    static constexpr auto value = lst<"quotes"> >> mk<"quotes">;
};
struct obj
{
    Val  v;
    Val  get() && { point("callback"); return std::move(v); }
    Val  add(Val&& o) const { point("callback"); std::string s = "add"; desc(s, v); desc(s, std::move(o)); return Val(s); }
};
struct obj_p
{
    static constexpr auto rule  = dsl::p<leaf>;
    static constexpr auto value = lexy::construct<obj>;
};
struct memf
{
    static constexpr auto rule  = dsl::lit_c<'m'> >> dsl::p<obj_p>;
    static constexpr auto value = lexy::mem_fn(&obj::get);
};
struct memg
{
    static constexpr auto rule  = dsl::lit_c<'n'> >> dsl::p<obj_p> + dsl::p<leaf>;
    static constexpr auto value = lexy::mem_fn(&obj::add);
};
struct cst
{
    static constexpr auto rule  = dsl::lit_c<'k'> >> dsl::if_(dsl::p<leaf>);
    static constexpr auto value = lexy::callback(lexy::constant(7), lexy::callback<int>([](Val&& v) { point("callback"); Val w(std::move(v)); return int(w.text.size()); }));
};
struct bnd
{
    static constexpr auto rule  = dsl::lit_c<'b'> >> dsl::opt(dsl::p<leaf>) + dsl::opt(dsl::p<leaf>);
    static constexpr auto value = lexy::bind(mk<"bnd">, lexy::_1.or_default(), 5, lexy::_2);
};
struct start_at
{
    struct sink_t
    {
        using return_type = Val;
        Val  v;
        void operator()(Val&& x) { point("sink"); desc(v.text, std::move(x)); }
        Val  finish() && { point("sink-finish"); return std::move(v); }
    };
    auto sink(int n, const char* s) const { point("sink-creation"); return sink_t{Val(std::string(std::size_t(n), 'z') + s)}; }
};
struct bsink
{
    static constexpr auto rule  = dsl::lit_c<'l'> >> dsl::list(dsl::p<leaf>);
    static constexpr auto value = lexy::bind_sink(start_at{}, 3, "start") >> mk<"bsink">;
};
struct text
{
    static constexpr auto rule  = dsl::lit_c<'t'> >> dsl::capture(dsl::ascii::case_folding(LEXY_LIT("AbC"))) + dsl::identifier(dsl::ascii::alpha_digit_underscore);
    static constexpr auto value = mk<"text">;
};
struct cf
{
    static constexpr auto rule  = dsl::lit_c<'f'> >> dsl::identifier(dsl::ascii::alpha);
    static constexpr auto value = lexy::as_string<std::string>.case_folding(dsl::ascii::case_folding) >> mk<"cf">;
};
struct cf2
{
    static constexpr auto rule  = dsl::lit_c<'g'> >> dsl::capture(dsl::token(dsl::while_(dsl::ascii::alpha / dsl::unicode::alpha)));
    static constexpr auto value = lexy::as_string<std::string, lexy::utf8_char_encoding>.case_folding(dsl::unicode::simple_case_folding);
};
struct cf_v
{
    static constexpr auto rule  = dsl::p<cf> | dsl::p<cf2>;
    static constexpr auto value = mk<"cfv">;
};
struct item
{
    static constexpr auto rule  = dsl::p<outer> | dsl::p<eff> | dsl::p<units_> | dsl::p<quotes> | dsl::p<memf> | dsl::p<memg> | dsl::p<cst> | dsl::p<bnd> | dsl::p<bsink> | dsl::p<text> | dsl::p<cf_v>;
    static constexpr auto value = mk<"item">;
};
struct production
{
    static constexpr auto max_recursion_depth = 6;
    static constexpr auto whitespace = dsl::ascii::blank;
    static constexpr auto rule       = dsl::list(dsl::try_(dsl::p<item>, dsl::until(dsl::lit_c<';'>)) >> dsl::eol) + dsl::eof;
    static constexpr auto value      = lst<"l"> >> mk<"misc">;
};
} // namespace g_misc
LEXY_DEFINE_SUBGRAMMAR(g_misc::sub)
using gram::T;
GRAMMAR(misc, g_misc::production, lexy::utf8_char_encoding,
        T("&a_b_(c,_d)^.!\nea.\nu4F\nu41x101", "& (a,::b.)_.-c.!\n&::(a).b.", "```a b```\n``a$b c``\n\"\"\"ab1\"\"\"\n'a+b'", "ma\nnab\nk\nka\nbab\nba\nb\nlabcd", "tabcx_1\ntABCx\nfHello\ngW\xC3\x96rld", "&a^^(b.!", "&a.-b", "uF\nuFFx777", "&((((((((a)))))))).", "e1\nx;\nla", "n", "&::::a...!"),
        T("&", "::", "(", ")", ",", "_", "^", ".", "!", "-", "e", "u", "4F", "x", "101", "777", "`", "``", "```", "$", "'''", "\"", "+", "m", "n", "k", "b", "l", "t", "AbC", "f", "g", "\xC3\x96", ";", "\n", "\r\n", " ", "a"))
