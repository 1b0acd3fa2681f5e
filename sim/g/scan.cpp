#include HARNESS_OPS
namespace g_scan
{
namespace dsl = lexy::dsl;
using namespace gram;
struct tag
{
    static constexpr auto name = "tag";
};
struct any_;
struct quiet
{
    static constexpr auto rule  = dsl::ascii::upper >> dsl::if_(dsl::lit_c<'\''>);
    static constexpr auto value = lexy::noop;
};
struct item
{
    static constexpr auto rule  = dsl::capture(dsl::ascii::lower) >> dsl::opt(dsl::lit_c<'\''>);
    static constexpr auto value = mk<"i">;
};
struct sum : lexy::scan_production<Val>
{
    template <typename Context, typename Reader>
    static scan_result scan(lexy::rule_scanner<Context, Reader>& s)
    {
        point("scan");
        std::string text = "sum:" + std::to_string(s.recursion_depth());
        desc(text, s.begin());
        do
        {
            auto i = s.template integer<int>(dsl::digits<>);
            if (!s)
                return lexy::scan_failed;
            text += "+" + std::to_string(i.value());
        } while (s.branch(dsl::lit_c<'+'>));
        desc(text, s.position());
        return Val(text);
    }
};
struct rec : lexy::scan_production<Val>
{
    template <typename Context, typename Reader>
    static scan_result scan(lexy::rule_scanner<Context, Reader>& s)
    {
        point("scan");
        std::string text = "rec";
        while (!s.is_at_eof() && !s.peek(dsl::semicolon))
        {
            lexy::scan_result<Val> v;
            if (s.branch(v, dsl::p<item>))
            {
                if (v)
                    desc(text, std::move(v).value());
            }
            else if (s.branch(dsl::lit_c<'#'>))
            {
                auto c = s.capture(dsl::token(dsl::ascii::digit + dsl::ascii::digit));
                if (c)
                    desc(text, c.value());
            }
            else if (s.branch(dsl::lit_c<'!'>))
                s.error(tag{}, s.begin(), s.position());
            else if (s.branch(dsl::lit_c<'?'>))
                s.error("message", s.begin(), s.position());
            else
                s.fatal_error(tag{}, s.position(), s.position());
            if (!s)
            {
                auto guard = s.error_recovery();
                bool found = false;
                while (!s.is_at_eof())
                {
                    if (s.branch(dsl::comma))
                    {
                        found = true;
                        break;
                    }
                    if (s.peek(dsl::semicolon) || !s.discard(dsl::ascii::character))
                        break;
                }
                if (!found)
                {
                    std::move(guard).cancel();
                    return lexy::scan_failed;
                }
                std::move(guard).finish();
            }
        }
        s.parse(dsl::semicolon);
        return s ? scan_result(Val(text)) : lexy::scan_failed;
    }
};
struct sub : lexy::scan_production<Val>
{
    template <typename Context, typename Reader>
    static scan_result scan(lexy::rule_scanner<Context, Reader>& s)
    {
        point("scan");
        auto a = s.template parse<sum>();
        if (!a)
            return lexy::scan_failed;
        s.parse(dsl::colon);
        lexy::scan_result<Val> b;
        s.parse(b, dsl::recurse<any_>);
        if (!s)
            return lexy::scan_failed;
        auto cap = s.capture(dsl::p<quiet>);
        std::string t = "sub";
        desc(t, std::move(a).value());
        desc(t, std::move(b).value());
        if (cap)
            desc(t, cap.value());
        return Val(t);
    }
};
struct cnt // arguments and a following rule
{
    using scan_result = lexy::scan_result<Val>;
    static constexpr auto rule  = dsl::lit_c<'='> >> dsl::capture(dsl::ascii::digit) + dsl::scan + dsl::opt(dsl::lit_c<'.'> >> dsl::position);
    template <typename Context, typename Reader>
    static scan_result scan(lexy::rule_scanner<Context, Reader>& s, lexy::lexeme<Reader> n)
    {
        point("scan");
        auto        count = unsigned(*n.begin()) - '0';
        std::string t     = "cnt";
        for (unsigned i = 0; i < count; ++i)
        {
            auto v = s.template parse<item>();
            if (!v)
                return lexy::scan_failed;
            desc(t, std::move(v).value());
        }
        return Val(t);
    }
    static constexpr auto value = mk<"cnt">;
};
struct nothing : lexy::scan_production<void>
{
    template <typename Context, typename Reader>
    static scan_result scan(lexy::rule_scanner<Context, Reader>& s)
    {
        point("scan");
        lexy::scan_result<void> r;
        if (s.branch(r, dsl::p<quiet>))
            return bool(r);
        s.parse(dsl::lit_c<'.'>);
        if (s.peek(dsl::lit_c<'.'>))
            return false;
        return r.has_value() || bool(s);
    }
    static constexpr auto value = lexy::noop;
};
struct any_
{
    static constexpr auto rule  = dsl::lit_c<'@'> >> dsl::p<sum> | dsl::lit_c<'%'> >> dsl::p<rec> | dsl::lit_c<'&'> >> dsl::p<sub> | dsl::lit_c<'^'> >> dsl::p<nothing> + dsl::position | dsl::p<cnt>;
    static constexpr auto value = mk<"any">;
};
struct production
{
    static constexpr auto max_recursion_depth = 5;
    static constexpr auto whitespace = dsl::ascii::blank;
    static constexpr auto rule       = dsl::terminator(dsl::eof).opt_list(dsl::try_(dsl::p<any_>, dsl::until(dsl::newline).or_eof()));
    static constexpr auto value      = lst<"l"> >> mk<"scan">;
};
} // namespace g_scan
using gram::T;
GRAMMAR(scan, g_scan::production, lexy::utf8_char_encoding,
        T("@1+2 + 3 %abc#12!?d'; =3abc.", "%ab,c;%a1x,b;%a#1,b#12;", "&1+2:@3 X'&1:&2:&3:@4abc", "=2a'b'c", "%abc", "%1;\n@x\n=9ab", "&1:&1:&1:&1:&1:&1:@1", "@99999999999", "%!!??;", "%#1", "^. ^A ^B' ^. @1", "^x ^.. ^"),
        T("@", "%", "&", "=", "1", "+", "a", "'", "#", "12", "!", "?", ",", ";", ":", ".", "\n", " ", "@1", "^", "^.", "%a", "3abc"))
