#include "stmts.hpp"
namespace g12_scan_lines
{
using namespace S;
struct doc : lexy::scan_production<Val>
{
    static constexpr auto name                = "doc";
    static constexpr auto max_recursion_depth = 6;
    static constexpr auto whitespace          = doc_base<doc>::whitespace;
    static constexpr auto rule                = outer + dsl::scan;
    static constexpr auto value               = lexy::forward<Val>;

    template <typename Context, typename Reader>
    static scan_result scan(lexy::rule_scanner<Context, Reader>& s)
    {
        std::string text = "doc[";
        while (!s.is_at_eof())
        {
            lexy::scan_result<Val> v;
            s.parse(v, dsl::p<stmt>);
            if (s)
                s.parse(nl);
            if (!s)
            {
                auto guard = s.error_recovery();
                while (!s.is_at_eof() && !s.peek(nl) && s.discard(dsl::ascii::character))
                {}
                s.parse(nl);
                std::move(guard).finish();
            }
            if (v)
                desc(text, std::move(v).value());
            text += ",";
        }
        return Val(text + "]");
    }
};
} // namespace g12_scan_lines
GRAMMAR(scan_lines, g12_scan_lines::doc, lexy::default_encoding, S::samples(), S::snippets())
