#include "stmts.hpp"
namespace g12_try_until
{
using namespace S;
struct line
{
    static constexpr auto rule  = dsl::try_(dsl::p<stmt> + nl, dsl::until(nl));
    static constexpr auto value = mk<"line">;
};
struct doc : doc_base<doc>
{
    static constexpr auto rule = outer + dsl::terminator(dsl::eof).opt_list(dsl::p<line>);
};
} // namespace g12_try_until
GRAMMAR(try_until, g12_try_until::doc, lexy::utf16_encoding, S::samples(), S::snippets())
