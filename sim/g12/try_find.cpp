#include "stmts.hpp"
namespace g12_try_find
{
using namespace S;
struct line : lexy::transparent_production
{
    static constexpr auto rule  = dsl::try_(dsl::try_(dsl::p<stmt>, dsl::find(nl)) + nl, dsl::until(nl));
    static constexpr auto value = mk<"line">;
};
struct doc : doc_base<doc>
{
    static constexpr auto rule = outer + dsl::if_(dsl::peek_not(dsl::eof) >> dsl::list(dsl::peek_not(dsl::eof) >> dsl::p<line>));
    static constexpr auto value = both<"doc">;
};
} // namespace g12_try_find
GRAMMAR(try_find, g12_try_find::doc, lexy::ascii_encoding, S::samples(), S::snippets())
