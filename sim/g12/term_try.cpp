#include "stmts.hpp"
namespace g12_term_try
{
using namespace S;
struct line
{
    static constexpr auto rule  = dsl::try_(dsl::terminator(nl).try_(dsl::p<stmt>), dsl::until(nl));
    static constexpr auto value = mk<"line">;
};
struct doc : doc_base<doc>
{
    static constexpr auto rule = outer + dsl::terminator(dsl::eof).opt_list(dsl::p<line>);
};
} // namespace g12_term_try
GRAMMAR(term_try, g12_term_try::doc, lexy::utf8_char_encoding, S::samples(), S::snippets())
