#include "stmts.hpp"
namespace g12_sep_list
{
using namespace S;
struct doc : doc_base<doc>
{
    static constexpr auto rule = outer + dsl::terminator(dsl::eof).opt_list(dsl::p<stmt>, dsl::ignore_trailing_sep(nl));
};
} // namespace g12_sep_list
GRAMMAR(sep_list, g12_sep_list::doc, lexy::utf8_encoding, S::samples(), S::snippets())
