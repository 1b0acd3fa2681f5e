#include HARNESS_OPS
namespace g_xml
{
namespace dsl = lexy::dsl;
using namespace gram;

struct comment
{
    static constexpr auto rule  = LEXY_LIT("<!--") >> dsl::until(LEXY_LIT("-->"));
    static constexpr auto value = mk<"comment">;
};
struct cdata
{
    static constexpr auto rule  = dsl::delimited(LEXY_LIT("<![CDATA["), LEXY_LIT("]]>"))(dsl::unicode::character);
    static constexpr auto value = lexy::as_string<std::string> >> mk<"cdata">;
};
struct text
{
    static constexpr auto rule = [] {
        auto chr = dsl::unicode::character - dsl::lit_c<'<'> - dsl::lit_c<'&'>;
        return dsl::while_one(chr) >> dsl::position;
    }();
    static constexpr auto value = mk<"text">;
};
struct reference
{
    static constexpr auto entities
        = lexy::symbol_table<char>.map<LEXY_SYMBOL("quot")>('"').map<LEXY_SYMBOL("amp")>('&').map<LEXY_SYMBOL("lt")>('<').map<LEXY_SYMBOL("ltx")>('x');
    static constexpr auto rule  = dsl::ampersand >> (dsl::lit_c<'#'> >> dsl::integer<std::uint8_t> | dsl::else_ >> dsl::symbol<entities>) + dsl::semicolon;
    static constexpr auto value = mk<"ref">;
};
constexpr auto name = dsl::identifier(dsl::unicode::xid_start_underscore, dsl::unicode::xid_continue / LEXY_LIT("-"));
struct attribute
{
    static constexpr auto rule  = name >> dsl::lit_c<'='> + dsl::quoted(dsl::unicode::character - dsl::lit_c<'<'>, dsl::escape(dsl::lit_c<'\\'>).capture(dsl::ascii::character));
    static constexpr auto value = lst<"attr"> >> mk<"attribute">;
};
struct element
{
    struct mismatch
    {
        static constexpr auto name = "wrong closing tag";
    };
    static constexpr auto whitespace = dsl::ascii::blank;
    static constexpr auto rule       = [] {
        auto var     = dsl::context_identifier<struct tag_>(name);
        auto ws      = dsl::whitespace(dsl::ascii::blank / dsl::ascii::newline);
        auto open    = dsl::lit_c<'<'>;
        auto content = dsl::p<comment> | dsl::p<cdata> | dsl::p<reference> | dsl::p<text> | dsl::else_ >> dsl::recurse<element>;
        auto close   = LEXY_LIT("</") >> var.rematch().error<mismatch> + dsl::lit_c<'>'>;
        return open >> var.create() + var.capture() + ws + dsl::if_(dsl::lit_c<'@'> >> dsl::p<attribute>)
                   + dsl::lit_c<'>'> + dsl::terminator(close).opt_list(content);
    }();
    static constexpr auto value = lst<"children"> >> mk<"element">;
};
struct production
{
    static constexpr auto max_recursion_depth = 8;
    static constexpr auto rule  = dsl::p<element> + dsl::eof;
    static constexpr auto value = mk<"doc">;
};
} // namespace g_xml
using gram::T;
GRAMMAR(xml, g_xml::production, lexy::utf8_char_encoding,
        T("<a>text &amp; more<!-- c --><b-c>x</b-c><![CDATA[ <raw> ]]>&#12;</a>", "<x @k=\"va\\\"lue\">\xC3\xA4\xE2\x82\xAC</x>", "<a><a><a></a></a></a>",
          "<a></b>", "<a>&ltx;&lt;&unk;</a>", "<\xC3\xA4\xC3\xB6>t</\xC3\xA4\xC3\xB6>", "<a>unclosed", "<a>&#999;</a>", "<a><!-- open", "<aa></a>", "<a></aa>"),
        T("<", ">", "</", "a>", "<b>", "</b>", "&", ";", "&amp;", "<!--", "-->", "<![CDATA[", "]]>", "@k=\"v\"", "\"", "\\", "text text text text", "\n", "\xC3\xA4"))
