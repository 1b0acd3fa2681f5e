#include HARNESS_OPS
namespace g_bytes
{
namespace dsl = lexy::dsl;
using namespace gram;
struct is_small
{
    static constexpr auto name() { return "small"; }
    constexpr bool operator()(unsigned char c) const { return c < 0x10; }
};
struct hdr
{
    static constexpr auto rule  = dsl::bits(dsl::bit::_1, dsl::bit::nibble<0xA>, dsl::bit::_, dsl::bit::_0, dsl::bit::_1) >> dsl::bint8 + dsl::big_bint16 + dsl::little_bint32 + dsl::padding_bytes<2, 0>;
    static constexpr auto value = mk<"hdr">;
};
struct raw
{
    static constexpr auto rule  = dsl::byte.range<'0', '9'>() >> dsl::capture(dsl::bytes<3>) + dsl::capture(dsl::byte) + dsl::big_bint64 + dsl::little_bint16;
    static constexpr auto value = mk<"raw">;
};
struct asc
{
    static constexpr auto rule  = dsl::byte.set<'a', 'b', 'c'>() >> dsl::capture(dsl::token(dsl::while_(dsl::byte.ascii()))) + dsl::opt(dsl::bom<lexy::utf8_encoding, lexy::encoding_endianness::bom> >> dsl::position) + dsl::opt(dsl::bom<lexy::utf16_encoding, lexy::encoding_endianness::big> >> dsl::position);
    static constexpr auto value = mk<"asc">;
};
struct len
{
    static constexpr auto rule  = dsl::byte.set<'L'>() >> dsl::repeat(dsl::bint8).capture(dsl::byte);
    static constexpr auto value = mk<"len">;
};
struct pad
{
    static constexpr auto rule  = LEXY_LIT("PAD") >> dsl::padding_bytes<4, 0x20> + dsl::capture(dsl::any);
    static constexpr auto value = mk<"pad">;
};
struct magic
{
    static constexpr auto rule  = dsl::lit_b<0x7F, 'E', 'L', 'F', 1, 2, 3, 4, 5> >> dsl::bint32 + dsl::position;
    static constexpr auto value = mk<"magic">;
};
struct bits16
{
    static constexpr auto rule  = dsl::byte.set<'B'>() >> dsl::big_bint16(dsl::token(dsl::while_one(dsl::byte.if_<is_small>())));
    static constexpr auto value = lexy::bit_cast<std::int16_t> | mk<"bits16">;
};
struct production
{
    static constexpr auto rule  = dsl::terminator(dsl::eof).opt_list(dsl::try_(dsl::p<hdr> | dsl::p<raw> | dsl::p<asc> | dsl::p<len> | dsl::p<pad> | dsl::p<magic> | dsl::p<bits16>, dsl::byte));
    static constexpr auto value = lst<"l"> >> mk<"bytes">;
};
} // namespace g_bytes
using gram::T;
#define BY_S T("\xD1\x01\x02\x03\x04\x05\x06\x07\x00\x00", "1abcd\x01\x02\x03\x04\x05\x06\x07\x08\x10\x20", "atext text\xEF\xBB\xBF", "bx\xFE\xFF", "L\x03xyzL\x00L\x05xy", "PAD    anything goes here until the end", "PADxx  ", "B\x01\x02""B\x0F""B\x01\x02\x03""B", "\x7F""ELF\x01\x02\x03\x04\x05\xAA\xBB\xCC\xDD", "\x7F""ELF\x01\x02\x03\x04\x06", "\xD1\x01\x02\x03\x04\x05\x06\x07\x01\x00")
#define BY_N T("\xD1", "\xD5", "1", "a", "L\x02", "PAD", "    ", "\x7F""ELF", "\xEF\xBB\xBF", "\xFE\xFF", "\xFF\xFE", std::string_view("\x00\x00", 2).data(), "\x80", "\xFF", "zzzz")
GRAMMAR(bytes, g_bytes::production, lexy::byte_encoding, BY_S, T("\xD1", "\xD5", "1", "a", "L\x02", "PAD", "    ", "\x7F""ELF", "\xEF\xBB\xBF", "\xFE\xFF", "\xFF\xFE", "\x00\x00", "\x80", "\xFF", "zzzz"))
