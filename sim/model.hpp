// Reference model of "these bytes, decoded": shared by the file and stdin harnesses.
#pragma once
#include <lexy/encoding.hpp>
#include <string>
#include <vector>

template <typename Encoding>
std::vector<std::uint32_t> model_units(const std::string& f, lexy::encoding_endianness e)
{
    constexpr auto w   = sizeof(typename Encoding::char_type);
    auto           b   = [&](std::size_t i) { return std::uint32_t((unsigned char)f[i]); };
    std::size_t    i   = 0;
    bool           big = e != lexy::encoding_endianness::little;
    if (e == lexy::encoding_endianness::bom)
    {
        big = true;
        if (std::is_same_v<Encoding, lexy::utf8_encoding>
            || std::is_same_v<Encoding, lexy::utf8_char_encoding>)
        {
            if (f.size() >= 3 && b(0) == 0xEF && b(1) == 0xBB && b(2) == 0xBF)
                i = 3;
        }
        else if (w == 2 && f.size() >= 2)
        {
            if (b(0) == 0xFF && b(1) == 0xFE)
                i = 2, big = false;
            else if (b(0) == 0xFE && b(1) == 0xFF)
                i = 2;
        }
        else if (w == 4 && f.size() >= 4)
        {
            if (b(0) == 0xFF && b(1) == 0xFE && b(2) == 0 && b(3) == 0)
                i = 4, big = false;
            else if (b(0) == 0 && b(1) == 0 && b(2) == 0xFE && b(3) == 0xFF)
                i = 4;
        }
    }
    std::vector<std::uint32_t> r;
    for (; i + w <= f.size(); i += w)
    {
        std::uint32_t v = 0;
        for (std::size_t k = 0; k < w; ++k)
            v |= b(i + k) << (8 * (big ? w - 1 - k : k));
        r.push_back(v);
    }
    return r;
}
template <typename CharT>
std::uint32_t unit_value(CharT c)
{
    if constexpr (sizeof(c) == 1)
        return static_cast<unsigned char>(c);
    else
        return std::uint32_t(c);
}
template <typename Encoding, typename Buffer>
bool same_units(const Buffer& buf, const std::string& bytes, lexy::encoding_endianness e)
{
    auto want = model_units<Encoding>(bytes, e);
    if (want.size() != buf.size())
        return false;
    for (std::size_t i = 0; i < want.size(); ++i)
        if (unit_value(buf.data()[i]) != want[i])
            return false;
    return true;
}
