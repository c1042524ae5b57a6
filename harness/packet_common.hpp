// Checksums of the harness (the library leaves them to its user), and frames written byte by byte.
#pragma once
#include <algorithm>
#include <array>
#include <cstdint>
#include <cstring>
#include <string>
#include <vector>
#include <xitren/func/data.hpp>

// What the checksum was computed over, in this execution.
struct Range {
    void const* first;
    std::size_t n;
};
inline std::vector<Range>* ranges{};

inline std::uint16_t
crc16(std::uint8_t const* p, std::size_t n)
{
    std::uint16_t r = 0xffff;
    for (std::size_t i = 0; i < n; i++) {
        r = static_cast<std::uint16_t>(r ^ (p[i] << 8));
        for (int k = 0; k < 8; k++)
            r = static_cast<std::uint16_t>(r & 0x8000 ? (r << 1) ^ 0x1021 : r << 1);
    }
    return r;
}
inline std::uint32_t
crc32(std::uint8_t const* p, std::size_t n)
{
    std::uint32_t r = 0xffffffff;
    for (std::size_t i = 0; i < n; i++) {
        r ^= p[i];
        for (int k = 0; k < 8; k++)
            r = r & 1 ? (r >> 1) ^ 0xedb88320u : r >> 1;
    }
    return ~r;
}

template <class Iterator>
std::vector<std::uint8_t>
bytes_of(Iterator b, Iterator e)
{
    std::vector<std::uint8_t> v;
    auto const                n = e - b;
    if (ranges)
        ranges->push_back({n > 0 ? static_cast<void const*>(&*b) : nullptr, static_cast<std::size_t>(n)});
    if (n > 0 && n < 100000)
        v.assign(b, e);
    return v;
}

// CRC-16/CCITT, low byte first.
struct Crc16 {
    using value_type = xitren::func::lsb_t<std::uint16_t>;
    static constexpr std::size_t size = 2;
    template <class Iterator>
    static value_type
    calculate(Iterator b, Iterator e)
    {
        auto const v = bytes_of(b, e);
        return value_type{crc16(v.data(), v.size())};
    }
    static std::array<std::uint8_t, 2>
    bytes(std::uint8_t const* p, std::size_t n)
    {
        auto const r = crc16(p, n);
        return {static_cast<std::uint8_t>(r), static_cast<std::uint8_t>(r >> 8)};
    }
};
// CRC-32, high byte first.
struct Crc32 {
    using value_type = xitren::func::msb_t<std::uint32_t>;
    static constexpr std::size_t size = 4;
    template <class Iterator>
    static value_type
    calculate(Iterator b, Iterator e)
    {
        auto const v = bytes_of(b, e);
        return value_type{crc32(v.data(), v.size())};
    }
    static std::array<std::uint8_t, 4>
    bytes(std::uint8_t const* p, std::size_t n)
    {
        auto const r = crc32(p, n);
        return {static_cast<std::uint8_t>(r >> 24), static_cast<std::uint8_t>(r >> 16), static_cast<std::uint8_t>(r >> 8),
                static_cast<std::uint8_t>(r)};
    }
};

inline std::string
hex(std::vector<std::uint8_t> const& v)
{
    std::string s;
    char        b[4];
    for (auto x : v) {
        std::snprintf(b, sizeof b, "%02x ", x);
        s += b;
    }
    return s;
}
