// Independent reference model: encodings, width table, standard format specification.
// Written from the documentation (doc/en/*.md), works on sequences of code points.
#pragma once
#include <charconv>
#include <cmath>
#include <cstdint>
#include <optional>
#include <string>
#include <string_view>
#include <vector>
#include "vh.hpp"

namespace ref
{
using U32 = std::u32string;

// ---------- encodings ----------
inline void put_utf8(std::string& o, char32_t c)
{
    auto b = [&](unsigned v) { o += static_cast<char>(static_cast<unsigned char>(v)); };
    if(c < 0x80) b(c);
    else if(c < 0x800) { b(0xC0 | (c >> 6)); b(0x80 | (c & 63)); }
    else if(c < 0x10000) { b(0xE0 | (c >> 12)); b(0x80 | ((c >> 6) & 63)); b(0x80 | (c & 63)); }
    else { b(0xF0 | (c >> 18)); b(0x80 | ((c >> 12) & 63)); b(0x80 | ((c >> 6) & 63)); b(0x80 | (c & 63)); }
}

template <typename CharT>
std::basic_string<CharT> enc(std::u32string_view s)
{
    std::basic_string<CharT> r;
    if constexpr(sizeof(CharT) == 1)
    {
        std::string t;
        for(char32_t c : s) put_utf8(t, c);
        for(char c : t) r += static_cast<CharT>(c);
    }
    else if constexpr(sizeof(CharT) == 2)
    {
        for(char32_t c : s)
        {
            if(c < 0x10000) r += static_cast<CharT>(c);
            else
            {
                c -= 0x10000;
                r += static_cast<CharT>(0xD800 + (c >> 10));
                r += static_cast<CharT>(0xDC00 + (c & 0x3FF));
            }
        }
    }
    else
    {
        for(char32_t c : s) r += static_cast<CharT>(c);
    }
    return r;
}

inline std::string u8(std::u32string_view s) { return enc<char>(s); }

// Strict decoder. nullopt when the units are not well formed.
template <typename CharT>
std::optional<U32> dec(std::basic_string_view<CharT> s)
{
    U32 r;
    if constexpr(sizeof(CharT) == 1)
    {
        for(std::size_t i = 0; i < s.size();)
        {
            unsigned b = static_cast<unsigned char>(s[i]);
            int n;
            char32_t c;
            if(b < 0x80) { n = 1; c = b; }
            else if(b >= 0xC2 && b < 0xE0) { n = 2; c = b & 0x1F; }
            else if(b >= 0xE0 && b < 0xF0) { n = 3; c = b & 0x0F; }
            else if(b >= 0xF0 && b < 0xF5) { n = 4; c = b & 0x07; }
            else return std::nullopt;
            if(i + static_cast<std::size_t>(n) > s.size()) return std::nullopt;
            for(int k = 1; k < n; ++k)
            {
                unsigned t = static_cast<unsigned char>(s[i + static_cast<std::size_t>(k)]);
                if((t & 0xC0) != 0x80) return std::nullopt;
                c = (c << 6) | (t & 0x3F);
            }
            if((n == 3 && c < 0x800) || (n == 4 && c < 0x10000) || c > 0x10FFFF || (c >= 0xD800 && c < 0xE000))
                return std::nullopt;
            r += c;
            i += static_cast<std::size_t>(n);
        }
    }
    else if constexpr(sizeof(CharT) == 2)
    {
        for(std::size_t i = 0; i < s.size(); ++i)
        {
            char32_t u = static_cast<char16_t>(s[i]);
            if(u >= 0xD800 && u < 0xDC00)
            {
                if(i + 1 >= s.size()) return std::nullopt;
                char32_t v = static_cast<char16_t>(s[i + 1]);
                if(v < 0xDC00 || v >= 0xE000) return std::nullopt;
                r += 0x10000 + ((u - 0xD800) << 10) + (v - 0xDC00);
                ++i;
            }
            else if(u >= 0xDC00 && u < 0xE000) return std::nullopt;
            else r += u;
        }
    }
    else
    {
        for(CharT c : s) r += static_cast<char32_t>(c);
    }
    return r;
}

template <typename CharT>
std::optional<U32> dec(const std::basic_string<CharT>& s) { return dec<CharT>(std::basic_string_view<CharT>(s)); }

inline std::size_t units(char32_t c, std::size_t char_size)
{
    if(char_size == 1) return c < 0x80 ? 1 : c < 0x800 ? 2 : c < 0x10000 ? 3 : 4;
    if(char_size == 2) return c < 0x10000 ? 1 : 2;
    return 1;
}

inline U32 ascii(std::string_view s)
{
    U32 r;
    for(char c : s) r += static_cast<char32_t>(static_cast<unsigned char>(c));
    return r;
}

// ---------- documented width table ----------
inline std::size_t width(char32_t c)
{
    static const char32_t t[][2] = {
        {0x1100, 0x115F}, {0x2329, 0x232A}, {0x2E80, 0x303E}, {0x3040, 0xA4CF}, {0xAC00, 0xD7A3}, {0xF900, 0xFAFF}, {0xFE10, 0xFE19}, {0xFE30, 0xFE6F}, {0xFF00, 0xFF60}, {0xFFE0, 0xFFE6}, {0x1F300, 0x1F64F}, {0x1F900, 0x1F9FF}, {0x20000, 0x2FFFD}, {0x30000, 0x3FFFD}};
    for(auto& i : t)
        if(i[0] <= c && c <= i[1]) return 2;
    return 1;
}

inline std::size_t width(std::u32string_view s)
{
    std::size_t r = 0;
    for(char32_t c : s) r += width(c);
    return r;
}

// ---------- format specification ----------
struct Spec
{
    bool has_fill = false;
    char32_t fill = U' ';
    char32_t align = 0; // 0 < > ^
    char32_t sign = 0;  // 0 + - ' '
    bool alt = false;
    bool zero = false;
    bool has_width = false;
    std::size_t width = 0;
    U32 width_text; // replacement field text when dynamic
    bool has_prec = false;
    std::size_t prec = 0;
    U32 prec_text;
    bool L = false;
    char32_t type = 0;

    U32 text() const
    {
        U32 r;
        if(has_fill) r += fill;
        if(align) r += align;
        if(sign) r += sign;
        if(alt) r += U'#';
        if(zero) r += U'0';
        if(has_width) r += width_text.empty() ? ascii(std::to_string(width)) : width_text;
        if(has_prec)
        {
            r += U'.';
            r += prec_text.empty() ? ascii(std::to_string(prec)) : prec_text;
        }
        if(L) r += U'L';
        if(type) r += type;
        return r;
    }
};

inline U32 pad(const U32& body, const Spec& s, char32_t default_align)
{
    std::size_t w = width(body);
    if(!s.has_width || w >= s.width) return body;
    std::size_t n = s.width - w, l = 0, r = 0;
    switch(s.align ? s.align : default_align)
    {
    case U'<': r = n; break;
    case U'>': l = n; break;
    default: l = n / 2; r = n - l; break;
    }
    return U32(l, s.has_fill ? s.fill : U' ') + body + U32(r, s.has_fill ? s.fill : U' ');
}

// sign prefix + digits with zero padding / fill
inline U32 numeric(bool neg, const U32& prefix, const U32& digits, const Spec& s, bool allow_zero = true)
{
    U32 head;
    if(neg) head = U"-";
    else if(s.sign == U'+') head = U"+";
    else if(s.sign == U' ') head = U" ";
    head += prefix;
    if(s.zero && !s.align && allow_zero)
    {
        std::size_t used = head.size() + digits.size();
        std::size_t z = s.has_width && s.width > used ? s.width - used : 0;
        return head + U32(z, U'0') + digits;
    }
    return pad(head + digits, s, U'>');
}

inline U32 integer(bool neg, unsigned long long mag, const Spec& s)
{
    unsigned base = 10;
    bool upper = false;
    U32 prefix;
    switch(s.type)
    {
    case 0:
    case U'd': break;
    case U'B': prefix = U"0B"; base = 2; break;
    case U'b': prefix = U"0b"; base = 2; break;
    case U'o': prefix = U"0"; base = 8; break;
    case U'X': prefix = U"0X"; base = 16; upper = true; break;
    case U'x': prefix = U"0x"; base = 16; break;
    }
    if(!s.alt) prefix.clear();
    U32 d;
    do
    {
        unsigned v = static_cast<unsigned>(mag % base);
        d.insert(d.begin(), static_cast<char32_t>(v < 10 ? U'0' + v : (upper ? U'A' : U'a') + (v - 10)));
        mag /= base;
    } while(mag);
    return numeric(neg, prefix, d, s);
}

template <typename T>
U32 integer_of(T v, const Spec& s)
{
    bool neg = v < 0;
    unsigned long long m = static_cast<unsigned long long>(v);
    if(neg) m = 0ull - static_cast<unsigned long long>(static_cast<long long>(v));
    return integer(neg, m, s);
}

template <typename T>
U32 floating(T v, const Spec& s)
{
    bool neg = std::signbit(v);
    T a = std::fabs(v);
    bool upper = s.type == U'F' || s.type == U'G' || s.type == U'E' || s.type == U'A';
    std::string body;
    bool finite = true;
    if(std::isinf(v)) { body = "inf"; finite = false; }
    else if(std::isnan(v)) { body = "nan"; finite = false; }
    else
    {
        std::vector<char> buf(12000 + s.prec);
        char* b = buf.data();
        char* e = b + buf.size();
        std::to_chars_result r{};
        int p = static_cast<int>(s.prec);
        switch(s.type)
        {
        case U'a':
        case U'A':
            r = s.has_prec ? std::to_chars(b, e, a, std::chars_format::hex, p) : std::to_chars(b, e, a, std::chars_format::hex);
            break;
        case U'e':
        case U'E':
            r = std::to_chars(b, e, a, std::chars_format::scientific, s.has_prec ? p : 6);
            break;
        case U'f':
        case U'F':
            r = std::to_chars(b, e, a, std::chars_format::fixed, s.has_prec ? p : 6);
            break;
        case U'g':
        case U'G':
            r = std::to_chars(b, e, a, std::chars_format::general, s.has_prec ? p : 6);
            break;
        default:
            r = s.has_prec ? std::to_chars(b, e, a, std::chars_format::general, p) : std::to_chars(b, e, a);
            break;
        }
        if(r.ec != std::errc()) throw std::logic_error("model buffer too small");
        body.assign(b, r.ptr);
    }
    if(upper)
        for(char& c : body)
            if(c >= 'a' && c <= 'z') c = static_cast<char>(c - 32);
    return numeric(neg, U"", ascii(body), s, finite);
}

// cut to at most prec columns, then pad
inline U32 string(U32 v, const Spec& s)
{
    if(s.has_prec)
    {
        std::size_t w = 0, i = 0;
        for(; i < v.size(); ++i)
        {
            std::size_t cw = width(v[i]);
            if(w + cw > s.prec) break;
            w += cw;
        }
        v.resize(i);
    }
    return pad(v, s, U'<');
}

// ---------- escaped output of well-formed text ----------
inline U32 escape_cp(char32_t c, bool in_str)
{
    switch(c)
    {
    case U'\t': return U"\\t";
    case U'\n': return U"\\n";
    case U'\r': return U"\\r";
    case U'\\': return U"\\\\";
    case U'"': return in_str ? U"\\\"" : U"\"";
    case U'\'': return in_str ? U"'" : U"\\'";
    default: break;
    }
    return U32(1, c);
}
} // namespace ref
