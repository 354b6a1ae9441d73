#pragma once
// C11: arbitrary code units. The sanitizers, the assertions and the termination handler watch; beside them only
// facts that hold for any units are checked (positions stay inside, iteration covers the units, untouched units stay).
#include "fmt.hpp"
#include <sstream>
using namespace vh;
using ref::U32;
namespace u = papilio::utf;
using papilio::reverse_index;
using papilio::index_range;

#define CK(cond, key, ...) c.check((cond), key, [&] { return cat(__VA_ARGS__); })

template <typename C>
std::basic_string<C> hostile_units(Rng& r, std::size_t maxlen)
{
    std::basic_string<C> s;
    std::size_t n = r.below(maxlen + 1);
    while(s.size() < n)
    {
        int k = static_cast<int>(r.below(10));
        if(k < 2) { s += ref::enc<C>(U32(1, px::any_cp(r))); continue; }
        if constexpr(sizeof(C) == 1)
        {
            auto b = [&](unsigned v) { s += static_cast<C>(static_cast<unsigned char>(v)); };
            static const unsigned char lead[] = {0x80, 0xBF, 0xC0, 0xC1, 0xC2, 0xDF, 0xE0, 0xED, 0xEF, 0xF0, 0xF4, 0xF5, 0xF7, 0xF8, 0xFB, 0xFC, 0xFE, 0xFF, 0x00, 0x7F, 0xA0, 0x9F};
            switch(k)
            {
            case 2: case 3: b(r.pick(lead)); break;
            case 4: b(static_cast<unsigned>(r.below(256))); break;
            case 5: b(0x80 | static_cast<unsigned>(r.below(64))); break;
            case 6: { auto e = ref::enc<C>(U32(1, px::any_cp(r))); e.resize(r.below(e.size()) + 1); s += e; break; } // cut at the end
            case 7: { auto e = ref::enc<C>(U32(1, px::any_cp(r))); s += e.substr(r.below(e.size())); break; }        // cut at the front
            case 8: b(0xED); b(0xA0 | static_cast<unsigned>(r.below(32))); b(0x80 | static_cast<unsigned>(r.below(64))); break; // surrogate
            default: for(std::size_t q = r.below(6) + 1; q; --q) b(0x80 | static_cast<unsigned>(r.below(64))); break; // run of trailing
            }
        }
        else if constexpr(sizeof(C) == 2)
        {
            auto b = [&](unsigned v) { s += static_cast<C>(v); };
            switch(k)
            {
            case 2: case 3: b(0xD800u + static_cast<unsigned>(r.below(1024))); break;
            case 4: case 5: b(0xDC00u + static_cast<unsigned>(r.below(1024))); break;
            case 6: b(r.pick({0xD7FFu, 0xD800u, 0xDBFFu, 0xDC00u, 0xDFFFu, 0xE000u, 0xFFFFu, 0u})); break;
            case 7: b(0xDC00u + static_cast<unsigned>(r.below(1024))); b(0xD800u + static_cast<unsigned>(r.below(1024))); break;
            default: b(static_cast<unsigned>(r.below(65536))); break;
            }
        }
        else
        {
            static const std::uint32_t ed[] = {0xD800, 0xDFFF, 0x110000, 0x1FFFFF, 0x200000, 0x3FFFFFF, 0x7FFFFFFF, 0x80000000u, 0xFFFFFFFFu, 0, 0xDC00, 0x10FFFF, 0xFFFD};
            switch(k)
            {
            case 2: case 3: case 4: s += static_cast<C>(r.pick(ed)); break;
            case 5: s += static_cast<C>(0xD800 + r.below(2048)); break;
            default: s += static_cast<C>(static_cast<std::uint32_t>(r.next())); break;
            }
        }
    }
    if(s.size() > maxlen) s.resize(maxlen);
    return s;
}

template <typename C>
std::string units_text(std::basic_string_view<C> s)
{
    std::string r = cat(sizeof(C), "-byte units");
    for(C x : s)
    {
        char b[16];
        std::snprintf(b, sizeof b, " %x", static_cast<unsigned>(std::make_unsigned_t<std::conditional_t<std::is_same_v<C, char>, char, std::conditional_t<sizeof(C) == 1, unsigned char, std::conditional_t<sizeof(C) == 2, unsigned short, unsigned>>>>(x)));
        r += b;
    }
    return r;
}

template <typename F>
void tolerate(Case& c, F&& f)
{
    try { f(); }
    catch(const std::exception&) { c.count("exceptions"); }
}
