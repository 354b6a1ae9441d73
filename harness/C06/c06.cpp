// C06: escaped output is exactly the documented one and decodes back to the original units
#include "fmt.hpp"
#include <list>
using namespace vh;
using ref::Spec;
using ref::U32;

static std::string hex(unsigned long v)
{
    char b[24];
    std::snprintf(b, sizeof b, "%lx", v);
    return b;
}

template <typename C>
static void put(std::basic_string<C>& o, std::string_view s)
{
    for(char c : s) o += static_cast<C>(c);
}

// number of units of the well-formed character at the beginning, 0: none
template <typename C>
static std::size_t well_formed(std::basic_string_view<C> s)
{
    for(std::size_t n = 1; n <= (sizeof(C) == 1 ? 4 : sizeof(C) == 2 ? 2 : 1) && n <= s.size(); ++n)
    {
        auto d = ref::dec<C>(s.substr(0, n));
        if(d && d->size() == 1)
        {
            char32_t c = (*d)[0];
            if(c > 0x10FFFF || (c >= 0xD800 && c < 0xE000)) return 0;
            return n;
        }
    }
    return 0;
}

template <typename C>
static std::basic_string<C> model(std::basic_string_view<C> s, bool str)
{
    std::basic_string<C> o;
    for(std::size_t i = 0; i < s.size();)
    {
        std::size_t n = well_formed(s.substr(i));
        using U = std::make_unsigned_t<std::conditional_t<std::is_same_v<C, wchar_t>, int, std::conditional_t<sizeof(C) == 1, char, std::conditional_t<sizeof(C) == 2, short, int>>>>;
        unsigned long u = static_cast<U>(s[i]);
        if(n == 0)
        {
            put(o, "\\x{" + hex(u) + "}");
            ++i;
            continue;
        }
        if(n == 1 && u < 0x80)
        {
            switch(static_cast<char>(u))
            {
            case '\t': put(o, "\\t"); break;
            case '\n': put(o, "\\n"); break;
            case '\r': put(o, "\\r"); break;
            case '\\': put(o, "\\\\"); break;
            case '"': put(o, str ? "\\\"" : "\""); break;
            case '\'': put(o, str ? "'" : "\\'"); break;
            default:
                if(u < 0x20) put(o, "\\u{" + hex(u) + "}");
                else o += s[i];
            }
            ++i;
            continue;
        }
        o.append(s.substr(i, n));
        i += n;
    }
    return o;
}

template <typename C>
static std::optional<std::basic_string<C>> decode(std::basic_string_view<C> s)
{
    std::basic_string<C> o;
    for(std::size_t i = 0; i < s.size(); ++i)
    {
        if(s[i] != static_cast<C>('\\'))
        {
            o += s[i];
            continue;
        }
        if(++i >= s.size()) return std::nullopt;
        switch(static_cast<char32_t>(s[i]))
        {
        case 't': o += static_cast<C>('\t'); break;
        case 'n': o += static_cast<C>('\n'); break;
        case 'r': o += static_cast<C>('\r'); break;
        case '\\': o += static_cast<C>('\\'); break;
        case '"': o += static_cast<C>('"'); break;
        case '\'': o += static_cast<C>('\''); break;
        case 'u':
        case 'x':
        {
            bool u = s[i] == static_cast<C>('u');
            if(++i >= s.size() || s[i] != static_cast<C>('{')) return std::nullopt;
            unsigned long v = 0;
            std::size_t k = 0;
            for(++i; i < s.size() && s[i] != static_cast<C>('}'); ++i, ++k)
            {
                char32_t d = static_cast<char32_t>(s[i]);
                if(d >= '0' && d <= '9') v = v * 16 + (d - '0');
                else if(d >= 'a' && d <= 'f') v = v * 16 + (d - 'a' + 10);
                else return std::nullopt;
            }
            if(k == 0 || i >= s.size()) return std::nullopt;
            if(u)
            {
                auto e = ref::enc<C>(U32(1, static_cast<char32_t>(v)));
                o += e;
            }
            else
            {
                if(sizeof(C) < 8 && v >> (8 * sizeof(C))) return std::nullopt;
                o += static_cast<C>(v);
            }
            break;
        }
        default: return std::nullopt;
        }
    }
    return o;
}

template <typename C>
static std::basic_string<C> any_units(Rng& r, std::size_t maxlen)
{
    std::basic_string<C> s;
    std::size_t n = r.below(maxlen + 1);
    while(s.size() < n)
    {
        switch(r.below(8))
        {
        case 0: s += static_cast<C>(r.pick({'\t', '\n', '\r', '"', '\'', '\\', '{', '}', 'x', 'u'})); break;
        case 1: s += static_cast<C>(r.below(0x20)); break;
        case 2: s += ref::enc<C>(U32(1, px::any_cp(r))); break;
        case 3: // part of a character
        {
            auto e = ref::enc<C>(U32(1, px::any_cp(r)));
            std::size_t a = r.below(e.size()), b = r.below(e.size() - a + 1);
            s += e.substr(a, b);
            break;
        }
        case 4: // a single odd unit
            if constexpr(sizeof(C) == 1) s += static_cast<C>(r.pick({0x80, 0xBF, 0xC0, 0xC1, 0xC2, 0xE0, 0xED, 0xEF, 0xF0, 0xF4, 0xF5, 0xF7, 0xF8, 0xFB, 0xFC, 0xFE, 0xFF, 0xA0, 0x9F, 0x90}));
            else if constexpr(sizeof(C) == 2) s += static_cast<C>(r.pick({0xD800, 0xDBFF, 0xDC00, 0xDFFF, 0xD7FF, 0xE000, 0xFFFF, 0xD83E, 0xDD8B}));
            else s += static_cast<C>(r.pick({0xD800u, 0xDFFFu, 0x110000u, 0x7FFFFFFFu, 0x80000000u, 0xFFFFFFFFu, 0x10FFFFu, 0x1FFFFFu}));
            break;
        case 5: s += static_cast<C>(r.next()); break;
        case 6: // overlong and out-of-range sequences
            if constexpr(sizeof(C) == 1)
            {
                const char* q = r.pick({"\xC0\xAF", "\xE0\x80\xAF", "\xF0\x80\x80\xAF", "\xED\xA0\x80", "\xED\xBF\xBF", "\xF4\x90\x80\x80", "\xF7\xBF\xBF\xBF", "\xE0\x9F\xBF", "\xF0\x8F\xBF\xBF", "\xC1\xBF"});
                for(; *q; ++q) s += static_cast<C>(*q);
            }
            else s += static_cast<C>('a');
            break;
        default: s += static_cast<C>(r.range(0x20, 0x7e)); break;
        }
    }
    return s;
}

template <typename C>
static std::string shw(const std::basic_string<C>& s) { return show(std::basic_string_view<C>(s)); }

VH_STREAM(strings, 60000, 1500000)
{
    px::with_char(static_cast<int>(c.rng.below(5)), [&](auto t)
    {
        using C = decltype(t);
        using SV = std::basic_string_view<C>;
        Rng& r = c.rng;
        auto s = any_units<C>(r, r.chance(1, 8) ? 60 : 10);
        c.desc(cat(sizeof(C), "-byte units ", shw(s)));
        px::exact<C> e{SV(s)};
        auto want = model<C>(SV(s), true);
        px::result<C> got;
        switch(r.below(6))
        {
        case 0:
        {
            px::dyn_t<C> a(e.view());
            got = px::vformat<C>(ref::enc<C>(U"{:?}"), a);
            break;
        }
        case 1:
        {
            px::dyn_t<C> a(papilio::utf::basic_string_ref<C>(e.view()));
            got = px::vformat<C>(ref::enc<C>(U"<{0:?}>"), a);
            if(got.ok() && got.s.size() >= 2) got.s = got.s.substr(1, got.s.size() - 2);
            break;
        }
        case 2: // through the public append function
            got = px::capture<C>([&]
            {
                std::basic_string<C> o;
                px::ctx_t<C> ctx(std::back_inserter(o), px::dyn_t<C>());
                papilio::format_context_traits<px::ctx_t<C>>::append_escaped(ctx, e.view());
                return o;
            });
            break;
        case 3: // through a slice of the whole string
        {
            if(ref::dec<C>(SV(s)) && !s.empty())
            {
                px::dyn_t<C> a(e.view());
                got = px::vformat<C>(ref::enc<C>(U"{[0:]:?}"), a);
                c.count("through_slice");
                break;
            }
            [[fallthrough]];
        }
        case 4: // an element of a range
        {
            std::list<papilio::utf::basic_string_container<C>> l;
            l.emplace_back(e.view());
            got = px::capture<C>([&] { return papilio::vformat(SV(ref::enc<C>(U"{::?}")), papilio::make_format_args<px::ctx_t<C>>(l)); });
            c.count("range_element");
            if(got.ok() && got.s.size() >= 2) got.s = got.s.substr(1, got.s.size() - 2);
            break;
        }
        default:
        {
            px::dyn_t<C> a(std::basic_string<C>{s});
            got = px::vformat<C>(ref::enc<C>(U"{0:?}"), a);
            break;
        }
        }
        bool ok = ref::dec<C>(SV(s)).has_value();
        c.count(ok ? "well_formed" : "malformed");
        if(want.size() != s.size()) c.count("something_escaped");
        c.check(got.ok() && got.s == want, "string", [&] { return cat("got ", got.show(), " want ", shw(want)); });
        auto back = got.ok() ? decode<C>(SV(got.s)) : std::nullopt;
        c.check(back && *back == s, "string/decode", [&] { return cat("escaped text ", got.show(), " decodes to ", back ? shw(*back) : std::string("nothing")); });
        c.nontrivial(hash_bytes(s.data(), s.size() * sizeof(C), sizeof(C)));
        c.sample(cat(shw(s), " -> ", shw(want)));
    });
}

VH_STREAM(characters, 30000, 500000)
{
    px::with_char(static_cast<int>(c.rng.below(5)), [&](auto t)
    {
        using C = decltype(t);
        using SV = std::basic_string_view<C>;
        Rng& r = c.rng;
        char32_t cp = r.chance(1, 3) ? static_cast<char32_t>(r.below(0x80)) : px::any_cp(r);
        auto s = ref::enc<C>(U32(1, cp));
        auto want = model<C>(SV(s), false);
        px::dyn_t<C> a;
        std::string how;
        if(cp < 0x80 && r.coin()) { a.emplace(static_cast<char>(cp)); how = "char"; }
        else if(s.size() == 1 && r.coin()) { a.emplace(s[0]); how = "character"; }
        else { a.emplace(papilio::utf::codepoint(cp)); how = "codepoint"; }
        c.desc(cat(sizeof(C), "-byte ", how, " U+", hex(cp)));
        auto got = px::vformat<C>(ref::enc<C>(r.coin() ? U"{:?}" : U"{0:?}"), a);
        c.count("characters");
        c.check(got.ok() && got.s == want, "character", [&] { return cat("got ", got.show(), " want ", shw(want)); });
        c.nontrivial(cat(how, hex(cp), sizeof(C)));
        c.sample(cat("U+", hex(cp), " -> ", shw(want)));
    });
}

// Characters that are not valid on their own
VH_STREAM(lone_units, 3000, 20000)
{
    Rng& r = c.rng;
    auto go = [&](auto unit)
    {
        using C = decltype(unit);
        px::dyn_t<C> a(unit);
        c.desc(cat(sizeof(C), "-byte character ", hex(static_cast<unsigned long>(unit))));
        auto got = px::vformat<C>(ref::enc<C>(U"{:?}"), a);
        auto want = model<C>(std::basic_string_view<C>(&unit, 1), false);
        c.count("lone_units");
        c.check(got.ok() && got.s == want, "lone-unit", [&] { return cat("got ", got.show(), " want ", shw(want)); });
        c.nontrivial(cat(sizeof(C), static_cast<unsigned long>(unit)));
    };
    if(r.coin()) go(static_cast<char16_t>(r.range(0xD800, 0xDFFF)));
    else go(static_cast<char32_t>(r.coin() ? r.range(0xD800, 0xDFFF) : r.range(0x110000, 0x1FFFFF)));
}
