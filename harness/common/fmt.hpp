// Calls into the library for any character type, result or exception captured.
#pragma once
#include <papilio/papilio.hpp>
#include <papilio/xchar.hpp>
#include "ref.hpp"

namespace px
{
template <typename C>
using ctx_t = papilio::basic_format_context<papilio::format_iterator_for<C>, C>;
template <typename C>
using dyn_t = papilio::basic_dynamic_format_args<ctx_t<C>, C>;
template <typename C>
using args_ref_t = papilio::basic_format_args_ref<ctx_t<C>, C>;

enum class err_kind
{
    none,
    format_error, // papilio::format_error and derived
    other_std     // any other std::exception
};

template <typename C>
struct result
{
    err_kind err = err_kind::none;
    std::basic_string<C> s;
    std::string what;
    bool ok() const { return err == err_kind::none; }
    std::string show() const
    {
        if(ok()) return vh::show(std::basic_string_view<C>(s));
        return std::string(err == err_kind::format_error ? "format_error: " : "exception: ") + what;
    }
};

template <typename C, typename F>
result<C> capture(F&& f)
{
    result<C> r;
    try
    {
        r.s = f();
    }
    catch(const papilio::format_error& e)
    {
        r.err = err_kind::format_error;
        r.what = e.what();
    }
    catch(const std::exception& e)
    {
        r.err = err_kind::other_std;
        r.what = e.what();
    }
    return r;
}

template <typename C>
result<C> vformat(std::basic_string_view<C> fmt, const args_ref_t<C>& args)
{
    return capture<C>([&] { return papilio::vformat(fmt, args); });
}

// A copy of a string on the heap that ends exactly at the end of its allocation (no terminator).
template <typename C>
struct exact
{
    std::unique_ptr<C[]> p;
    std::size_t n;
    explicit exact(std::basic_string_view<C> s)
        : p(new C[s.size()]), n(s.size())
    {
        std::copy(s.begin(), s.end(), p.get());
    }
    std::basic_string_view<C> view() const { return {p.get(), n}; }
    operator std::basic_string_view<C>() const { return view(); }
};

template <typename F>
void with_char(int k, F&& f)
{
    switch(k)
    {
    case 0: f(char()); break;
    case 1: f(wchar_t()); break;
    case 2: f(char8_t()); break;
    case 3: f(char16_t()); break;
    default: f(char32_t()); break;
    }
}

inline const char* char_name(int k)
{
    static const char* n[] = {"char", "wchar_t", "char8_t", "char16_t", "char32_t"};
    return n[k < 0 || k > 4 ? 4 : k];
}


// A dynamic argument pack and its description
template <typename C>
struct arg_builder
{
    dyn_t<C> args;
    std::string desc;
    std::size_t n = 0;
    template <typename T>
    std::size_t push(T&& v, const std::string& d)
    {
        args.emplace(std::forward<T>(v));
        desc += " [" + std::to_string(n) + "]=" + d;
        return n++;
    }
    std::size_t push_int(vh::Rng& r, std::size_t& k)
    {
        switch(r.below(6))
        {
        case 0: return push(static_cast<unsigned>(k), "unsigned " + std::to_string(k));
        case 1: return push(static_cast<long long>(k), "long long " + std::to_string(k));
        case 2: return push(static_cast<unsigned char>(k > 255 ? (k = 255) : k), "uchar " + std::to_string(k));
        case 3: return push(static_cast<unsigned long long>(k), "unsigned long long " + std::to_string(k));
        case 4: return push(static_cast<short>(k), "short " + std::to_string(k));
        default: return push(static_cast<int>(k), "int " + std::to_string(k));
        }
    }
};

// A replacement field for argument 0 with width and precision moved into arguments when asked to
template <typename C>
ref::U32 make_fmt(vh::Rng& r, ref::Spec& s, arg_builder<C>& ab)
{
    bool automatic = r.coin();
    if(s.has_width && r.chance(1, 3))
    {
        std::size_t id = ab.push_int(r, s.width);
        s.width_text = automatic ? U"{}" : U"{" + ref::ascii(std::to_string(id)) + U"}";
    }
    if(s.has_prec && r.chance(1, 3))
    {
        std::size_t id = ab.push_int(r, s.prec);
        s.prec_text = automatic ? U"{}" : U"{" + ref::ascii(std::to_string(id)) + U"}";
    }
    ref::U32 f = automatic ? U"{" : U"{0";
    ref::U32 t = s.text();
    if(!t.empty() || r.chance(1, 4)) f += U":" + t;
    f += U"}";
    return f;
}

// Code point generators
inline char32_t any_cp(vh::Rng& r)
{
    static const char32_t edge[] = {0x20, 0x7E, 0x7F, 0x80, 0xFF, 0x7FF, 0x800, 0xFFF, 0x1000, 0x10FF, 0x1100, 0x115F, 0x1160, 0x2328, 0x2329, 0x232A, 0x232B, 0x2E7F, 0x2E80, 0x303E, 0x303F, 0x3040, 0xA4CF, 0xA4D0, 0xABFF, 0xAC00, 0xD7A3, 0xD7A4, 0xD7FF, 0xE000, 0xF8FF, 0xF900, 0xFAFF, 0xFB00, 0xFE0F, 0xFE10, 0xFE19, 0xFE1A, 0xFE2F, 0xFE30, 0xFE6F, 0xFE70, 0xFEFF, 0xFF00, 0xFF60, 0xFF61, 0xFFDF, 0xFFE0, 0xFFE6, 0xFFE7, 0xFFFD, 0xFFFE, 0xFFFF, 0x10000, 0x10FFFF, 0x1F2FF, 0x1F300, 0x1F64F, 0x1F650, 0x1F8FF, 0x1F900, 0x1F9FF, 0x1FA00, 0x1FFFF, 0x20000, 0x2FFFD, 0x2FFFE, 0x2FFFF, 0x30000, 0x3FFFD, 0x3FFFE, 0x40000, 0x100000};
    for(;;)
    {
        char32_t c;
        switch(r.below(7))
        {
        case 0:
        case 1: c = static_cast<char32_t>(r.range(0x20, 0x7e)); break;
        case 2: c = static_cast<char32_t>(r.range(0x80, 0x7ff)); break;
        case 3: c = static_cast<char32_t>(r.range(0x800, 0xffff)); break;
        case 4: c = static_cast<char32_t>(r.range(0x10000, 0x10ffff)); break;
        case 5: c = r.pick({U'é', U'文', U'字', U'🦋', U'ü', U'の', U'\u0301'}); break;
        default: c = r.pick(edge); break;
        }
        if(c >= 0xD800 && c < 0xE000) continue;
        return c;
    }
}

inline ref::U32 any_text(vh::Rng& r, std::size_t maxlen, bool ascii_only = false)
{
    std::size_t n = r.below(maxlen + 1);
    ref::U32 s;
    for(std::size_t i = 0; i < n; ++i)
        s += ascii_only ? static_cast<char32_t>(r.range(0x20, 0x7e)) : any_cp(r);
    return s;
}

// A random valid specification (without type / precision, which depend on the argument type)
inline ref::Spec any_spec(vh::Rng& r)
{
    ref::Spec s;
    if(r.chance(2, 5))
    {
        s.align = r.pick({U'<', U'>', U'^'});
        if(r.chance(2, 3))
        {
            s.has_fill = true;
            do s.fill = r.coin() ? static_cast<char32_t>(r.pick({U'*', U'0', U'<', U'+', U'#', U'.', U':', U'x', U' ', U'^', U'[', U'5', U'L'})) : any_cp(r);
            while(s.fill == U'{' || s.fill == U'}');
        }
    }
    if(r.chance(1, 3)) s.sign = r.pick({U'+', U'-', U' '});
    s.alt = r.chance(1, 3);
    s.zero = r.chance(1, 4);
    if(r.chance(2, 3))
    {
        s.has_width = true;
        s.width = r.chance(1, 12) ? static_cast<std::size_t>(r.range(100, 300)) : static_cast<std::size_t>(r.range(1, 40));
    }
    s.L = r.chance(1, 10);
    return s;
}
} // namespace px
