#include "ops.hpp"

static volatile char32_t sink;

template <typename C, typename S>
static void read_op(Case& c, const S& s, std::basic_string_view<C> v)
{
    Rng& r = c.rng;
    const std::size_t n = v.size();
    const C* base = v.data();
    auto inside = [&](const C* p) { return p >= base && p <= base + n; };
    int op = static_cast<int>(r.below(17));
    c.more(cat(" op", op));
    switch(op)
    {
    case 0:
        CK(s.length() <= n, "length", s.length());
        CK(u::strlen<u::strlen_behavior::ignore>(v) <= n, "strlen ignore", "");
        CK(u::strlen<u::strlen_behavior::stop>(v) <= n, "strlen stop", "");
        tolerate(c, [&] { CK(u::strlen<u::strlen_behavior::exception>(v) <= n, "strlen exception", ""); });
        if(n)
        {
            CK(u::strlen<u::strlen_behavior::replace>(base, n) <= n, "strlen ptr", "");
            CK(u::strlen<u::strlen_behavior::ignore>(base, n) <= n, "strlen ptr ignore", "");
            CK(u::strlen<u::strlen_behavior::stop>(base, n) <= n, "strlen ptr stop", "");
            tolerate(c, [&] { CK(u::strlen<u::strlen_behavior::exception>(base, n) <= n, "strlen ptr exception", ""); });
        }
        {
            std::basic_string<C> z(v);
            z.resize(std::min(z.find(C(0)), z.size()));
            px::exact<C> ez(std::basic_string_view<C>(z.c_str(), z.size() + 1));
            CK(u::strlen(ez.view().data()) <= z.size(), "strlen terminated", "");
            u::basic_string_ref<C> zr(ez.view().data());
            CK(zr.size() == z.size(), "terminated view", "");
        }
        break;
    case 1:
        for(std::size_t i = 0; i < n + 2; ++i)
        {
            std::size_t o = s.get_offset(i), q = s.get_offset(reverse_index, i);
            CK((o < n || o == u::npos) && (q < n || q == u::npos), "get_offset", "index ", i, " -> ", o, " / ", q);
            CK(i < n || (o == u::npos && q == u::npos), "get_offset past the end", i);
            tolerate(c, [&] { sink = s.at(i); });
            tolerate(c, [&] { sink = s.at(reverse_index, i); });
            sink = s.index_or(i, U'x');
            sink = s.index_or(reverse_index, i, U'x');
            const u::implement_string<C, S>& bs = s;
            if(o != u::npos) { sink = bs[i]; sink = bs.index(i); }
            if(q != u::npos) sink = bs.index(reverse_index, i);
        }
        break;
    case 2:
        if(n)
        {
            sink = s.front();
            sink = s.back();
        }
        break;
    case 3: // forward
    {
        std::size_t steps = 0, total = 0;
        for(auto it = s.cbegin(); it != s.cend() && steps <= n; ++it, ++steps)
        {
            char32_t x = *it;
            sink = x;
            total += it.size();
            CK(inside(it.base()) && it.base() + it.size() <= base + n && it.size() > 0, "forward position", "");
        }
        CK(steps <= n && total == n, "forward iteration covers the units", steps, " steps, ", total, " units of ", n);
        break;
    }
    case 4: // backward
    {
        std::size_t steps = 0;
        const C* prev = base + n;
        for(auto it = s.cend(); it != s.cbegin() && steps <= n; ++steps)
        {
            --it;
            char32_t x = *it;
            sink = x;
            CK(inside(it.base()) && it.base() < prev && it.base() + it.size() <= base + n, "backward position", "");
            prev = it.base();
        }
        CK(steps <= n, "backward iteration ends", "");
        std::size_t k = 0;
        for(auto it = s.crbegin(); it != s.crend() && k <= n; ++it, ++k) { char32_t x = *it; sink = x; }
        CK(k <= n, "reverse iteration ends", "");
        break;
    }
    case 5:
    {
        char32_t x = r.coin() ? px::any_cp(r) : U'\uFFFD';
        auto it = s.find(u::codepoint(x), r.below(n + 2));
        CK(inside(it.base()), "find", "");
        static_cast<void>(s.contains(u::codepoint(x)));
        break;
    }
    case 6:
    {
        auto x = r.coin() ? hostile_units<C>(r, 3) : std::basic_string<C>(v.substr(r.below(n + 1), r.below(4)));
        px::exact<C> ex(x);
        if constexpr(std::is_same_v<S, u::basic_string_ref<C>>)
        {
            auto it = s.find(u::basic_string_ref<C>(ex.view()), r.below(n + 2));
            CK(inside(it.base()), "find string", "");
            CK(it == s.cend() || std::basic_string_view<C>(it.base(), static_cast<std::size_t>(base + n - it.base())).starts_with(x), "find string finds it", "");
            static_cast<void>(s.ends_with(u::basic_string_ref<C>(ex.view())));
            CK(s.ends_with(u::basic_string_ref<C>(ex.view())) == v.ends_with(x), "ends_with", "");
            static_cast<void>(s.ends_with(u::codepoint(px::any_cp(r))));
        }
        else
        {
            auto it = s.find(ex.view(), r.below(n + 2));
            CK(inside(it.base()), "find string", "");
        }
        CK(s.starts_with(ex.view()) == v.starts_with(x), "starts_with", "");
        static_cast<void>(s.starts_with(u::codepoint(px::any_cp(r))));
        static_cast<void>(s.contains(ex.view()));
        break;
    }
    case 7:
        tolerate(c, [&] { auto t = s.substr(r.below(n + 2), r.chance(1, 4) ? u::npos : r.below(n + 2)); CK(t.to_string_view().size() <= n && inside(t.data()), "substr", ""); });
        {
            auto [t, k] = s.template substr_extended<u::substr_behavior::empty_string>(r.below(n + 2), r.below(n + 2));
            CK(k <= n && t.to_string_view().size() <= n, "substr_extended", "");
        }
        break;
    case 8:
    {
        auto b = [&] { return static_cast<papilio::ssize_t>(r.below(2 * n + 4)) - static_cast<papilio::ssize_t>(n) - 2; };
        papilio::ssize_t i = b(), j = r.chance(1, 4) ? index_range::npos : b();
        if(r.chance(1, 12)) i = std::numeric_limits<papilio::ssize_t>::min();
        if(r.chance(1, 12)) j = std::numeric_limits<papilio::ssize_t>::min();
        tolerate(c, [&] { auto t = s.substr(index_range(i, j)); CK(t.to_string_view().size() <= n, "substr range", ""); });
        tolerate(c, [&] { auto t = s.template substr<u::substr_behavior::empty_string>(index_range(i, j)); CK(t.to_string_view().size() <= n, "substr range 2", ""); });
        break;
    }
    case 9: case 10:
    {
        u::basic_string_ref<C> rs(v);
        tolerate(c, [&] { auto t = rs.to_u8string(); CK(t.size() <= 4 * n, "to_u8string", t.size()); });
        tolerate(c, [&] { auto t = rs.to_u16string(); CK(t.size() <= 2 * n, "to_u16string", t.size()); });
        tolerate(c, [&] { auto t = rs.to_u32string(); CK(t.size() <= n, "to_u32string", t.size()); });
        tolerate(c, [&] { auto t = rs.to_wstring(); CK(t.size() <= n, "to_wstring", t.size()); });
        tolerate(c, [&] { auto t = rs.to_string(); CK(t.size() <= 4 * n, "to_string", t.size()); });
        CK(rs.template to_string<C>() == v, "to_string same type", "");
        break;
    }
    case 11:
        if constexpr(std::is_same_v<S, u::basic_string_ref<C>>)
        {
            S t = s;
            for(int k = 0; k < 4; ++k)
            {
                if(r.coin()) t.remove_prefix(r.below(4));
                else t.remove_suffix(r.below(4));
                CK(inside(t.data()) && t.data() + t.size() <= base + n, "remove prefix/suffix", "");
                tolerate(c, [&] { if(!t.empty()) sink = t.back(); });
            }
        }
        break;
    case 12: // walk
    {
        auto it = s.cbegin();
        for(int k = 0; k < 16; ++k)
        {
            if(r.coin()) { if(it != s.cend()) ++it; }
            else if(it != s.cbegin()) --it;
            CK(inside(it.base()) && (it == s.cend() || it.base() + it.size() <= base + n), "walk", "");
            if(it != s.cend()) { char32_t x = *it; sink = x; }
            auto d = s.cend() - it, e = it - s.cend();
            CK(d >= 0 && e <= 0 && static_cast<std::size_t>(d) <= n, "distance", d, " ", e);
            auto b0 = s.cbegin() - it;
            CK(b0 <= 0, "distance from begin", b0);
        }
        break;
    }
    case 13:
        if constexpr(std::is_same_v<C, char> || std::is_same_v<C, wchar_t>)
        {
            std::basic_ostringstream<C> os;
            os << s;
            // libstdc++ takes the wide unit of value WEOF for the end of the stream
            CK(os.str() == v || (sizeof(C) == 4 && v.find(static_cast<C>(-1)) != v.npos), "operator<<", "");
        }
        break;
    case 14: // code points taken out
    {
        std::size_t steps = 0;
        for(auto it = s.cbegin(); it != s.cend() && steps <= n; ++it, ++steps)
        {
            u::codepoint cp = *it;
            CK(cp.size_bytes() >= 1 && cp.size_bytes() <= 4, "size_bytes", int(cp.size_bytes()));
            sink = static_cast<char32_t>(cp.estimate_width());
            sink = cp.is_digit();
            px::with_char(static_cast<int>(r.below(5)), [&](auto t)
            {
                using D = decltype(t);
                std::basic_string<D> o;
                tolerate(c, [&] { cp.append_to(o); });
                tolerate(c, [&] { o.resize(3); cp.replace(o, 1, 1); });
            });
            std::ostringstream os;
            std::wostringstream ws;
            tolerate(c, [&] { os << cp; });
            tolerate(c, [&] { ws << cp; });
        }
        break;
    }
    default: // comparison with other units of any type
        px::with_char(static_cast<int>(r.below(5)), [&](auto t)
        {
            using D = decltype(t);
            auto x = hostile_units<D>(r, 6);
            px::exact<D> ex(x);
            u::basic_string_ref<D> o(ex.view());
            u::basic_string_ref<C> rs(v);
            int a = rs.compare(o), b = o.compare(rs);
            CK(a == -b, "compare is antisymmetric", a, " ", b);
            CK(rs.compare(rs) == 0 && rs == rs, "compare with itself", "");
            static_cast<void>(rs == o);
            static_cast<void>(s.compare(o));
        });
        break;
    }
}

VH_STREAM(views, 60000, 4000000)
{
    px::with_char(static_cast<int>(c.rng.below(5)), [&](auto t)
    {
        using C = decltype(t);
        auto v = hostile_units<C>(c.rng, c.rng.chance(1, 8) ? 24 : 7);
        c.desc(units_text<C>(v));
        px::exact<C> e(v);
        bool cont = c.rng.chance(1, 3);
        u::basic_string_ref<C> s(e.view());
        u::basic_string_container<C> sc(e.view());
        for(int k = 0; k < 4; ++k)
        {
            if(cont) read_op<C>(c, sc, e.view());
            else read_op<C>(c, s, e.view());
            c.count("ops");
        }
        if(!ref::dec<C>(v) || sizeof(C) == 4) c.count("malformed");
        c.nontrivial(cat(units_text<C>(v), cont));
        c.sample(units_text<C>(v));
    });
}

// The decoders on every short unit sequence
VH_STREAM(decoders, 70000, 70000)
{
    // all pairs of bytes followed by nothing, by a trailing byte, by anything; all 16-bit units in pairs with the edges
    unsigned a = static_cast<unsigned>(c.index & 0xFFFF);
    c.desc(cat("decoder input ", a));
    auto both = [&](std::u8string_view s)
    {
        px::exact<char8_t> e(s);
        std::string k(s.begin(), s.end());
        px::exact<char> ek(k);
        tolerate(c, [&] { auto [cp, n] = u::decoder<char8_t>::to_codepoint(e.view()); sink = cp; CK(n <= s.size() && (n > 0 || s.empty()), "decode UTF-8 progress", int(n)); });
        tolerate(c, [&] { auto [cp, n] = u::decoder<char>::to_codepoint(ek.view()); sink = cp; CK(n <= s.size() && (n > 0 || s.empty()), "decode char progress", int(n)); });
        c.count("decoded");
    };
    char8_t b[4] = {static_cast<char8_t>(a >> 8), static_cast<char8_t>(a), static_cast<char8_t>(c.rng.below(256)), static_cast<char8_t>(c.rng.coin() ? 0x80 + c.rng.below(64) : c.rng.below(256))};
    for(std::size_t n = 0; n <= 4; ++n) both(std::u8string_view(b, n));
    char16_t w = static_cast<char16_t>(a);
    for(char16_t w2 : {char16_t(0), char16_t(0xD800), char16_t(0xDBFF), char16_t(0xDC00), char16_t(0xDFFF), char16_t(0x41), static_cast<char16_t>(c.rng.below(65536))})
    {
        char16_t p[2] = {w, w2};
        for(std::size_t n = 0; n <= 2; ++n)
        {
            px::exact<char16_t> e(std::u16string_view(p, n));
            tolerate(c, [&] { auto [cp, k] = u::decoder<char16_t>::to_codepoint(e.view()); sink = cp; CK(k <= n && (k > 0 || n == 0), "decode UTF-16 progress", int(k)); });
            tolerate(c, [&] { auto [cp, k] = u::decoder<char16_t>::to_char32_t(e.view()); sink = cp; });
        }
        tolerate(c, [&] { sink = u::decoder<char16_t>::to_codepoint(w, w2).first; });
        tolerate(c, [&] { sink = u::decoder<char16_t>::to_char32_t(w, w2).first; });
        c.count("decoded");
    }
    char32_t x = static_cast<char32_t>(c.rng.coin() ? a << 16 | c.rng.below(65536) : c.rng.next());
    wchar_t wx = static_cast<wchar_t>(x);
    tolerate(c, [&] { sink = u::decoder<char32_t>::to_codepoint(x).first; });
    tolerate(c, [&] { sink = u::decoder<wchar_t>::to_codepoint(std::wstring_view(&wx, 1)).first; });
    tolerate(c, [&] { sink = u::decoder<wchar_t>::to_char32_t(std::wstring_view(&wx, 1)).first; });
    tolerate(c, [&] { sink = u::decoder<wchar_t>::to_codepoint(std::wstring_view(&wx, 0)).first; });
    u::codepoint cp(x);
    tolerate(c, [&] { auto f = u::decoder<char16_t>::from_codepoint(cp); sink = f.size; CK(f.size <= 2, "encode UTF-16 size", int(f.size)); });
    tolerate(c, [&] { auto f = u::decoder<wchar_t>::from_codepoint(cp); sink = f.size; });
    // a code point made of arbitrary bytes
    u::codepoint q(b, static_cast<std::uint8_t>(1 + c.rng.below(4)));
    sink = q;
    sink = static_cast<char32_t>(q.estimate_width());
    for(int k = 0; k < 5; ++k)
        px::with_char(k, [&](auto t) { std::basic_string<decltype(t)> o; tolerate(c, [&] { u::codepoint z(b, 4); z.append_to(o); }); });
    c.nontrivial(c.index);
}
