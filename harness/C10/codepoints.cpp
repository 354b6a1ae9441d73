#include "ops.hpp"

// Every code point: encoded forms, lengths, decoding
VH_STREAM(all_code_points, 4352, 4352)
{
    c.desc(cat("code points from ", hex(static_cast<char32_t>(c.index * 256))));
    for(char32_t cp = static_cast<char32_t>(c.index * 256), end = cp + 256; cp < end; ++cp)
    {
        if(cp >= 0xD800 && cp < 0xE000) continue;
        u::codepoint p(cp);
        auto e1 = ref::enc<char8_t>(U32(1, cp));
        auto e2 = ref::enc<char16_t>(U32(1, cp));
        std::string k1(reinterpret_cast<const char*>(e1.data()), e1.size());
        CK(static_cast<char32_t>(p) == cp && p == cp && !(p != cp), "code point value", hex(cp));
        CK(p.size_bytes() == e1.size() && u::decoder<char32_t>::size_bytes(cp) == e1.size() && u::decoder<char8_t>::size_bytes(e1[0]) == e1.size(), "size_bytes", hex(cp));
        CK(std::u8string_view(p) == e1 && std::string_view(p) == k1, "code point bytes", hex(cp));
        auto [arr, n] = p.as_array();
        CK(n == e1.size() && std::u8string_view(arr.data(), n) == e1, "as_array", hex(cp));
        CK(p.is_digit() == (cp >= U'0' && cp <= U'9') && u::is_digit(cp) == p.is_digit(), "is_digit", hex(cp));
        CK(p.empty() == (cp == 0) && bool(p) == (cp != 0), "empty", hex(cp));
        CK(p.estimate_width() == ref::width(cp), "estimate_width", hex(cp));
        auto d8 = u::decoder<char8_t>::to_codepoint(e1);
        auto dc = u::decoder<char>::to_codepoint(k1);
        auto d16 = u::decoder<char16_t>::to_codepoint(e2);
        auto d16b = e2.size() == 2 ? u::decoder<char16_t>::to_codepoint(e2[0], e2[1]) : u::decoder<char16_t>::to_codepoint(e2[0]);
        wchar_t w = static_cast<wchar_t>(cp);
        auto dw = u::decoder<wchar_t>::to_codepoint(std::wstring_view(&w, 1));
        auto dw2 = u::decoder<wchar_t>::to_char32_t(std::wstring_view(&w, 1));
        auto d16c = u::decoder<char16_t>::to_char32_t(e2);
        auto d32 = u::decoder<char32_t>::to_codepoint(std::u32string_view(&cp, 1));
        CK(d8.first == cp && d8.second == e1.size(), "decode UTF-8", hex(cp));
        CK(dc.first == cp && dc.second == e1.size(), "decode char", hex(cp));
        CK(d16.first == cp && d16.second == e2.size() && d16c.first == cp && d16c.second == e2.size(), "decode UTF-16", hex(cp));
        CK(d16b.first == cp, "decode UTF-16 pair", hex(cp));
        CK(dw.first == cp && dw.second == 1 && dw2.first == cp && dw2.second == 1, "decode wchar_t", hex(cp));
        CK(d32.first == cp && d32.second == 1, "decode UTF-32", hex(cp));
        auto f16 = u::decoder<char16_t>::from_codepoint(p);
        auto fw = u::decoder<wchar_t>::from_codepoint(p);
        auto f32 = u::decoder<char32_t>::from_codepoint(p);
        CK(f16.get() == e2 && f16.processed_size == e1.size(), "encode UTF-16", hex(cp));
        CK(fw.get() == std::wstring_view(&w, 1), "encode wchar_t", hex(cp));
        CK(f32.first == cp && f32.second == e1.size(), "encode UTF-32", hex(cp));
        for(int k = 0; k < 5; ++k)
            px::with_char(k, [&](auto t)
            {
                using C = decltype(t);
                auto want = ref::enc<C>(U32(1, cp));
                std::basic_string<C> o(1, static_cast<C>('<'));
                p.append_to(o);
                CK(o.substr(1) == want && o[0] == static_cast<C>('<'), "append_to", hex(cp), " char size ", sizeof(C));
                std::vector<C> vec;
                p.template append_to_as<C>(std::back_inserter(vec));
                CK(std::basic_string<C>(vec.begin(), vec.end()) == want, "append_to_as", hex(cp), " char size ", sizeof(C));
                auto ab = std::basic_string<C>({C('a'), C('b'), C('c')});
                p.replace(ab, 1, 1);
                CK(ab == C('a') + want + C('c'), "replace", hex(cp), " char size ", sizeof(C));
                std::basic_string<C> two = want + want + C('z');
                CK(u::strlen(std::basic_string_view<C>(two)) == 3, "strlen", hex(cp), " char size ", sizeof(C));
                CK(u::index_offset(1, std::basic_string_view<C>(two)) == want.size() && u::index_offset(2, std::basic_string_view<C>(two)) == 2 * want.size(), "index_offset", hex(cp), " char size ", sizeof(C));
                CK(u::index_offset(reverse_index, 1, std::basic_string_view<C>(two)) == want.size() && u::index_offset(reverse_index, 2, std::basic_string_view<C>(two)) == 0, "reverse index_offset", hex(cp), " char size ", sizeof(C));
            });
        if(cp)
        {
            u::codepoint q(cp - 1 == 0xDFFF ? 0xD7FF : cp - 1);
            CK((q <=> p) < 0 && (p <=> q) > 0 && q < p && !(p < q) && p != q && (p <=> cp) == 0, "code point order", hex(cp));
        }
        c.count("code_points");
    }
    std::ostringstream os;
    std::wostringstream ws;
    char32_t cp = static_cast<char32_t>(c.index * 256 + c.rng.below(256));
    if(cp < 0xD800 || cp > 0xDFFF)
    {
        os << u::codepoint(cp) << u::codepoint(U'.');
        ws << u::codepoint(cp) << u::codepoint(U'.');
        CK(os.str() == ref::enc<char>(U32(1, cp) + U'.'), "stream insertion", hex(cp));
        CK(ws.str() == ref::enc<wchar_t>(U32(1, cp) + U'.'), "wide stream insertion", hex(cp));
        std::basic_stringbuf<char16_t> b16;
        std::basic_ostream<char16_t> o16(&b16);
        o16 << u::codepoint(cp);
        CK(b16.str() == ref::enc<char16_t>(U32(1, cp)), "char16_t stream insertion", hex(cp));
        std::basic_stringbuf<char8_t> b8;
        std::basic_ostream<char8_t> o8(&b8);
        o8 << u::codepoint(cp);
        CK(b8.str() == ref::enc<char8_t>(U32(1, cp)), "char8_t stream insertion", hex(cp));
        std::basic_stringbuf<char32_t> b32;
        std::basic_ostream<char32_t> o32(&b32);
        o32 << u::codepoint(cp);
        CK(b32.str() == U32(1, cp), "char32_t stream insertion", hex(cp));
    }
    c.nontrivial(c.index);
}

// Building code points from bytes and constants, reading strings from streams
VH_STREAM(building, 6000, 200000)
{
    Rng& r = c.rng;
    char32_t cp = px::any_cp(r), old = px::any_cp(r);
    c.desc(cat("build ", hex(cp), " over ", hex(old)));
    auto e = ref::enc<char8_t>(U32(1, cp));
    const char* pc = reinterpret_cast<const char*>(e.data());
    u::codepoint a(old);
    a.assign(cp);
    CK(a == cp, "assign", hex(a));
    u::codepoint b(old);
    b.assign(e.data(), static_cast<std::uint8_t>(e.size()));
    CK(b == cp && std::u8string_view(b) == e, "assign bytes", hex(b));
    u::codepoint d(old);
    d.assign(pc, static_cast<std::uint8_t>(e.size()));
    CK(d == cp, "assign chars", hex(d));
    CK(u::codepoint(e.data(), static_cast<std::uint8_t>(e.size())) == cp && u::codepoint(pc, static_cast<std::uint8_t>(e.size())) == cp, "construct from bytes", hex(cp));
    u::codepoint f(old);
    switch(e.size())
    {
    case 1: f.assign(e[0]); break;
    case 2: f.assign(e[0], e[1]); break;
    case 3: f.assign(e[0], e[1], e[2]); break;
    default: f.assign(e[0], e[1], e[2], e[3]); break;
    }
    CK(f == cp, "assign unit list", hex(f));
    u::codepoint g(old);
    g.clear();
    CK(g.empty() && g == U'\0', "clear", "");
    g = f;
    CK(g == f && (g <=> f) == 0, "copy", "");
    auto full = e;
    full.resize(4);
    std::array<char8_t, 4> arr{full[0], full[1], full[2], full[3]};
    u::codepoint h(old);
    h.assign(std::span<const char8_t, 4>(arr));
    CK(h == cp, "assign span", hex(h));
    char32_t x = px::any_cp(r);
    CK((u::codepoint(x) <=> u::codepoint(cp)) == (x <=> cp) && (u::codepoint(x) == u::codepoint(cp)) == (x == cp) && (u::codepoint(x) < cp) == (x < cp), "comparison", hex(x), " ", hex(cp));
    // words read from a stream
    U32 v = text(r, 8);
    for(auto& k : v) if(u::is_whitespace(k) || k == 0 || (k < 0x21) || k == 0x7f || k == 0x85 || k == 0xa0 || k == 0x1680 || (k >= 0x2000 && k < 0x2030) || k == 0x205f || k == 0x3000) k = U'w';
    if(!v.empty())
    {
        auto s = ref::enc<char>(v);
        std::istringstream is("  " + s + " rest");
        u::string_container sc("before"), sc2;
        is >> sc >> sc2;
        CK(sc.to_string_view() == s && sc2 == "rest", "operator>>", show(sc.to_string_view()));
        std::wstring ws = ref::enc<wchar_t>(v);
        bool plain = true;
        for(auto k : ws) plain = plain && k < 0x80;
        std::wistringstream wis(L"\n" + ws + L"\t");
        u::wstring_container wc;
        wis >> wc;
        CK(wc.to_string_view() == ws, "wide operator>>", show(wc.to_string_view()));
        is >> sc;
        CK(sc.empty() && !is, "operator>> at the end", "");
    }
    c.count("built");
    c.nontrivial(cat(hex(cp), hex(old), show(v)));
}
