// C05: width, precision, fill and alignment of text
#include "fmt.hpp"
using namespace vh;
using ref::Spec;
using ref::U32;

template <typename C>
static void push_text(Rng& r, px::arg_builder<C>& ab, const U32& v, std::basic_string<C>& keep)
{
    keep = ref::enc<C>(v);
    switch(r.below(5))
    {
    case 0: ab.push(keep, "string " + show(v)); break;
    case 1: ab.push(std::basic_string_view<C>(keep), "string_view " + show(v)); break;
    case 2:
        if(v.find(U'\0') == v.npos) { ab.push(keep.c_str(), "c_str " + show(v)); break; }
        [[fallthrough]];
    case 3: ab.push(papilio::utf::basic_string_container<C>(keep), "string_container " + show(v)); break;
    default: ab.push(papilio::utf::basic_string_ref<C>(keep), "string_ref " + show(v)); break;
    }
}

template <typename C>
static void compare(Case& c, const char* key, const px::result<C>& got, const U32& want, const U32& f, const std::string& args)
{
    auto w = ref::enc<C>(want);
    c.check(got.ok() && got.s == w, key, [&] { return cat("got ", got.show(), " want ", show(std::basic_string_view<C>(w))); });
    c.nontrivial(cat(show(f), args, sizeof(C)));
    c.sample(cat(show(f), " with", args, " -> ", show(want)));
}

VH_STREAM(strings, 60000, 1500000)
{
    px::with_char(static_cast<int>(c.rng.below(5)), [&](auto t)
    {
        using C = decltype(t);
        Rng& r = c.rng;
        Spec s = px::any_spec(r);
        s.sign = 0;
        s.alt = s.zero = false;
        if(r.coin()) s.type = U's';
        U32 v = px::any_text(r, r.chance(1, 10) ? 60 : 12);
        std::size_t w = ref::width(v);
        if(r.coin())
        {
            s.has_prec = true;
            // around the width, where the cut falls on or inside a wide character
            s.prec = r.coin() ? r.below(w + 3) : r.below(20);
        }
        if(s.has_width && r.coin()) s.width = w + r.below(6) + 1 > 2 ? w + r.below(6) : 1;
        if(s.has_width && s.width == 0) s.width = 1;
        px::arg_builder<C> ab;
        std::basic_string<C> keep;
        push_text<C>(r, ab, v, keep);
        std::size_t before_prec = s.prec;
        U32 f = px::make_fmt<C>(r, s, ab);
        static_cast<void>(before_prec);
        U32 lit = px::any_text(r, 2);
        for(auto& x : lit) if(x == U'{' || x == U'}') x = U'|';
        f = lit + f + lit;
        c.desc(cat(sizeof(C), "-byte format ", show(f), " args", ab.desc));
        px::exact<C> fe(ref::enc<C>(f));
        auto got = px::vformat<C>(fe.view(), ab.args);
        if(s.has_prec && s.prec == 0 && !s.prec_text.empty() && !got.ok())
        {
            c.eval();
            return;
        }
        U32 body = ref::string(v, s);
        c.count("string_outputs");
        if(s.has_prec && ref::width(v) > s.prec) c.count("cut");
        if(s.has_prec && ref::width(v) > s.prec)
        {
            Spec np = s;
            np.has_width = false;
            if(ref::width(ref::string(v, np)) < s.prec) c.count("cut_before_wide");
        }
        if(s.has_width && s.width > ref::width(v)) c.count("padded");
        if(w != v.size()) c.count("has_wide");
        compare<C>(c, "string", got, lit + body + lit, f, ab.desc);
    });
}

// single characters of every kind
VH_STREAM(characters, 30000, 600000)
{
    px::with_char(static_cast<int>(c.rng.below(5)), [&](auto t)
    {
        using C = decltype(t);
        Rng& r = c.rng;
        Spec s = px::any_spec(r);
        s.sign = 0;
        s.alt = s.zero = s.L = false;
        if(r.coin()) s.type = U'c';
        char32_t cp = px::any_cp(r);
        px::arg_builder<C> ab;
        bool as_char = sizeof(C) == 4 || (sizeof(C) == 2 && cp < 0x10000) || cp < 0x80;
        if(as_char && r.coin()) ab.push(static_cast<C>(cp), "character " + show(U32(1, cp)));
        else if(cp < 0x80 && r.coin()) ab.push(static_cast<char>(cp), "char " + show(U32(1, cp)));
        else ab.push(papilio::utf::codepoint(cp) , "codepoint " + show(U32(1, cp)));
        U32 f = px::make_fmt<C>(r, s, ab);
        c.desc(cat(sizeof(C), "-byte format ", show(f), " args", ab.desc));
        auto got = px::vformat<C>(ref::enc<C>(f), ab.args);
        c.count("char_outputs");
        compare<C>(c, "character", got, ref::pad(U32(1, cp), s, U'<'), f, ab.desc);
    });
}

// Width of every code point: one probe per code point in blocks
VH_STREAM(width_table, 4352, 4352)
{
    // 256 code points per case: 0x110000 / 256
    char32_t base = static_cast<char32_t>(c.index * 256);
    for(char32_t cp = base; cp < base + 256; ++cp)
    {
        if(cp == 0 || (cp >= 0xD800 && cp < 0xE000)) continue;
        if(!thorough() && ref::width(cp) == 1 && ref::width(cp + 1) == 1 && (cp == 0 || ref::width(cp - 1) == 1) && c.rng.below(16)) continue;
        c.desc(cat("code point U+", static_cast<unsigned>(cp)));
        papilio::utf::codepoint v = papilio::utf::codepoint(cp);
        px::dyn_t<char> a(v);
        auto got = px::vformat<char>("{:*>3}", a);
        std::string want = std::string(3 - ref::width(cp), '*') + ref::u8(U32(1, cp));
        c.check(got.ok() && got.s == want, "width-table", [&] { return cat("U+", static_cast<unsigned>(cp), " got ", got.show(), " want ", show(want)); });
        std::size_t est = v.estimate_width();
        c.check(est == ref::width(cp), "estimate-width", [&] { return cat("U+", static_cast<unsigned>(cp), " estimate_width ", est); });
        c.count("code_points");
        if(ref::width(cp) == 2) c.count("wide_code_points");
    }
    c.nontrivial(static_cast<std::uint64_t>(base));
}

// Narrow text in a wider format and invalid specifications
VH_STREAM(refused, 8000, 80000)
{
    px::with_char(static_cast<int>(c.rng.below(5)), [&](auto t)
    {
        using C = decltype(t);
        Rng& r = c.rng;
        Spec s = px::any_spec(r);
        s.sign = 0;
        s.alt = s.zero = s.L = false;
        U32 v = px::any_text(r, 5);
        px::arg_builder<C> ab;
        std::basic_string<C> keep;
        bool chr = r.chance(1, 3);
        if(chr) ab.push(static_cast<C>('x'), "character");
        else push_text<C>(r, ab, v, keep);
        U32 body = s.text();
        switch(r.below(3))
        {
        case 0: body += r.pick({U'd', U'x', U'f', U'p', U'n', U'm', U'y', U'a', U'e', U'g'}); if(chr && (body.back() == U'd' || body.back() == U'x')) body.back() = U'f'; break;
        case 1: body += U"ss"; break;
        default: body += U".x"; break;
        }
        U32 f = U"{:" + body + U"}";
        c.desc(cat(sizeof(C), "-byte format ", show(f), " args", ab.desc));
        auto got = px::vformat<C>(ref::enc<C>(f), ab.args);
        c.count("refused_checked");
        c.check(got.err == px::err_kind::format_error, "refused", [&] { return cat("not refused: ", got.show()); });
        c.nontrivial(cat(show(f), ab.desc));
    });
}
