// C03: integers, bool, pointers vs the reference model
#include "fmt.hpp"
#include <limits>
using namespace vh;
using ref::Spec;
using ref::U32;

template <typename T>
static T any_int(Rng& r)
{
    using L = std::numeric_limits<T>;
    switch(r.below(6))
    {
    case 0: return static_cast<T>(r.next());
    case 1: return static_cast<T>(r.range(-20, 20));
    case 2:
    {
        T v = static_cast<T>(static_cast<std::uint64_t>(1) << r.below(sizeof(T) * 8));
        return static_cast<T>(static_cast<std::uint64_t>(v) + static_cast<std::uint64_t>(r.range(-1, 1)));
    }
    case 3: return r.coin() ? L::min() : L::max();
    case 4:
    {
        // around powers of ten and of the bases
        std::uint64_t p = 1, b = r.pick({10ull, 16ull, 8ull, 2ull});
        for(std::uint64_t k = r.below(20); k; --k) p *= b;
        std::uint64_t v = p + static_cast<std::uint64_t>(r.range(-1, 1));
        return static_cast<T>(r.coin() ? v : 0 - v);
    }
    default: return static_cast<T>(r.next() >> r.below(64));
    }
}

using px::arg_builder;
using px::make_fmt;

template <typename C, typename T>
static void one_int(Case& c, const char* tname)
{
    Rng& r = c.rng;
    Spec s = px::any_spec(r);
    if(r.chance(3, 4)) s.type = r.pick({U'd', U'b', U'B', U'o', U'x', U'X'});
    T v = any_int<T>(r);
    arg_builder<C> ab;
    ab.push(v, std::string(tname) + " " + std::to_string(v));
    U32 f = make_fmt(r, s, ab);
    U32 lit = px::any_text(r, 3);
    for(auto& x : lit) if(x == U'{' || x == U'}') x = U'|';
    f = lit + f + lit;
    c.desc(cat(sizeof(C), "-byte format ", show(f), " args", ab.desc));
    px::exact<C> fe(ref::enc<C>(f));
    auto got = px::vformat<C>(fe.view(), ab.args);
    U32 want = lit + ref::integer_of(v, s) + lit;
    auto w = ref::enc<C>(want);
    c.count("int_outputs");
    if(v < 0) c.count("negative");
    if(s.zero && !s.align && s.has_width) c.count("zero_padded");
    if(!s.width_text.empty()) c.count("dynamic_width");
    c.check(got.ok() && got.s == w, cat("int/", tname), [&] { return cat("got ", got.show(), " want ", show(std::basic_string_view<C>(w))); });
    c.nontrivial(cat(tname, show(f), std::to_string(v), sizeof(C)));
    c.sample(cat(show(f), " with", ab.desc, " -> ", show(want)));
}

template <typename C>
static void dispatch_int(Case& c)
{
    switch(c.rng.below(11))
    {
    case 0: return one_int<C, signed char>(c, "signed char");
    case 1: return one_int<C, unsigned char>(c, "unsigned char");
    case 2: return one_int<C, short>(c, "short");
    case 3: return one_int<C, unsigned short>(c, "unsigned short");
    case 4: return one_int<C, int>(c, "int");
    case 5: return one_int<C, unsigned>(c, "unsigned");
    case 6: return one_int<C, long>(c, "long");
    case 7: return one_int<C, unsigned long>(c, "unsigned long");
    case 8: return one_int<C, long long>(c, "long long");
    case 9: return one_int<C, unsigned long long>(c, "unsigned long long");
    default: return one_int<C, int>(c, "int");
    }
}

VH_STREAM(ints, 60000, 1500000)
{
    px::with_char(static_cast<int>(c.rng.below(5)), [&](auto t) { dispatch_int<decltype(t)>(c); });
}

// All small values exhaustively through all bases with padding around the digit count
VH_STREAM(dense, 4000, 66000)
{
    Rng& r = c.rng;
    int v = static_cast<int>(c.index) - 2000 + static_cast<int>(r.below(3));
    if(c.index >= 4000) v = static_cast<int>(c.index * 977) - 30000000;
    for(char32_t t : {U'\0', U'd', U'b', U'B', U'o', U'x', U'X'})
    {
        Spec s;
        s.type = t;
        s.sign = r.pick({U'\0', U'+', U'-', U' '});
        s.alt = r.coin();
        s.zero = r.coin();
        if(r.coin()) s.align = r.pick({U'<', U'>', U'^'});
        Spec bare = s;
        std::size_t len = ref::integer_of(v, bare).size();
        s.has_width = true;
        s.width = len + r.below(5);
        if(s.width > 2) s.width -= r.below(3);
        if(s.width == 0) s.width = 1;
        U32 f = U"{:" + s.text() + U"}";
        c.desc(cat("format ", show(f), " arg int ", v));
        px::dyn_t<char> a(v);
        auto got = px::vformat<char>(ref::u8(f), a);
        auto want = ref::u8(ref::integer_of(v, s));
        c.check(got.ok() && got.s == want, "dense", [&] { return cat("got ", got.show(), " want ", show(want)); });
        c.nontrivial(cat(show(f), v));
        c.count("int_outputs");
    }
}

template <typename C, typename T>
static void one_c(Case& c, const char* tname)
{
    Rng& r = c.rng;
    Spec s = px::any_spec(r);
    s.type = U'c';
    s.sign = 0;
    s.alt = s.zero = s.L = false;
    T v;
    switch(r.below(5))
    {
    case 0: v = static_cast<T>(px::any_cp(r)); break;
    case 1: v = static_cast<T>(r.pick({0x10FFFFll, 0x110000ll, -1ll, 0x7FFFFFFFll, 0xFFFFFFFFll, 0x1FFFFFll, 0x200000ll, 0x100000041ll, -0x7FFFFFFFFFFFFFFFll, 0x110041ll})); break;
    case 2: v = any_int<T>(r); break;
    default: v = static_cast<T>(r.range(32, 126)); break;
    }
    bool is_cp = !(v < 0) && static_cast<unsigned long long>(v) <= 0x10FFFF;
    bool surrogate = is_cp && static_cast<unsigned long long>(v) >= 0xD800 && static_cast<unsigned long long>(v) < 0xE000;
    arg_builder<C> ab;
    ab.push(v, std::string(tname) + " " + std::to_string(v));
    U32 f = make_fmt(r, s, ab);
    c.desc(cat(sizeof(C), "-byte format ", show(f), " args", ab.desc));
    auto got = px::vformat<C>(ref::enc<C>(f), ab.args);
    c.eval();
    if(surrogate)
        return; // neither documented as a code point nor as an error
    if(is_cp)
    {
        auto w = ref::enc<C>(ref::pad(U32(1, static_cast<char32_t>(v)), s, U'<'));
        c.count("c_type_ok");
        if(!(got.ok() && got.s == w)) c.fail("int/c", cat("got ", got.show(), " want ", show(std::basic_string_view<C>(w))));
    }
    else
    {
        c.count("c_type_refused");
        if(got.err != px::err_kind::format_error) c.fail("int/c-range", cat("value ", v, " is not a code point, got ", got.show()));
    }
    c.nontrivial(cat(tname, show(f), v, sizeof(C)));
    c.sample(cat(show(f), " with", ab.desc, " -> ", got.show()));
}

VH_STREAM(char_type, 12000, 200000)
{
    px::with_char(static_cast<int>(c.rng.below(5)), [&](auto t)
    {
        using C = decltype(t);
        switch(c.rng.below(5))
        {
        case 0: return one_c<C, int>(c, "int");
        case 1: return one_c<C, unsigned>(c, "unsigned");
        case 2: return one_c<C, long long>(c, "long long");
        case 3: return one_c<C, unsigned long long>(c, "unsigned long long");
        default: return one_c<C, short>(c, "short");
        }
    });
}

VH_STREAM(bool_and_pointer, 16000, 300000)
{
    px::with_char(static_cast<int>(c.rng.below(5)), [&](auto t)
    {
        using C = decltype(t);
        Rng& r = c.rng;
        Spec s = px::any_spec(r);
        s.L = false;
        arg_builder<C> ab;
        U32 want;
        U32 f;
        if(r.coin())
        {
            bool b = r.coin();
            if(r.chance(3, 4)) s.type = r.pick({U's', U'd', U'b', U'B', U'o', U'x', U'X'});
            bool textual = s.type == 0 || s.type == U's';
            if(textual)
            {
                s.sign = 0;
                s.alt = s.zero = false;
            }
            ab.push(b, b ? "true" : "false");
            f = make_fmt(r, s, ab);
            want = textual ? ref::pad(b ? U"true" : U"false", s, U'<') : ref::integer(false, b, s);
            c.count("bool_outputs");
        }
        else
        {
            std::uintptr_t u = any_int<std::uintptr_t>(r);
            if(r.chance(1, 10)) u = 0;
            s.sign = 0;
            s.alt = false;
            if(r.chance(2, 3)) s.type = r.pick({U'p', U'P'});
            const void* p = reinterpret_cast<const void*>(u);
            if(u == 0 && r.coin()) ab.push(nullptr, "nullptr");
            else if(r.coin()) ab.push(const_cast<void*>(p), "void* " + std::to_string(u));
            else ab.push(p, "const void* " + std::to_string(u));
            f = make_fmt(r, s, ab);
            Spec m = s;
            m.alt = true;
            m.type = s.type == U'P' ? U'X' : U'x';
            want = ref::integer(false, u, m);
            c.count("pointer_outputs");
        }
        c.desc(cat(sizeof(C), "-byte format ", show(f), " args", ab.desc));
        auto got = px::vformat<C>(ref::enc<C>(f), ab.args);
        auto w = ref::enc<C>(want);
        c.check(got.ok() && got.s == w, "bool-pointer", [&] { return cat("got ", got.show(), " want ", show(std::basic_string_view<C>(w))); });
        c.nontrivial(cat(show(f), ab.desc, sizeof(C)));
        c.sample(cat(show(f), " with", ab.desc, " -> ", show(want)));
    });
}

// What the type does not support is refused with a format error
VH_STREAM(refused, 16000, 200000)
{
    px::with_char(static_cast<int>(c.rng.below(5)), [&](auto t)
    {
        using C = decltype(t);
        Rng& r = c.rng;
        Spec s = px::any_spec(r);
        s.L = false;
        arg_builder<C> ab;
        U32 good;
        switch(r.below(4))
        {
        case 0: ab.push(any_int<int>(r), "int"); good = U"dbBoxXc"; break;
        case 1: ab.push(any_int<unsigned long long>(r), "unsigned long long"); good = U"dbBoxXc"; break;
        case 2: ab.push(r.coin(), "bool"); good = U"sdbBoxX"; break;
        default: ab.push(static_cast<const void*>(&ab), "pointer"); good = U"pP"; break;
        }
        const char* why;
        U32 tail;
        U32 body = s.text();
        switch(r.below(4))
        {
        case 0: // unsupported type letter
        {
            char32_t ch;
            do ch = r.coin() ? static_cast<char32_t>(r.range('A', 'z')) : px::any_cp(r);
            while(good.find(ch) != good.npos || ch == U'L' || ch == U'{' || ch == U'}' || (ch >= U'0' && ch <= U'9') || std::u32string_view(U"<>^+- #.").find(ch) != std::u32string_view::npos);
            body += ch;
            why = "unsupported type";
            break;
        }
        case 1: // precision
            body += U"." + ref::ascii(std::to_string(r.below(20)));
            if(r.coin()) body += good[r.below(good.size())];
            why = "precision";
            break;
        case 2: // something after the type
            body += good[r.below(good.size())];
            body += good[r.below(good.size())];
            why = "text after type";
            break;
        default: // components in the wrong order
            body = r.pick({U"d5", U"x#", U"5+", U"0+", U"#+", U"++", U"##", U"L5", U"5L5", U"b ", U"+<5<", U"5#x", U"-5-", U"x0"});
            why = "wrong order";
            break;
        }
        U32 f = U"{:" + body + U"}";
        c.desc(cat(sizeof(C), "-byte format ", show(f), " args", ab.desc, " (", why, ")"));
        auto got = px::vformat<C>(ref::enc<C>(f), ab.args);
        c.count("refused_checked");
        c.check(got.err == px::err_kind::format_error, cat("refused/", why), [&] { return cat("not refused: ", got.show()); });
        c.nontrivial(cat(show(f), ab.desc, sizeof(C)));
        c.sample(cat(show(f), " with", ab.desc, " -> ", got.show()));
    });
}

// Dynamic width that is not a positive integer is refused
VH_STREAM(dynamic_width_refused, 4000, 40000)
{
    Rng& r = c.rng;
    px::dyn_t<char> a;
    a.emplace(42);
    std::string d;
    switch(r.below(7))
    {
    case 0: { long long v = -static_cast<long long>(r.below(1000)); a.emplace(v); d = std::to_string(v); break; }
    case 1: a.emplace(r.range(1, 50) + 0.5); d = "double"; break;
    case 2: a.emplace(std::string("7")); d = "string"; break;
    case 3: a.emplace(0); d = "0"; break;
    case 4: a.emplace(static_cast<unsigned long long>(0) - 1 - r.below(1000)); d = "huge unsigned"; break;
    case 5: a.emplace(static_cast<long long>(0x7FFFFFFFFFFFFFFFll - static_cast<long long>(r.below(1000)))); d = "huge signed"; break;
    default: a.emplace(0x80000000u + static_cast<unsigned>(r.below(1000))); d = "2^31 and more"; break;
    }
    std::string f = r.pick({"{0:{1}}", "{:{}}", "{0:>{1}}", "{:*^{}x}", "{:0{}d}"});
    c.desc(cat("format ", show(f), " width arg ", d));
    auto got = px::vformat<char>(f, a);
    c.count("dyn_width_refused");
    c.check(!got.ok(), cat("dynamic-width/", d == "0" || d[0] == '-' ? "non-positive" : d), [&] { return cat("not refused: ", got.show().substr(0, 80)); });
    c.nontrivial(f + d);
}
