// C04: floating-point output vs std::to_chars-based model
#include "fmt.hpp"
#include <limits>
#include <bit>
#include <cfloat>
using namespace vh;
using ref::Spec;
using ref::U32;

template <typename T>
static T any_float(Rng& r)
{
    using L = std::numeric_limits<T>;
    switch(r.below(12))
    {
    case 0: return r.pick({T(0), -T(0), L::infinity(), -L::infinity(), L::quiet_NaN(), -L::quiet_NaN(), L::max(), L::lowest(), L::min(), L::denorm_min(), -L::denorm_min(), L::epsilon(), T(1), T(-1)});
    case 1:
        if constexpr(std::is_same_v<T, float>) return std::bit_cast<float>(static_cast<std::uint32_t>(r.next()));
        else if constexpr(std::is_same_v<T, double>) return std::bit_cast<double>(r.next());
        else return std::ldexp(static_cast<T>(r.next()), static_cast<int>(r.range(-16500, 16300)));
    case 2: // around powers of ten
    {
        T v = 1;
        int k = static_cast<int>(r.range(-L::max_exponent10, L::max_exponent10));
        v = std::pow(T(10), T(k));
        switch(r.below(3))
        {
        case 0: v = std::nextafter(v, L::infinity()); break;
        case 1: v = std::nextafter(v, T(0)); break;
        default: break;
        }
        return r.coin() ? v : -v;
    }
    case 3: return static_cast<T>(r.range(-100000, 100000));
    case 4: return static_cast<T>(r.range(-1000000, 1000000)) / T(1000);
    case 5: return static_cast<T>(r.range(-2000, 2000)) / T(8) + T(0.5); // ties
    case 6: return static_cast<T>(static_cast<std::int64_t>(r.next()));
    case 7: // carries like 9.9999995
    {
        T v = T(10);
        for(std::uint64_t k = r.below(18); k; --k) v *= 10;
        T w = v - T(r.below(20)) / T(2);
        for(std::uint64_t k = r.below(22); k; --k) w /= 10;
        return r.coin() ? w : -w;
    }
    case 8: return std::ldexp(T(1), static_cast<int>(r.range(L::min_exponent - L::digits, L::max_exponent - 1)));
    case 9: return static_cast<T>(r.next()) / static_cast<T>(r.next() | 1);
    default: return static_cast<T>(r.range(-10000, 10000)) / T(100);
    }
}

template <typename T>
static std::string exactly(T v)
{
    char b[64];
    std::snprintf(b, sizeof b, "%La", static_cast<long double>(v));
    return b;
}

template <typename C, typename T>
static void one(Case& c, const char* tname)
{
    Rng& r = c.rng;
    Spec s = px::any_spec(r);
    if(r.chance(4, 5)) s.type = r.pick({U'f', U'F', U'e', U'E', U'g', U'G', U'a', U'A'});
    if(r.chance(1, 2))
    {
        s.has_prec = true;
        s.prec = r.chance(1, 6) ? r.below(400) : r.chance(1, 6) ? 0 : r.below(20);
    }
    T v = any_float<T>(r);
    px::arg_builder<C> ab;
    ab.push(v, std::string(tname) + " " + exactly(v));
    if(s.has_prec && s.prec == 0 && r.coin()) s.prec_text = U"";
    U32 f = px::make_fmt<C>(r, s, ab);
    c.desc(cat(sizeof(C), "-byte format ", show(f), " args", ab.desc));
    px::exact<C> fe(ref::enc<C>(f));
    auto got = px::vformat<C>(fe.view(), ab.args);
    // a dynamic precision of zero is refused by "positive integer"; accept either reading only there
    U32 want = ref::floating(v, s);
    auto w = ref::enc<C>(want);
    c.count("float_outputs");
    if(!std::isfinite(v)) c.count("inf_nan");
    if(s.has_prec && s.prec == 0) c.count("precision_zero");
    if(want.size() > 32) c.count("longer_than_32");
    if(v != 0 && std::fabs(v) < std::numeric_limits<T>::min()) c.count("subnormal");
    if(s.zero && !s.align && s.has_width) c.count("zero_padded");
    if(s.has_prec && s.prec == 0 && !s.prec_text.empty() && !got.ok())
    {
        c.eval();
        return;
    }
    c.check(got.ok() && got.s == w, cat("float/", tname), [&] { return cat("got ", got.show().substr(0, 600), " want ", show(std::basic_string_view<C>(w)).substr(0, 600)); });
    c.nontrivial(cat(tname, show(f), exactly(v), sizeof(C)));
    c.sample(cat(show(f), " with", ab.desc, " -> ", show(want)));
}

VH_STREAM(floats, 80000, 2500000)
{
    px::with_char(static_cast<int>(c.rng.below(5)), [&](auto t)
    {
        using C = decltype(t);
        switch(c.rng.below(4))
        {
        case 0: return one<C, float>(c, "float");
        case 1: return one<C, long double>(c, "long double");
        default: return one<C, double>(c, "double");
        }
    });
}

// Every exponent of every type with every presentation type
VH_STREAM(exponents, 2400, 40000)
{
    Rng& r = c.rng;
    static const char32_t types[] = {0, U'f', U'F', U'e', U'E', U'g', U'G', U'a', U'A'};
    auto go = [&](auto v, const char* tname)
    {
        using T = decltype(v);
        for(char32_t t : types)
        {
            Spec s;
            s.type = t;
            if(r.coin()) { s.has_prec = true; s.prec = r.below(40); }
            if(r.coin()) { s.sign = r.pick({U'+', U' ', U'-'}); }
            if(r.chance(1, 3)) { s.has_width = true; s.width = static_cast<std::size_t>(r.range(1, 60)); s.zero = r.coin(); }
            U32 f = U"{:" + s.text() + U"}";
            c.desc(cat("format ", show(f), " ", tname, " ", exactly(v)));
            px::dyn_t<char> a(v);
            auto got = px::vformat<char>(ref::u8(f), a);
            auto want = ref::u8(ref::floating(v, s));
            c.count("float_outputs");
            if(want.size() > 300) c.count("longer_than_300");
            c.check(got.ok() && got.s == want, cat("exponent/", tname), [&] { return cat("got ", got.show().substr(0, 400), " want ", show(want).substr(0, 400)); });
            c.nontrivial(cat(tname, show(f), exactly(v)));
        }
        static_cast<void>(sizeof(T));
    };
    double m = 1.0 + static_cast<double>(r.below(1000)) / 1000;
    if(r.coin()) m = -m;
    int i = static_cast<int>(c.index);
    go(std::ldexp(m, i % 2150 - 1100), "double");
    go(std::ldexp(static_cast<float>(m), i % 290 - 150), "float");
    if(i % 3 == 0 || thorough()) go(std::ldexp(static_cast<long double>(m), static_cast<int>(r.range(-16440, 16383))), "long double");
}

// Large precisions: every requested digit is produced
VH_STREAM(long_precision, 1500, 20000)
{
    Rng& r = c.rng;
    Spec s;
    s.type = r.pick({U'f', U'e', U'g', U'a', U'E', U'\0'});
    s.has_prec = true;
    s.prec = r.chance(1, 4) ? static_cast<std::size_t>(r.range(20, 40)) : static_cast<std::size_t>(r.range(1, 3000));
    double v = any_float<double>(r);
    U32 f = U"{:" + s.text() + U"}";
    c.desc(cat("format ", show(f), " double ", exactly(v)));
    px::dyn_t<char> a(v);
    auto got = px::vformat<char>(ref::u8(f), a);
    auto want = ref::u8(ref::floating(v, s));
    c.count("long_precision");
    c.check(got.ok() && got.s == want, "long-precision", [&] { return cat("got ", got.show().substr(0, 200), " want ", show(want).substr(0, 200), " sizes ", got.s.size(), " ", want.size()); });
    c.nontrivial(cat(show(f), exactly(v)));
    c.sample(cat(show(f), " ", exactly(v), " -> ", want.size(), " characters"));
}

// Unsupported letters are refused
VH_STREAM(refused, 4000, 40000)
{
    Rng& r = c.rng;
    char32_t ch = r.pick({U'd', U'x', U's', U'c', U'b', U'p', U'?', U'n', U'm', U'q', U'z', U'o', U'l', U'i'});
    Spec s = px::any_spec(r);
    s.type = ch;
    U32 f = U"{:" + s.text() + U"}";
    px::dyn_t<char> a(any_float<double>(r));
    c.desc(cat("format ", show(f)));
    auto got = px::vformat<char>(ref::u8(f), a);
    c.count("refused_checked");
    c.check(got.err == px::err_kind::format_error, "refused", [&] { return cat("not refused: ", got.show()); });
    c.nontrivial(show(f));
}
