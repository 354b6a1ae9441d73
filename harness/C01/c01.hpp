#pragma once
// C01: whatever the format string and the arguments are, a result or an exception
#include "wild.hpp"
using namespace vh;
using ref::U32;

namespace c01
{
struct too_long : std::runtime_error
{
    too_long() : std::runtime_error("enough") {}
};

// Takes a limited number of units
template <typename C>
struct limited
{
    using iterator_category = std::output_iterator_tag;
    using value_type = void;
    using difference_type = std::ptrdiff_t;
    using pointer = void;
    using reference = void;
    std::basic_string<C>* to;
    struct slot
    {
        std::basic_string<C>* to;
        const slot& operator=(const C& c) const
        {
            if(to->size() >= 3000) throw too_long();
            to->push_back(c);
            return *this;
        }
    };
    slot operator*() const { return {to}; }
    limited& operator++() { return *this; }
    limited operator++(int) { return *this; }
};
template <typename C>
using limited_ctx = papilio::basic_format_context<limited<C>, C>;

// no allocation succeeds that would be too large for this machine
struct bounded_memory
{
    bounded_memory() { vh::AllocGuard::limit(std::size_t(1) << 24); }
    ~bounded_memory() { vh::AllocGuard::limit(~std::size_t(0)); }
};

enum source { s_grammar, s_soup, s_spec, s_units, s_long };
struct scene
{
    source from;
    std::uint64_t seed, values;
};
template <typename C>
void run(Case& c, const scene& s);

const U32& soup();

// A piece of any length that means something, repeated
inline U32 long_string(Rng& r, const wild::shape& sh)
{
    static const std::vector<U32> pieces{U"{", U"}", U"{{", U"}}", U"{}", U"{:", U"{0:", U"{$ ", U"!", U"$ {0}? 'a' : ", U"{$ {0}? ", U"[0]", U"['a']", U"[0:]", U"[:", U"[", U".self", U".length", U".child", U".", U"n:", U":", U"1", U"0", U"9", U"-", U"'", U"\\", U"\\'", U"'a'", U"?", U" ", U"\t", U"<", U"*^", U"é", U"文", U"🦋", U"a", U"_", U"%Y", U"%", U"==", U"+", U"#", U"{0", U"{a", U"? 'x' : "};
    static const std::vector<U32> heads{U"", U"{", U"{0", U"{0:", U"{0:.", U"{:", U"{$ ", U"{$ {0}? '", U"{$ {0}? ", U"{$ {0} == ", U"{$ {0}? 'a' : ", U"{0[", U"{0['", U"{a", U"{a.", U"{a:", U"{$ !", U"{$ {0} > 0? 'a' : "};
    static const std::vector<U32> tails{U"", U"}", U"'}", U"? 'a'}", U"? 'a' : 'b'}", U" 'x'}", U"]}", U"']}"};
    U32 t = r.chance(1, 4) ? wild::format_string(r, sh) : r.pick(heads);
    const U32& p = r.pick(pieces);
    std::size_t n = r.chance(1, 8) ? static_cast<std::size_t>(r.range(1000, 6000)) : static_cast<std::size_t>(r.range(1, 400));
    for(std::size_t i = 0; i < n; ++i) t += p;
    if(r.chance(1, 4))
    {
        const U32& q = r.pick(pieces);
        for(std::size_t i = 0; i < n; ++i) t += q;
    }
    return t + r.pick(tails);
}

template <typename C>
std::basic_string<C> make(Rng& r, source from, const wild::shape& sh)
{
    using S = std::basic_string<C>;
    switch(from)
    {
    case s_grammar:
    {
        S f = ref::enc<C>(wild::format_string(r, sh));
        if(r.chance(1, 3)) wild::break_units(r, f, 3);
        return f;
    }
    case s_soup:
    {
        static const U32 set = U"{{{{{}}}}}[[]]::..??$$!!''\\\\<>=+-# 00123456789nmsdxcLfeg%^*_aé文 ";
        U32 t;
        for(std::size_t i = r.below(24); i > 0; --i) t += set[r.below(set.size())];
        S f = ref::enc<C>(t);
        if(r.chance(1, 4)) wild::break_units(r, f, 2);
        return f;
    }
    case s_spec:
    {
        static const U32 set = U"<>^+- #0123456789....{}{}[]:nmssdxXbBofFeEgGaAcpP?L%*'é文";
        U32 t = U"{";
        if(sh.pos.empty() || (!sh.named.empty() && r.coin())) t += wild::names()[r.below(sh.named.empty() ? 1 : sh.named.size())];
        else t += ref::ascii(std::to_string(r.below(sh.pos.size())));
        t += U":";
        for(std::size_t i = r.below(9); i > 0; --i) t += set[r.below(set.size())];
        if(r.chance(9, 10)) t += U"}";
        S f = ref::enc<C>(t);
        if(r.chance(1, 6)) wild::break_units(r, f, 2);
        return f;
    }
    case s_units:
    {
        S f;
        for(std::size_t i = r.below(20); i > 0; --i)
            f += r.coin() ? wild::any_unit<C>(r) : static_cast<C>(U"{}:[]'.$?! 0a<"[r.below(14)]);
        return f;
    }
    default:
    {
        S f = ref::enc<C>(long_string(r, sh));
        if(r.chance(1, 6)) wild::break_units(r, f, 2);
        return f;
    }
    }
}

template <typename C>
void run_impl(Case& c, const scene& s)
{
    using S = std::basic_string<C>;
    Rng r(s.seed);
    S got;
    px::err_kind err;
    std::string what;
    std::string text;
    {
        wild::pack<limited_ctx<C>> p;
        Rng v(s.values);
        p.fill(v);
        px::exact<C> f(make<C>(r, s.from, p.sh));
        text = vh::show(f.view().substr(0, 1500));
        c.more(cat(" format ", text, " with", p.desc));
        auto res = px::capture<C>([&]
        {
            bounded_memory m;
            papilio::vformat_to(limited<C>{&got}, f.view(), p.args);
            return S();
        });
        err = res.err;
        what = res.what;
        c.eval();
        c.count(err == px::err_kind::none ? "printed" : err == px::err_kind::format_error ? "refused" : what == "enough" ? "cut_off" : "other_exception");
        c.nontrivial(cat(text, p.desc, s.values));
        c.sample(cat(text, " with", p.desc, " -> ", err == px::err_kind::none ? vh::show(std::basic_string_view<C>(got)) : what));
    }
    if(what == "enough" || got.size() >= 3000) return;
    // again the usual way
    {
        Rng again(s.seed);
        wild::pack<px::ctx_t<C>> p;
        Rng v(s.values);
        p.fill(v);
        px::exact<C> f(make<C>(again, s.from, p.sh));
        px::result<C> a;
        {
            bounded_memory m;
            a = px::vformat<C>(f.view(), p.args);
        }
        c.check(a.err == err && (err != px::err_kind::none || a.s == got), "unstable", [&] { return cat("first ", err == px::err_kind::none ? vh::show(std::basic_string_view<C>(got)) : what, " then ", a.show()); });
        if(r.chance(1, 3))
        {
            auto b = px::capture<C>([&]
            {
                S t;
                papilio::formatted_range<C> range(f.view(), p.args);
                for(C x : range) t.push_back(x);
                return t;
            });
            c.check(a.err == b.err && a.s == b.s, "range-unstable", [&] { return cat("first ", a.show(), " then ", b.show()); });
        }
    }
}
} // namespace c01
