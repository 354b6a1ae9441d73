#pragma once
// C02: one text through every way in and out
#include "wild.hpp"
#include <cstdio>
#include <ostream>
#include <sstream>
#include <streambuf>
#include <papilio/print.hpp>
using namespace vh;
using ref::U32;

namespace c02
{
// Custom types whose formatters write to the output in different, equally valid ways
struct by_postfix { int v = 0; };
struct by_copy { int v = 0; };
struct by_nested { int v = 0; };
struct by_stream { int v = 0; };
struct by_plain { int v = 0; };
template <typename C>
std::basic_ostream<C>& operator<<(std::basic_ostream<C>& os, const by_stream& s) { return os << static_cast<C>('<') << static_cast<C>('0' + s.v % 10) << static_cast<C>('>'); }

template <typename C>
std::basic_string<C> body(int v)
{
    U32 t = U"[" + ref::ascii(std::to_string(v)) + U"]";
    for(int i = 0; i < v % 5; ++i) t += U"é文";
    return ref::enc<C>(t);
}

// An output iterator and nothing more than that
template <typename C>
struct sink
{
    using iterator_category = std::output_iterator_tag;
    using value_type = void;
    using difference_type = std::ptrdiff_t;
    using pointer = void;
    using reference = void;
    std::basic_string<C>* to;
    explicit sink(std::basic_string<C>& s) : to(&s) {}
    struct slot
    {
        std::basic_string<C>* to;
        const slot& operator=(const C& c) const
        {
            to->push_back(c);
            return *this;
        }
    };
    slot operator*() const { return {to}; }
    sink& operator++() { return *this; }
    sink operator++(int) { return *this; }
};

template <typename C>
std::basic_string_view<C> name(std::size_t i)
{
    static const std::vector<std::basic_string<C>> n = []
    {
        std::vector<std::basic_string<C>> v;
        for(auto& x : wild::names()) v.push_back(ref::enc<C>(x));
        return v;
    }();
    return n[i];
}
constexpr int shapes = 9;
} // namespace c02

template <typename C>
class papilio::formatter<c02::by_postfix, C>
{
public:
    template <typename ParseContext>
    auto parse(ParseContext& ctx) -> typename ParseContext::iterator { return ctx.begin(); }
    template <typename Context>
    auto format(const c02::by_postfix& v, Context& ctx) const -> typename Context::iterator
    {
        auto it = ctx.out();
        for(C c : c02::body<C>(v.v)) *it++ = c;
        return it;
    }
};
template <typename C>
class papilio::formatter<c02::by_copy, C>
{
public:
    template <typename ParseContext>
    auto parse(ParseContext& ctx) -> typename ParseContext::iterator { return ctx.begin(); }
    template <typename Context>
    auto format(const c02::by_copy& v, Context& ctx) const -> typename Context::iterator
    {
        auto s = c02::body<C>(v.v);
        return std::copy(s.begin(), s.end(), ctx.out());
    }
};
template <typename C>
class papilio::formatter<c02::by_nested, C>
{
public:
    template <typename ParseContext>
    auto parse(ParseContext& ctx) -> typename ParseContext::iterator { return ctx.begin(); }
    template <typename Context>
    auto format(const c02::by_nested& v, Context& ctx) const -> typename Context::iterator
    {
        auto s = c02::body<C>(v.v);
        auto f = ref::enc<C>(U"{}+{}{:>3}");
        return papilio::format_to(ctx.out(), std::basic_string_view<C>(f), v.v, s, v.v);
    }
};
template <typename C>
class papilio::formatter<c02::by_plain, C>
{
public:
    template <typename ParseContext>
    auto parse(ParseContext& ctx) -> typename ParseContext::iterator { return ctx.begin(); }
    template <typename Context>
    auto format(const c02::by_plain& v, Context& ctx) const -> typename Context::iterator
    {
        using tr = papilio::format_context_traits<Context>;
        auto s = c02::body<C>(v.v);
        tr::append(ctx, s.begin(), s.end());
        tr::append(ctx, static_cast<C>('x'), static_cast<std::size_t>(v.v % 4));
        tr::append(ctx, papilio::utf::codepoint(U'文'));
        tr::append_escaped(ctx, std::basic_string_view<C>(s));
        C buf[3] = {static_cast<C>('{'), static_cast<C>('}'), 0};
        tr::format_to(ctx, std::basic_string_view<C>(buf, 2), v.v);
        return ctx.out();
    }
};

namespace c02
{
struct scene
{
    int shape;
    std::uint64_t seed;
    U32 fmt;
    std::uint64_t how; // which ways to try, bounds
};

// Values of one shape: calls f(kinds, arg...)
template <typename C, int Half, typename F>
void with_values(int shape, std::uint64_t seed, F&& f)
{
    using S = std::basic_string<C>;
    Rng r(seed);
    auto str = [&] { return wild::pack<px::ctx_t<C>>::str(r); };
    auto num = [&] { return static_cast<int>(r.range(-30, 60)); };
    wild::shape sh;
    auto kinds = [&](std::initializer_list<wild::kind_t> p, std::initializer_list<wild::kind_t> n) { sh.pos = p; sh.named = n; };
    using namespace wild;
    // compiled in two halves
    if constexpr(Half != 1) switch(shape)
    {
    case 0:
    {
        kinds({k_int, k_str, k_flt}, {k_list, k_str});
        int a = num(); S b = str(); double d = static_cast<double>(r.range(-4000, 4000)) / 8;
        std::vector<int> v(r.below(5), num());
        S e = str();
        f(sh, a, b, d, papilio::arg(name<C>(0), v), papilio::arg(name<C>(1), std::basic_string_view<C>(e)));
        break;
    }
    case 1:
    {
        kinds({k_bool, k_chr, k_int, k_ptr, k_str, k_chr}, {});
        bool a = r.coin(); C ch = static_cast<C>(r.range(32, 126)); auto u = static_cast<unsigned long long>(wild::number(r));
        const void* p = reinterpret_cast<const void*>(static_cast<std::uintptr_t>(r.next()));
        S e = str(); const C* z = e.c_str();
        papilio::utf::codepoint cp(px::any_cp(r));
        f(sh, a, ch, u, p, z, cp);
        break;
    }
    case 2:
    {
        kinds({k_smap, k_tuple, k_opt}, {k_custom, k_imap});
        std::map<S, int> m; m[S(1, static_cast<C>('a'))] = num(); if(r.coin()) m[S(1, static_cast<C>('b'))] = num();
        std::tuple<int, S, bool> t(num(), str(), r.coin());
        std::optional<S> o; if(r.coin()) o = str();
        wild::custom cu{num()};
        std::map<int, S> im; im[0] = str(); im[num()] = str();
        f(sh, m, t, o, papilio::arg(name<C>(0), cu), papilio::arg(name<C>(1), im));
        break;
    }
    case 3:
    {
        kinds({k_tm, k_enum, k_flt, k_var}, {k_flt});
        std::tm t{}; t.tm_year = static_cast<int>(r.range(0, 200)); t.tm_mon = static_cast<int>(r.below(12)); t.tm_mday = static_cast<int>(r.range(1, 28));
        auto en = static_cast<wild::pet>(r.range(-6, 6));
        float fl = static_cast<float>(num()) / 4; long double ld = num();
        std::variant<std::monostate, int, S> v; if(r.coin()) v = num(); else if(r.coin()) v = str();
        f(sh, t, en, fl, v, papilio::arg(name<C>(0), ld));
        break;
    }
    case 4: f(sh); break;
    }
    if constexpr(Half != 0) switch(shape)
    {
    case 5:
    {
        kinds({k_int, k_str, k_list, k_int}, {k_int, k_int});
        short a = static_cast<short>(num()); S s = str(); std::vector<S> v; for(std::size_t i = r.below(4); i; --i) v.push_back(str());
        unsigned w = static_cast<unsigned>(r.range(1, 30)); long long big = wild::number(r); unsigned char uc = static_cast<unsigned char>(r.below(256));
        f(sh, a, s, v, big, papilio::arg(name<C>(0), w), papilio::arg(name<C>(1), uc));
        break;
    }
    case 6:
    {
        kinds({k_other, k_other, k_other, k_other, k_int}, {});
        f(sh, by_postfix{static_cast<int>(r.below(100))}, by_copy{static_cast<int>(r.below(100))}, by_nested{static_cast<int>(r.below(100))}, by_plain{static_cast<int>(r.below(100))}, num());
        break;
    }
    case 7:
    {
        kinds({}, {k_str, k_int, k_list});
        S s = str(); int n = num(); std::vector<by_nested> v{by_nested{1}, by_nested{num() + 30}};
        f(sh, papilio::arg(name<C>(0), s), papilio::arg(name<C>(1), n), papilio::arg(name<C>(2), v));
        break;
    }
    case 8:
    {
        kinds({k_str, k_str, k_int, k_int, k_int, k_int}, {k_str});
        S a = str(), b = str(), e = str(); long x = num(); unsigned short y = static_cast<unsigned short>(num() + 40); signed char z = static_cast<signed char>(num()); unsigned long w = static_cast<unsigned long>(num() + 50);
        papilio::utf::basic_string_ref<C> sr(e);
        f(sh, a, std::basic_string_view<C>(b), x, y, z, w, papilio::arg(name<C>(0), sr));
        break;
    }
    }
}

template <typename C, int Half>
void run(Case& c, const scene& s);

template <typename C>
struct outcome
{
    px::err_kind err = px::err_kind::none;
    std::string what;
    std::basic_string<C> s;
    std::string show() const
    {
        return (err == px::err_kind::none ? "" : err == px::err_kind::format_error ? "format_error (" + what + ") after " : "exception (" + what + ") after ") + vh::show(std::basic_string_view<C>(s));
    }
};

// f writes to a string; what was written before a failure stays visible
template <typename C, typename F>
outcome<C> attempt(F&& f)
{
    outcome<C> o;
    try { f(o.s); }
    catch(const papilio::format_error& e) { o.err = px::err_kind::format_error; o.what = e.what(); }
    catch(const std::exception& e) { o.err = px::err_kind::other_std; o.what = e.what(); }
    return o;
}

template <typename C, typename... Args>
void compare(Case& c, const scene& s, const Args&... args)
{
    using S = std::basic_string<C>;
    using V = std::basic_string_view<C>;
    Rng r(s.how);
    px::exact<C> exact(ref::enc<C>(s.fmt));
    V f = exact.view();
    constexpr bool locales = std::is_same_v<C, char> || std::is_same_v<C, wchar_t>;

    outcome<C> base = attempt<C>([&](S& t) { t = papilio::format(f, args...); });
    const bool ok = base.err == px::err_kind::none;
    auto same = [&](const char* what, const outcome<C>& o, bool text_on_failure = false)
    {
        c.count("calls");
        c.check(o.err == base.err, "fails-differently", [&] { return cat("format: ", base.show(), " but ", what, ": ", o.show()); });
        if(ok || text_on_failure) c.check(o.s == base.s, "text-differs", [&] { return cat("format: ", base.show(), " but ", what, ": ", o.show()); });
    };
    // to an iterator: also what is written before a failure is known from here on
    {
        auto o = attempt<C>([&](S& t) { papilio::format_to(std::back_inserter(t), f, args...); });
        same("format_to(back_inserter)", o);
        base.s = o.s;
    }
    same("format_to(sink)", attempt<C>([&](S& t) { papilio::format_to(sink<C>(t), f, args...); }), true);
    // to a buffer with room for exactly what is written
    same("format_to(pointer)", attempt<C>([&](S& t)
    {
        std::unique_ptr<C[]> p(new C[base.s.size()]());
        try
        {
            C* e = papilio::format_to(p.get(), f, args...);
            t.assign(p.get(), e);
        }
        catch(...)
        {
            t.assign(p.get(), base.s.size());
            throw;
        }
    }), true);
    // packs
    {
        const auto pack = papilio::make_format_args<px::ctx_t<C>>(args...);
        for(int i = 0; i < 2; ++i) same("vformat of a pack", attempt<C>([&](S& t) { t = papilio::vformat(f, pack); }));
        S buf;
        same("vformat_to with a pack", attempt<C>([&](S& t) { papilio::vformat_to(std::back_inserter(t), f, pack); }), true);
        px::dyn_t<C> dyn;
        (dyn.emplace(args), ...);
        same("vformat of a dynamic pack", attempt<C>([&](S& t) { t = papilio::vformat(f, dyn); }));
        papilio::basic_format_args_ref<px::ctx_t<C>> view(dyn), view2(view);
        same("vformat of a view of a pack", attempt<C>([&](S& t) { t = papilio::vformat(f, view2); }));
        same("formatted_range", attempt<C>([&](S& t)
        {
            const papilio::formatted_range<C> range(f, pack);
            auto it = range.begin();
            bool odd = r.coin();
            while(it != range.end())
            {
                C x = *it;
                t.push_back(x);
                if(odd && r.chance(1, 4)) c.check(*it == x && !(it == range.end()), "range-unstable", "");
                ++it;
                if(odd && r.chance(1, 5))
                {
                    auto moved = std::move(it);
                    if(r.coin() && moved != range.end()) { t.push_back(*moved); moved++; }
                    it = std::move(moved);
                }
            }
            if(odd) c.check(it == range.end(), "range-ends-twice", "");
        }), false);
        if(ok)
        {
            std::vector<C> t;
            papilio::formatted_range<C> range(f, pack);
            static_assert(std::ranges::input_range<papilio::formatted_range<C>>);
            for(C x : range) t.push_back(x);
            c.check(S(t.begin(), t.end()) == base.s, "range-for", [&] { return cat("format: ", base.show(), " but ", vh::show(S(t.begin(), t.end()))); });
        }
    }
    // counting
    {
        std::size_t n = 0;
        auto o = attempt<C>([&](S&) { n = papilio::formatted_size(f, args...); });
        c.check(o.err == base.err, "size-fails-differently", [&] { return cat("format: ", base.show(), " formatted_size: ", o.show()); });
        if(ok) c.check(n == base.s.size(), "size-differs", [&] { return cat(base.s.size(), " units but formatted_size ", n); });
        c.count("calls");
    }
    // bounded
    for(int i = 0; i < 3; ++i)
    {
        std::size_t total = base.s.size();
        std::size_t n = i == 0 ? r.below(total + 1) : i == 1 ? total + r.below(3) : r.chance(1, 3) ? 0 : r.below(total + 4);
        std::size_t expect = std::min(n, total);
        const bool to_pointer = r.coin();
        std::ptrdiff_t size = -1, end = -1;
        auto o = attempt<C>([&](S& t)
        {
            if(to_pointer)
            {
                std::unique_ptr<C[]> p(new C[n]());
                try
                {
                    auto res = papilio::format_to_n(p.get(), static_cast<std::ptrdiff_t>(n), f, args...);
                    size = res.size;
                    end = res.out - p.get();
                    t.assign(p.get(), res.out);
                }
                catch(...)
                {
                    t.assign(p.get(), std::min(n, total));
                    throw;
                }
            }
            else
            {
                auto keep = [&](auto res) { size = end = res.size; };
                if(n == 0 && r.coin()) keep(papilio::format_to_n(std::back_inserter(t), -static_cast<std::ptrdiff_t>(r.below(3)), f, args...)); // nothing, too
                else if(r.coin()) keep(papilio::format_to_n(std::back_inserter(t), static_cast<std::ptrdiff_t>(n), f, args...));
                else keep(papilio::format_to_n(sink<C>(t), static_cast<std::ptrdiff_t>(n), f, args...));
            }
        });
        c.count("bounded_calls");
        auto msg = [&] { return cat("format: ", base.show(), " format_to_n(", n, "): ", o.show(), " size ", size, " end ", end); };
        c.check(o.s.size() <= n, "bound-exceeded", msg);
        if(o.err == px::err_kind::none)
        {
            // may stop before the point of failure only if it has what was asked for
            c.check(ok || total >= n, "bounded-succeeds", msg);
            c.check(o.s == base.s.substr(0, expect), "bounded-text", msg);
            c.check(size == static_cast<std::ptrdiff_t>(expect) && end == size, "bounded-size", msg);
        }
        else
        {
            c.check(o.err == base.err, "bounded-fails-differently", msg);
            c.check(o.s == base.s.substr(0, expect), "bounded-text-before-failure", msg);
        }
    }
    if constexpr(locales)
    {
        std::locale loc = std::locale::classic();
        same("format with locale", attempt<C>([&](S& t) { t = papilio::format(loc, f, args...); }));
        same("format_to with locale", attempt<C>([&](S& t) { papilio::format_to(std::back_inserter(t), loc, f, args...); }), true);
        std::size_t n = 0;
        auto o = attempt<C>([&](S&) { n = papilio::formatted_size(loc, f, args...); });
        c.check(o.err == base.err && (!ok || n == base.s.size()), "size-with-locale", [&] { return cat("format: ", base.show(), " formatted_size: ", o.show(), " ", n); });
        o = attempt<C>([&](S& t) { papilio::format_to_n(std::back_inserter(t), static_cast<std::ptrdiff_t>(base.s.size() + 1), loc, f, args...); });
        same("format_to_n with locale", o, true);
        same("streambuf iterator", attempt<C>([&](S& t)
        {
            std::basic_ostringstream<C> os;
            struct get { S& t; std::basic_ostringstream<C>& os; ~get() { t = os.str(); } } g{t, os};
            papilio::format_to(std::ostreambuf_iterator<C>(os), f, args...);
        }), true);
    }
    if constexpr(std::is_same_v<C, char>)
    {
        S line = base.s + "\n";
        for(int nl = 0; nl < 2; ++nl)
        {
            auto o = attempt<C>([&](S& t)
            {
                std::ostringstream os;
                struct get { S& t; std::ostringstream& os; ~get() { t = os.str(); } } g{t, os};
                if(nl) papilio::println(os, f, args...);
                else papilio::print(os, f, args...);
            });
            auto p = attempt<C>([&](S& t)
            {
                char* b = nullptr;
                std::size_t n = 0;
                std::FILE* file = open_memstream(&b, &n);
                struct get { S& t; char*& b; std::size_t& n; std::FILE* f; ~get() { std::fclose(f); t.assign(b, n); std::free(b); } } g{t, b, n, file};
                if(nl) papilio::println(file, f, args...);
                else papilio::print(file, f, args...);
            });
            for(auto* x : {&o, &p})
            {
                c.check(x->err == base.err, "print-fails-differently", [&] { return cat("format: ", base.show(), " print: ", x->show()); });
                c.check(x->s == (ok ? nl ? line : base.s : S()), "print-text", [&] { return cat("format: ", base.show(), " print: ", x->show()); });
                c.count("calls");
            }
        }
    }
    c.count(ok ? "printed" : "refused");
    c.sample(cat(show(s.fmt), " shape ", s.shape, " -> ", base.show()));
}

template <typename C, int Half>
void run_impl(Case& c, const scene& s)
{
    with_values<C, Half>(s.shape, s.seed, [&](const wild::shape&, const auto&... args) { compare<C>(c, s, args...); });
}
} // namespace c02
