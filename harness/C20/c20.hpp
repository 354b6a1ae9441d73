#pragma once
// C20: exceptions at any point
#include "../C19/c19.hpp"

namespace c20
{
struct boom
{
    long long id;
};

// allocation n fails inside f; tells whether it did
struct tried
{
    bool fired = false, bad_alloc = false, other = false;
};
template <typename F>
tried with_failure(std::uint64_t n, F&& f)
{
    tried t;
    AllocGuard::fail_at(n);
    try { f(); }
    catch(const std::bad_alloc&) { t.bad_alloc = true; }
    catch(...) { t.other = true; }
    t.fired = AllocGuard::fired();
    AllocGuard::fail_at(0);
    return t;
}
template <typename F>
std::uint64_t allocations(F&& f)
{
    AllocGuard::fail_at(0);
    try { f(); }
    catch(...) {}
    return AllocGuard::allocs();
}
// the points to fail at: all of them if there are few
inline std::vector<std::uint64_t> points(Rng& r, std::uint64_t n, std::size_t max)
{
    std::vector<std::uint64_t> v;
    if(n <= max)
        for(std::uint64_t i = 1; i <= n; ++i) v.push_back(i);
    else
        for(std::size_t i = 0; i < max; ++i) v.push_back(1 + r.below(n));
    return v;
}

// Fails where it is told to
struct fragile
{
    long long id = 0;
    static inline thread_local long long arm = -1;
    static void tick(long long id)
    {
        if(arm >= 0 && arm-- == 0) throw boom{id};
    }
};
// its copies are counted
struct counted
{
    static inline long long live = 0;
    long long id = 0;
    std::string text = std::string(40, 't');
    explicit counted(long long i) : id(i) { ++live; }
    counted(const counted& o) : id(o.id), text(o.text) { ++live; }
    counted(counted&& o) : id(o.id), text(o.text) { ++live; } // not noexcept: allocates
    counted& operator=(const counted&) = default;
    ~counted() { --live; }
};
template <typename C>
struct brittle_out
{
    using iterator_category = std::output_iterator_tag;
    using value_type = void;
    using difference_type = std::ptrdiff_t;
    using pointer = void;
    using reference = void;
    std::basic_string<C>* to;
    std::size_t limit;
    struct slot
    {
        std::basic_string<C>* to;
        std::size_t limit;
        const slot& operator=(const C& c) const
        {
            if(to->size() == limit) throw boom{static_cast<long long>(limit) + 5000};
            to->push_back(c);
            return *this;
        }
    };
    slot operator*() const { return {to, limit}; }
    brittle_out& operator++() { return *this; }
    brittle_out operator++(int) { return *this; }
};

template <typename C> void formatting(Case& c);
template <typename C> void library(Case& c);
template <typename C> void packs(Case& c);
template <typename C> void user(Case& c);
template <typename C> void strings(Case& c);
} // namespace c20

template <typename C>
class papilio::formatter<c20::fragile, C>
{
public:
    template <typename ParseContext>
    auto parse(ParseContext& ctx) -> typename ParseContext::iterator
    {
        c20::fragile::tick(1000);
        auto it = ctx.begin();
        while(it != ctx.end() && *it != U'}') ++it;
        return it;
    }
    template <typename Context>
    auto format(const c20::fragile& v, Context& ctx) const -> typename Context::iterator
    {
        using tr = papilio::format_context_traits<Context>;
        c20::fragile::tick(v.id);
        tr::append(ctx, papilio::utf::codepoint(U'<'));
        c20::fragile::tick(v.id + 1);
        for(char x : std::to_string(v.id)) tr::append(ctx, papilio::utf::codepoint(static_cast<char32_t>(x)));
        return tr::out(ctx);
    }
};
template <typename Context>
struct papilio::accessor<c20::fragile, Context>
{
    using arg = papilio::basic_format_arg<Context>;
    using C = typename Context::char_type;
    static std::basic_string<C> index(const c20::fragile& v, papilio::ssize_t i)
    {
        c20::fragile::tick(v.id + 2);
        return ref::enc<C>(ref::ascii(std::to_string(v.id + i) + " and a text that needs memory"));
    }
    static arg attribute(const c20::fragile& v, const papilio::basic_attribute_name<C>&)
    {
        c20::fragile::tick(v.id + 3);
        return arg(papilio::independent, c20::fragile{v.id * 10});
    }
};
template <typename C>
class papilio::formatter<c20::counted, C>
{
public:
    template <typename ParseContext>
    auto parse(ParseContext& ctx) -> typename ParseContext::iterator { return ctx.begin(); }
    template <typename Context>
    auto format(const c20::counted& v, Context& ctx) const -> typename Context::iterator
    {
        using tr = papilio::format_context_traits<Context>;
        for(char x : std::to_string(v.id)) tr::append(ctx, papilio::utf::codepoint(static_cast<char32_t>(x)));
        return tr::out(ctx);
    }
};

namespace c20
{
template <typename C>
void formatting_impl(Case& c)
{
    // the counters themselves need memory
    c.count("failed_allocations", 0);
    c.count("failed_user_calls", 0);
    c.count("failed_outputs", 0);
    using S = std::basic_string<C>;
    Rng& r = c.rng;
    wild::pack<px::ctx_t<C>> p;
    p.fill(r);
    U32 f32;
    do f32 = wild::format_string(r, p.sh);
    while(wild::digits(f32) > 3);
    S f = ref::enc<C>(f32);
    c.desc(cat("format ", show(f32), " with", p.desc));
    const auto base = px::vformat<C>(f, p.args);
    const S before = ref::enc<C>(U"what was there before");
    S part;
    const int way = static_cast<int>(r.below(3));
    auto go = [&]
    {
        part.clear();
        part.shrink_to_fit();
        switch(way)
        {
        case 0: part = papilio::vformat(f, p.args); break;
        case 1:
            part = before;
            papilio::vformat_to(std::back_inserter(part), f, p.args);
            break;
        default:
        {
            papilio::formatted_range<C> range(f, p.args);
            for(C x : range) part.push_back(x);
        }
        }
    };
    std::uint64_t n = allocations(go);
    part.clear();
    part.shrink_to_fit();
    const auto where = points(r, n, 24);
    const auto live = AllocGuard::live();
    for(std::uint64_t k : where)
    {
        tried t = with_failure(k, go);
        c.more(cat(" fail ", k, ","));
        if(!t.fired) continue;
        c.count("failed_allocations");
        c.check(t.bad_alloc && !t.other, "allocation-failure-hidden", [&] { return cat("allocation ", k, " of ", n, t.other ? ": another exception" : ": no exception", ", text ", show(std::basic_string_view<C>(part)), " instead of ", base.show()); });
        if(way == 1 && part.size() >= before.size()) c.check(part.starts_with(before), "earlier-text-damaged", [&] { return show(std::basic_string_view<C>(part)); });
        if(base.ok())
        {
            std::basic_string_view<C> v(part);
            if(way == 1) v.remove_prefix(std::min(v.size(), before.size()));
            c.check(base.s.starts_with(v), "wrong-part", [&] { return cat(show(v), " is not the start of ", base.show()); });
        }
        part.clear();
        part.shrink_to_fit();
        c.check(AllocGuard::live() == live, "leak", [&] { return cat("allocation ", k, " of ", n, ": ", AllocGuard::live() - live, " blocks more than before"); });
    }
    auto again = px::vformat<C>(f, p.args);
    c.check(again.err == base.err && again.s == base.s, "differs-afterwards", [&] { return cat("before: ", base.show(), " after: ", again.show()); });
    c.count("calls_checked");
    c.nontrivial(cat(show(f32), p.desc, n, way));
    c.sample(cat(show(f32), " with", p.desc, ": ", n, " allocations"));
}

template <typename C>
void library_impl(Case& c)
{
    // the counters themselves need memory
    c.count("failed_allocations", 0);
    c.count("failed_user_calls", 0);
    c.count("failed_outputs", 0);
    Rng& r = c.rng;
    const c19::shared<C> s(r);
    int what = static_cast<int>(r.below(s.kinds));
    std::size_t with = r.below(s.count(what));
    std::uint64_t seed = r.next();
    c.desc(cat("action ", what, " on ", with, " seed ", seed));
    const auto base = s.act(what, with, seed);
    std::optional<px::result<C>> got;
    auto go = [&] { got.reset(); got.emplace(s.act(what, with, seed)); };
    std::uint64_t n = allocations(go);
    got.reset();
    const auto where = points(r, n, 24);
    const auto live = AllocGuard::live();
    for(std::uint64_t k : where)
    {
        tried t = with_failure(k, go);
        if(!t.fired) { got.reset(); continue; }
        c.count("failed_allocations");
        // the exception arrives, be it noticed in the action or while its message is kept
        bool arrived = t.bad_alloc || (got && got->err == px::err_kind::other_std && got->what == std::bad_alloc().what());
        c.check(arrived, "allocation-failure-hidden", [&] { return cat("action ", what, " allocation ", k, " of ", n, ": ", got ? got->show() : "another exception", " instead of ", base.show()); });
        got.reset();
        c.check(AllocGuard::live() == live, "leak", [&] { return cat("action ", what, " allocation ", k, " of ", n, ": ", AllocGuard::live() - live, " blocks more than before"); });
    }
    auto again = s.act(what, with, seed);
    c.check(again.err == base.err && again.s == base.s && again.what == base.what, "differs-afterwards", [&] { return cat("action ", what, " before: ", base.show(), " after: ", again.show()); });
    c.count("calls_checked");
    c.nontrivial(cat("action", what, with, seed, n));
}

// Packs: an argument is added or it is not
template <typename C>
void packs_impl(Case& c)
{
    // the counters themselves need memory
    c.count("failed_allocations", 0);
    c.count("failed_user_calls", 0);
    c.count("failed_outputs", 0);
    using S = std::basic_string<C>;
    Rng& r = c.rng;
    const auto live0 = counted::live;
    {
        px::dyn_t<C> pack;
        std::deque<S> texts;
        std::deque<std::vector<int>> lists;
        std::deque<counted> bigs;
        std::vector<S> expected, named;
        auto check_all = [&](const char* when)
        {
            c.check(pack.indexed_size() == expected.size() && pack.named_size() == named.size(), "pack-size", [&] { return cat(when, ": ", pack.indexed_size(), "+", pack.named_size(), " arguments, expected ", expected.size(), "+", named.size()); });
            for(std::size_t i = 0; i < expected.size(); ++i)
            {
                auto got = px::vformat<C>(ref::enc<C>(U"{" + ref::ascii(std::to_string(i)) + U"}"), pack);
                c.check(got.ok() && got.s == expected[i], "pack-value", [&] { return cat(when, ": argument ", i, " is ", got.show(), " not ", show(std::basic_string_view<C>(expected[i]))); });
            }
            for(std::size_t i = 0; i < named.size(); ++i)
            {
                auto got = px::vformat<C>(ref::enc<C>(U"{" + wild::names()[i] + U"}"), pack);
                c.check(got.ok() && got.s == named[i], "pack-named-value", [&] { return cat(when, ": argument ", i, " is ", got.show()); });
            }
        };
        for(int i = static_cast<int>(r.range(1, 9)); i > 0; --i)
        {
            int kind = static_cast<int>(r.below(5));
            bool name = named.size() < wild::names().size() && r.chance(1, 3);
            long long v = r.range(-99, 999);
            texts.push_back(ref::enc<C>(U"text " + ref::ascii(std::to_string(v))));
            lists.push_back({static_cast<int>(v), 2});
            S nm = name ? ref::enc<C>(wild::names()[named.size()]) : S();
            texts.push_back(nm);
            const S& key = texts.back();
            S expect;
            bigs.emplace_back(v);
            const counted& big = bigs.back(); // borrowed by the pack
            auto add = [&](auto&& x)
            {
                if(name) pack.emplace(papilio::arg(std::basic_string_view<C>(key), std::forward<decltype(x)>(x)));
                else pack.emplace(std::forward<decltype(x)>(x));
            };
            auto go = [&]
            {
                switch(kind)
                {
                case 0: add(v); break;
                case 1: add(texts[texts.size() - 2]); break;
                case 2: add(lists.back()); break;
                case 3: add(big); break;
                default: add(wild::custom{v}); break; // small: kept in the pack
                }
            };
            switch(kind)
            {
            case 1: expect = texts[texts.size() - 2]; break;
            case 2: expect = ref::enc<C>(U"[" + ref::ascii(std::to_string(v)) + U", 2]"); break;
            default: expect = ref::enc<C>(ref::ascii(std::to_string(v))); break;
            }
            const auto live = AllocGuard::live();
            const auto alive = counted::live;
            bool done = false;
            for(std::uint64_t k = 1; !done; ++k)
            {
                tried t = with_failure(k, go);
                if(!t.fired && !t.bad_alloc && !t.other) { done = true; break; }
                c.count("failed_allocations");
                c.check(t.bad_alloc, "allocation-failure-hidden", [&] { return cat("emplace of kind ", kind, name ? " named" : "", ", allocation ", k); });
                if(!t.bad_alloc) { done = true; break; }
                c.check(counted::live == alive, "value-leaked", [&] { return cat("emplace of kind ", kind, ", allocation ", k); });
                check_all("after a failure");
                if(k > 30) { c.fail("never-succeeds", cat("kind ", kind)); return; }
            }
            (void)live;
            (name ? named : expected).push_back(expect);
            check_all("after adding");
        }
        // moving and copying
        {
            auto n = pack.indexed_size();
            px::dyn_t<C> other(std::move(pack));
            c.check(other.indexed_size() == n && other.named_size() == named.size(), "moved-size", "");
            for(std::size_t i = 0; i < expected.size(); ++i)
            {
                auto got = px::vformat<C>(ref::enc<C>(U"{" + ref::ascii(std::to_string(i)) + U"}"), other);
                c.check(got.ok() && got.s == expected[i], "moved-value", [&] { return got.show(); });
            }
            pack.clear();
            if(!expected.empty()) {}
            expected.clear();
            named.clear();
            check_all("after moving");
        }
        c.count("packs_checked");
        c.nontrivial(cat("pack", c.index, expected.size(), named.size()));
        pack.clear();
        expected.clear();
        named.clear();
        check_all("after clear");
    }
    c.check(counted::live == live0, "objects-left", [&] { return cat(counted::live - live0, " objects"); });
    // static packs
    const auto live = AllocGuard::live();
    for(std::uint64_t k = 1; k < 40; ++k)
    {
        S got;
        S f = ref::enc<C>(U"{} {} {a} {0}");
        const S name = ref::enc<C>(U"a");
        counted mine(5), named(6);
        tried t = with_failure(k, [&] { got = papilio::format(std::basic_string_view<C>(f), std::move(mine), counted(7), papilio::arg(std::basic_string_view<C>(name), counted(8))); });
        if(!t.fired)
        {
            c.check(got == ref::enc<C>(U"5 7 8 5"), "static-pack-text", [&] { return show(std::basic_string_view<C>(got)); });
            break;
        }
        c.count("failed_allocations");
        c.check(t.bad_alloc, "allocation-failure-hidden", "static pack");
    }
    c.check(AllocGuard::live() == live && counted::live == live0, "static-pack-leak", [&] { return cat(AllocGuard::live() - live, " blocks, ", counted::live - live0, " objects"); });
    // single arguments
    using arg = papilio::basic_format_arg<px::ctx_t<C>>;
    {
        const auto l1 = AllocGuard::live();
        for(std::uint64_t k = 1; k < 20; ++k)
        {
            bool completed = false;
            tried t = with_failure(k, [&]
            {
                arg a(papilio::independent, counted(3));
                S str = ref::enc<C>(U"a string that does not fit in place at all");
                arg b(papilio::independent, str);
                arg d(std::move(a));
                b = std::move(d);
                arg e(b);
                completed = true;
            });
            if(!t.fired) { c.check(completed, "argument-not-made", ""); break; }
            c.count("failed_allocations");
            c.check(t.bad_alloc, "allocation-failure-hidden", "argument");
        }
        c.check(AllocGuard::live() == l1 && counted::live == live0, "argument-leak", [&] { return cat(AllocGuard::live() - l1, " blocks, ", counted::live - live0, " objects"); });
    }
}

// Exceptions from code of the user
template <typename C>
void user_impl(Case& c)
{
    // the counters themselves need memory
    c.count("failed_allocations", 0);
    c.count("failed_user_calls", 0);
    c.count("failed_outputs", 0);
    using S = std::basic_string<C>;
    Rng& r = c.rng;
    static const std::vector<U32> forms{U"{}", U"a{:x}b", U"{[1]:>60}", U"{.x}{.y[3]}", U"{$ {0[2]} == 'a' ? {0} : {0.b}}", U"{a} {0:zz} {a[5]}", U"{1:n} {0}", U"{$ {a} ? 'x'}", U"{[0]:{2}} {}", U"{1[0]:q}{}é", U"{.x.y.z}", U"{$ !{1[0]} ? {0} : $ {0[1]} ? {1} : 'none'}"};
    U32 f32;
    for(std::size_t i = r.below(3) + 1; i > 0; --i)
    {
        f32 += r.pick(forms);
        // through a stream of the standard library, which keeps exceptions for itself unless told otherwise
        if((std::is_same_v<C, char> || std::is_same_v<C, wchar_t>) && r.chance(1, 3)) f32 += r.coin() ? U"{3}" : U"{3:>70}";
        for(char32_t x : px::any_text(r, 3))
            if(x != U'{' && x != U'}') f32 += x;
    }
    S f = ref::enc<C>(f32);
    fragile one{r.range(1, 400)}, two{r.range(401, 800)};
    std::vector<fragile> list{fragile{11}, fragile{22}, fragile{33}};
    const S name = ref::enc<C>(U"a");
    const c19::streamed slow{123456};
    c.desc(cat("format ", show(f32)));
    const auto named = papilio::arg(std::basic_string_view<C>(name), two);
    auto normal = [&] { return px::capture<C>([&] { return papilio::format(std::basic_string_view<C>(f), one, list, 40, slow, named); }); };
    fragile::arm = -1;
    const auto base = normal();
    const auto live = AllocGuard::live();
    // every call of user code
    for(long long k = 0; k < 200; ++k)
    {
        bool reached = false, intact = true;
        long long id = 0;
        fragile::arm = k;
        try
        {
            S got = papilio::format(std::basic_string_view<C>(f), one, list, 40, slow, named);
            intact = base.ok() && got == base.s;
        }
        catch(const boom& b) { reached = true; id = b.id; }
        catch(const papilio::format_error&) { intact = base.err == px::err_kind::format_error; }
        catch(const std::exception&) { intact = base.err == px::err_kind::other_std; }
        bool armed = fragile::arm >= 0;
        fragile::arm = -1;
        c.check(AllocGuard::live() == live, "leak", [&] { return cat("user code call ", k, ": ", AllocGuard::live() - live, " blocks"); });
        if(armed)
        {
            c.check(!reached && intact, "other-result-without-failure", [&] { return base.show(); });
            break;
        }
        c.count("failed_user_calls");
        c.check(reached, "user-exception-hidden", [&] { return cat("user code call ", k, " ", intact ? "no exception" : "another exception"); });
        auto known = [&](long long x) { return x == 1000 || (x >= one.id && x <= one.id + 3) || (x >= two.id && x <= two.id + 3) || x % 11 < 4 || x % 10 < 4; };
        c.check(!reached || known(id), "another-exception-object", [&] { return cat("id ", id); });
    }
    // every unit of output
    if(base.ok())
    {
        using ctx = papilio::basic_format_context<brittle_out<C>, C>;
        S got;
        got.reserve(base.s.size() + 1);
        for(std::size_t k : points(r, base.s.size(), 30))
        {
            --k;
            got.clear();
            const auto l = AllocGuard::live();
            bool reached = false;
            try { papilio::format_to(brittle_out<C>{&got, k}, std::basic_string_view<C>(f), one, list, 40, slow, named); }
            catch(const boom& b) { reached = b.id == static_cast<long long>(k) + 5000; }
            catch(...) {}
            c.count("failed_outputs");
            c.check(reached, "output-exception-hidden", [&] { return cat("output unit ", k); });
            c.check(got == base.s.substr(0, k), "output-differs", [&] { return cat(show(std::basic_string_view<C>(got)), " not the first ", k, " of ", base.show()); });
            c.check(AllocGuard::live() == l, "leak", [&] { return cat("output unit ", k); });
        }
        (void)sizeof(ctx);
    }
    const auto again = normal();
    c.check(again.err == base.err && again.s == base.s, "differs-afterwards", [&] { return cat("before: ", base.show(), " after: ", again.show()); });
    c.count("calls_checked");
    c.nontrivial(cat("user", show(f32), one.id, two.id));
}

template <typename C>
void strings_impl(Case& c)
{
    // the counters themselves need memory
    c.count("failed_allocations", 0);
    c.count("failed_user_calls", 0);
    c.count("failed_outputs", 0);
    using S = std::basic_string<C>;
    using SC = papilio::utf::basic_string_container<C>;
    Rng& r = c.rng;
    const auto live0 = AllocGuard::live();
    {
        const S source = ref::enc<C>(U"borrowed text that is long enough to need memory when owned " + px::any_text(r, 8));
        const S other = ref::enc<C>(px::any_text(r, 40));
        SC s;
        switch(r.below(4))
        {
        case 0: s = SC(std::basic_string_view<C>(source)); break;
        case 1: s = SC(papilio::independent, source); break;
        case 2: s = SC(std::basic_string_view<C>(other)); break;
        default: break;
        }
        for(int i = static_cast<int>(r.range(1, 6)); i > 0; --i)
        {
            const int op = static_cast<int>(r.below(16));
            const S before{std::basic_string_view<C>(s)};
            c.desc(cat("string ", show(std::basic_string_view<C>(before)), " operation ", op));
            std::size_t len = s.length();
            std::size_t a = r.below(len + 1), n = r.below(5);
            bool no_fail = false;
            auto go = [&]
            {
                switch(op)
                {
                case 0: s.push_back(papilio::utf::codepoint(U'文')); break;
                case 1: s.assign(papilio::independent, std::basic_string_view<C>(other)); break;
                case 2: s.assign(60, papilio::utf::codepoint(U'é')); break;
                case 3: s.assign(50, static_cast<C>('x')); break;
                case 4: s.obtain_ownership(); break;
                case 5: { SC t(papilio::independent, s); s = std::move(t); break; }
                case 6: { SC t(papilio::independent, source); s = t; break; }
                case 7: s.assign(source); break;
                case 8: { auto t = s.substr(a); no_fail = t.length() <= len; break; }
                case 9: { auto t = s.substr(papilio::index_range(0, static_cast<papilio::ssize_t>(a))); no_fail = t.length() <= n; t.push_back(papilio::utf::codepoint(U'q')); break; }
                case 10: { SC t(s); S u = std::move(t).str(); break; }
                case 11: if(len) { auto it = s.begin(); *it = papilio::utf::codepoint(U'🦋'); } break;
                case 12: { SC t(40, papilio::utf::codepoint(U'ü')); SC u(60, static_cast<C>('y')); break; }
                case 13: { SC t(papilio::independent, source.c_str()); SC u(papilio::independent, source.c_str(), source.size()); s = std::move(u); break; }
                case 14: (void)s.c_str(); break;
                default: { std::basic_string<C> moved = source; s = SC(std::move(moved)); break; }
                }
            };
            for(std::uint64_t k = 1; k < 40; ++k)
            {
                tried t = with_failure(k, go);
                if(!t.fired) break;
                c.count("failed_allocations");
                c.check(t.bad_alloc, "allocation-failure-hidden", [&] { return cat("operation ", op, " allocation ", k); });
                if(!t.bad_alloc) break;
                bool same = false;
                try { same = std::basic_string_view<C>(s) == std::basic_string_view<C>(before); }
                catch(const std::exception&) {}
                // what is assigned in steps may be left half way
                const bool partial = op == 2 || op == 3;
                if(partial) same = papilio::utf::basic_string_ref<C>(s).length() <= std::max<std::size_t>(60, len);
                c.check(same, "value-lost", [&] { return cat("operation ", op, " allocation ", k); });
                if(!same || partial) s = SC();
            }
            (void)no_fail;
        }
    }
    c.check(AllocGuard::live() == live0, "leak", [&] { return cat(AllocGuard::live() - live0, " blocks"); });
    c.nontrivial(cat("string", c.index));
    c.count("strings_checked");
}
} // namespace c20
