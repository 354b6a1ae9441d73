#pragma once
// C15: format arguments and argument packs under histories of copies, moves, assignments, swaps and accesses
#include <deque>
#include <map>
#include <optional>
#include "fmt.hpp"
#include "track.hpp"
#include <papilio/formatter/tuple.hpp>
#include <papilio/accessor/tuple.hpp>
#include <papilio/accessor/ranges.hpp>
using namespace vh;
#define CK(cond, key, ...) c.check((cond), key, [&] { return cat(__VA_ARGS__); })

namespace c15
{
using track::reg;
// kept inside the argument
struct small
{
    long long id;
    explicit small(long long i) : id(i) { reg.born(this); }
    small(const small& o) noexcept : id(o.id) { reg.uses(&o); reg.born(this); }
    small& operator=(const small&) = delete;
    ~small() { reg.dies(this); id = -1; }
    static constexpr char letter = 'S';
};
// too big to be kept inside the argument
struct big
{
    long long id;
    unsigned char more[56];
    explicit big(long long i) : id(i) { reg.born(this); std::memset(more, 7, sizeof more); }
    big(const big& o) noexcept : id(o.id) { reg.uses(&o); reg.born(this); }
    ~big() { reg.dies(this); id = -2; }
    static constexpr char letter = 'B';
};
// small, but copying may throw
struct thrower
{
    long long id;
    explicit thrower(long long i) : id(i) { reg.born(this); }
    thrower(const thrower& o) : id(o.id) { reg.uses(&o); reg.tick(); reg.born(this); }
    ~thrower() { reg.dies(this); id = -3; }
    static constexpr char letter = 'T';
};
// strictly aligned
struct alignas(64) aligned
{
    long long id;
    explicit aligned(long long i) : id(i) { reg.born(this); }
    aligned(const aligned& o) noexcept : id(o.id) { reg.uses(&o); reg.born(this); if(reinterpret_cast<std::uintptr_t>(this) % 64) reg.bad("misaligned object"); }
    ~aligned() { reg.dies(this); id = -4; }
    static constexpr char letter = 'A';
};
template <typename T>
concept ours = std::same_as<T, small> || std::same_as<T, big> || std::same_as<T, thrower> || std::same_as<T, aligned>;
template <ours T, typename It, typename C>
It format(const T& v, papilio::basic_format_context<It, C>& ctx)
{
    using traits = papilio::format_context_traits<papilio::basic_format_context<It, C>>;
    reg.uses(&v);
    std::basic_string<C> s(1, static_cast<C>(T::letter));
    for(char ch : std::to_string(v.id)) s += static_cast<C>(ch);
    traits::append(ctx, std::basic_string_view<C>(s));
    return ctx.out();
}

template <typename C>
struct machine
{
    using ctx = px::ctx_t<C>;
    using arg = papilio::basic_format_arg<ctx>;
    using S = std::basic_string<C>;
    using SV = std::basic_string_view<C>;
    using IV = papilio::basic_indexing_value<C>;
    using AN = papilio::basic_attribute_name<C>;
    using base = papilio::format_args_base<ctx, C>;
    using tup = std::tuple<small, big, int>;
    using tup1 = std::tuple<small>;
    using vec = std::vector<long long>;

    enum kind { k_empty, k_int, k_uint, k_bool, k_dbl, k_flt, k_ld, k_str, k_ptr, k_cp, k_small, k_big, k_thr, k_ali, k_vec, k_tup, k_tup1, n_kinds };
    struct val
    {
        kind k = k_empty;
        long long n = 0;
        ref::U32 s;
        vec v;
    };
    // what a slot depends on
    struct dep { int slot; std::uint64_t version; }; // slot >= 0; object: slot = -1, version = object id
    struct slot
    {
        std::optional<arg> a;
        val v;
        std::vector<dep> deps;
        std::uint64_t version = 1;
        std::uint64_t owns = 0; // object on the heap
    };
    static constexpr int N = 5;
    Case& c;
    Rng& r;
    slot s[N];
    std::map<std::uint64_t, int> objects; // living heap objects -> tracked things inside
    std::uint64_t next_obj = 1;
    long long next = 1;
    std::string log;
    // outside objects that live as long as the machine
    std::deque<small> smalls;
    std::deque<big> bigs;
    std::deque<thrower> thrs;
    std::deque<aligned> alis;
    std::deque<vec> vecs;
    std::deque<tup> tups;
    std::deque<tup1> tup1s;
    std::deque<S> strs;
    std::size_t outside = 0;

    // an argument pack that shows the slots themselves
    struct view final : base
    {
        const machine& m;
        explicit view(const machine& mm) : m(mm) {}
        const arg& get(std::size_t i) const override { return *m.s[i].a; }
        const arg& get(SV) const override { throw std::out_of_range("name"); }
        bool contains(SV) const noexcept override { return false; }
        std::size_t indexed_size() const noexcept override { return N; }
        std::size_t named_size() const noexcept override { return 0; }
    };

    machine(Case& cc) : c(cc), r(cc.rng) { for(auto& x : s) x.a.emplace(); }
    void say(std::string t) { log += " " + t; c.more(" " + t); }

    bool valid(const slot& x) const
    {
        for(auto& d : x.deps)
        {
            if(d.slot >= 0) { if(s[d.slot].version != d.version) return false; }
            else if(!objects.count(d.version)) return false;
        }
        return true;
    }
    static ref::U32 U(const std::string& t) { return ref::ascii(t); }
    ref::U32 text(const val& v) const
    {
        auto n = std::to_string(v.n);
        switch(v.k)
        {
        case k_empty: return U"";
        case k_int: case k_uint: return U(n);
        case k_bool: return v.n ? U"true" : U"false";
        case k_dbl: case k_flt: case k_ld: return U(n + ".5");
        case k_str: return v.s;
        case k_ptr: { char b[40]; std::snprintf(b, sizeof b, "0x%llx", v.n); return U(b); }
        case k_cp: return v.s;
        case k_small: return U("S" + n);
        case k_big: return U("B" + n);
        case k_thr: return U("T" + n);
        case k_ali: return U("A" + n);
        case k_vec:
        {
            std::string t = "[";
            for(std::size_t i = 0; i < v.v.size(); ++i) t += (i ? ", " : "") + std::to_string(v.v[i]);
            return U(t + "]");
        }
        case k_tup: return U("(S" + n + ", B" + n + ", " + n + ")");
        default: return U("(S" + n + ")");
        }
    }
    static int tracked(kind k) { return k == k_small || k == k_big || k == k_thr || k == k_ali || k == k_tup1 ? 1 : k == k_tup ? 2 : 0; }
    static bool soo(kind k) { return k == k_small || k == k_tup1; }

    // the slot's argument was changed
    void touch(int i)
    {
        if(s[i].owns) objects.erase(s[i].owns);
        s[i].owns = 0;
        s[i].deps.clear();
        ++s[i].version;
        s[i].v = val();
    }
    void put(int i, arg&& a)
    {
        switch(r.below(3))
        {
        case 0: *s[i].a = std::move(a); break;
        case 1: { s[i].a.reset(); s[i].a.emplace(std::move(a)); break; }
        default: { arg t(std::move(a)); s[i].a->swap(t); break; }
        }
    }
    ref::U32 some_text() { return px::any_text(r, r.coin() ? 4 : 40); }

    void make(int i)
    {
        kind k = static_cast<kind>(r.below(n_kinds));
        val v;
        v.k = k;
        v.n = next++;
        bool indep = r.coin();
        say(cat("make ", i, " kind ", static_cast<int>(k), indep ? " own" : ""));
        std::uint64_t own = 0;
        std::optional<arg> a;
        auto custom = [&]<typename T>(std::deque<T>& d, auto&& mk)
        {
            bool armed = false;
            mk(d);
            outside += static_cast<std::size_t>(tracked(k));
            if(!indep) a.emplace(d.back());
            else if(r.coin() && !soo(k))
            {
                if(k == k_thr && r.chance(1, 3)) { reg.arm = 0; armed = true; }
                try
                {
                    if(r.coin()) a.emplace(papilio::independent, std::as_const(d.back()));
                    else a.emplace(std::in_place_type<typename arg::handle>, papilio::independent, std::as_const(d.back()));
                }
                catch(const track::fault&) { CK(armed, "unexpected exception", log); a.reset(); c.count("copies_failed"); }
                reg.arm = -1;
            }
            else { T x(d.back()); if(r.coin()) a.emplace(papilio::independent, std::move(x)); else a.emplace(papilio::independent, x); }
            if(a && !soo(k) && indep) { own = next_obj++; }
        };
        switch(k)
        {
        case k_empty: a.emplace(); break;
        case k_int:
            switch(r.below(4))
            {
            case 0: a.emplace(static_cast<int>(v.n)); break;
            case 1: a.emplace(v.n); break;
            case 2: a.emplace(static_cast<short>(v.n)); break;
            default: a.emplace(static_cast<long>(v.n)); break;
            }
            break;
        case k_uint: r.coin() ? a.emplace(static_cast<unsigned>(v.n)) : a.emplace(static_cast<unsigned long long>(v.n)); break;
        case k_bool: v.n %= 2; a.emplace(v.n != 0); break;
        case k_dbl: a.emplace(static_cast<double>(v.n) + 0.5); break;
        case k_flt: a.emplace(static_cast<float>(v.n) + 0.5f); break;
        case k_ld: a.emplace(static_cast<long double>(v.n) + 0.5L); break;
        case k_str:
            v.s = some_text();
            strs.push_back(ref::enc<C>(v.s));
            if(indep)
            {
                if(r.coin()) a.emplace(papilio::independent, SV(strs.back()));
                else a.emplace(papilio::utf::basic_string_container<C>(papilio::independent, SV(strs.back())));
                if(r.chance(1, 2)) strs.back().assign(strs.back().size(), static_cast<C>('!')); // the argument has its own text
            }
            else if(r.coin()) a.emplace(SV(strs.back()));
            else a.emplace(strs.back());
            break;
        case k_ptr:
            if(r.chance(1, 6)) { v.n = 0; r.coin() ? a.emplace(nullptr) : a.emplace(static_cast<const void*>(nullptr)); }
            else r.coin() ? a.emplace(reinterpret_cast<const void*>(static_cast<std::uintptr_t>(v.n))) : a.emplace(reinterpret_cast<int*>(static_cast<std::uintptr_t>(v.n)));
            break;
        case k_cp: v.s = ref::U32(1, px::any_cp(r)); a.emplace(papilio::utf::codepoint(v.s[0])); break;
        case k_small: custom(smalls, [&](auto& d) { d.emplace_back(v.n); }); break;
        case k_big: custom(bigs, [&](auto& d) { d.emplace_back(v.n); }); break;
        case k_thr: custom(thrs, [&](auto& d) { d.emplace_back(v.n); }); break;
        case k_ali: custom(alis, [&](auto& d) { d.emplace_back(v.n); }); break;
        case k_vec:
            for(std::size_t q = 0, m = r.below(5); q < m; ++q) v.v.push_back(r.range(-9, 99));
            custom(vecs, [&](auto& d) { d.push_back(v.v); });
            break;
        case k_tup: custom(tups, [&](auto& d) { d.emplace_back(small(v.n), big(v.n), static_cast<int>(v.n)); }); break;
        default: custom(tup1s, [&](auto& d) { d.emplace_back(small(v.n)); }); break;
        }
        if(!a) return; // the copy failed, the slot keeps its value
        put(i, std::move(*a));
        touch(i);
        s[i].v = v;
        s[i].owns = own;
        if(own) objects[own] = tracked(k);
        c.count("made");
    }
    std::vector<dep> borrowed(int j, bool whole)
    {
        // what a borrower of slot j depends on
        std::vector<dep> d = s[j].deps;
        if(s[j].owns) d.push_back({-1, s[j].owns});
        else if(!whole && (s[j].v.k == k_str || soo(s[j].v.k))) d.push_back({j, s[j].version});
        else if(whole && s[j].v.k == k_str) d.push_back({j, s[j].version});
        return d;
    }
    void copy(int i, int j)
    {
        slot &x = s[i], &y = s[j];
        if(i == j) { say("self copy"); arg& q = *x.a; q = *&*y.a; return; }
        if(!valid(y)) return;
        auto d = borrowed(j, true);
        // do not destroy what is about to be copied
        if(x.owns) for(auto& e : d) if(e.slot < 0 && e.version == x.owns) return;
        for(auto& e : d) if(e.slot == i) return;
        say(cat("copy ", j, " to ", i));
        val v = y.v;
        switch(r.below(3))
        {
        case 0: *x.a = std::as_const(*y.a); break;
        case 1: x.a.reset(); x.a.emplace(std::as_const(*y.a)); break;
        default: { arg t(*y.a); x.a->swap(t); break; }
        }
        touch(i);
        x.v = v;
        x.deps = d;
        c.count("copied");
    }
    void move(int i, int j)
    {
        slot &x = s[i], &y = s[j];
        if(!valid(y)) return;
        if(i == j) { say("self move"); arg& q = *x.a; q = std::move(*&*y.a); selfish(i); return; }
        if(x.owns) for(auto& e : y.deps) if(e.slot < 0 && e.version == x.owns) return;
        for(auto& e : y.deps) if(e.slot == i) return;
        say(cat("move ", j, " to ", i));
        put(i, std::move(*y.a));
        val v = y.v;
        auto d = y.deps;
        auto o = y.owns;
        y.owns = 0;
        touch(j);
        touch(i);
        x.v = v;
        x.deps = d;
        x.owns = o;
        CK(y.a->empty(), "an argument that was moved from is not empty", log);
        c.count("moved");
    }
    void selfish(int i) { ++s[i].version; }
    void swap(int i, int j)
    {
        if(i == j) { say("self swap"); s[i].a->swap(*s[j].a); selfish(i); return; }
        if(!valid(s[i]) || !valid(s[j])) return;
        for(auto& e : s[i].deps) if(e.slot == j) return;
        for(auto& e : s[j].deps) if(e.slot == i) return;
        say(cat("swap ", i, " ", j));
        if(r.coin()) s[i].a->swap(*s[j].a);
        else { using std::swap; swap(*s[i].a, *s[j].a); }
        std::swap(s[i].v, s[j].v);
        std::swap(s[i].deps, s[j].deps);
        std::swap(s[i].owns, s[j].owns);
        selfish(i);
        selfish(j);
        c.count("swapped");
    }
    void access(int i, int j)
    {
        slot &x = s[i], &y = s[j];
        if(i == j || !valid(y)) return;
        auto d = borrowed(j, false);
        if(x.owns) for(auto& e : d) if(e.slot < 0 && e.version == x.owns) return;
        for(auto& e : d) if(e.slot == i) return;
        val v;
        std::optional<arg> a;
        try
        {
            switch(y.v.k)
            {
            case k_vec:
            {
                if(r.chance(1, 3)) { v.k = k_uint; v.n = static_cast<long long>(y.v.v.size()); say(cat("size of ", j, " to ", i)); a.emplace(y.a->attribute(AN(ref::enc<C>(U"size")))); break; }
                long long q = r.range(-5, 5), n = static_cast<long long>(y.v.v.size());
                say(cat("element ", q, " of ", j, " to ", i));
                long long w = q < 0 ? n + q : q;
                if(w >= 0 && w < n) { v.k = k_int; v.n = y.v.v[static_cast<std::size_t>(w)]; }
                a.emplace(y.a->index(IV(static_cast<papilio::ssize_t>(q))));
                break;
            }
            case k_tup:
            case k_tup1:
            {
                long long n = y.v.k == k_tup ? 3 : 1, q = r.range(-n - 1, n);
                say(cat("member ", q, " of ", j, " to ", i));
                long long w = q < 0 ? n + q : q;
                v.n = y.v.n;
                if(w >= 0 && w < n) v.k = w == 0 ? k_small : w == 1 ? k_big : k_int;
                a.emplace(y.a->index(IV(static_cast<papilio::ssize_t>(q))));
                break;
            }
            case k_str:
            {
                long long n = static_cast<long long>(y.v.s.size());
                if(r.coin())
                {
                    long long b = r.range(0, n), e = r.range(b, n);
                    say(cat("part ", b, ":", e, " of ", j, " to ", i));
                    v.k = k_str;
                    v.s = y.v.s.substr(static_cast<std::size_t>(b), static_cast<std::size_t>(e - b));
                    a.emplace(y.a->index(IV(papilio::index_range(b, e))));
                }
                else if(n)
                {
                    long long q = r.range(0, n - 1);
                    say(cat("character ", q, " of ", j, " to ", i));
                    v.k = k_cp;
                    v.s = y.v.s.substr(static_cast<std::size_t>(q), 1);
                    a.emplace(y.a->index(IV(static_cast<papilio::ssize_t>(q))));
                    if(r.coin()) { if(a->empty()) break; }
                }
                break;
            }
            default: break;
            }
        }
        catch(const papilio::invalid_attribute&) { a.reset(); }
        catch(const std::out_of_range&) { a.reset(); }
        if(!a) return;
        if(v.k == k_big || v.k == k_str) {} // borrowed
        else d.clear();
        if(v.k == k_empty) v.n = 0;
        put(i, std::move(*a));
        touch(i);
        x.v = v;
        x.deps = d;
        c.count("accessed");
    }
    void verify()
    {
        std::size_t live = outside;
        for(auto& [o, n] : objects) { (void)o; live += static_cast<std::size_t>(n); }
        for(auto& x : s) if(soo(x.v.k)) ++live;
        CK(reg.live.size() == live, "objects alive", reg.live.size(), " want ", live, " after", log);
        if(reg.live.size() != live) return;
        S f;
        ref::U32 want;
        for(int i = 0; i < N; ++i)
        {
            const arg& a = *s[i].a;
            const val& v = s[i].v;
            CK(a.empty() == (v.k == k_empty) && static_cast<bool>(a) == !a.empty(), "empty", "slot ", i, " after", log);
            bool heap = v.k == k_big || v.k == k_thr || v.k == k_ali || v.k == k_vec || v.k == k_tup;
            if(heap) CK(a.has_ownership() == (s[i].owns != 0), "ownership", "slot ", i, " ", a.has_ownership(), " after", log);
            else if(v.k != k_str && v.k != k_empty) CK(a.has_ownership(), "ownership of a value", "slot ", i, " after", log);
            if(!valid(s[i])) { c.count("dangling_left_alone"); continue; }
            if(v.k == k_empty) continue;
            typed(a, v, i);
            f += ref::enc<C>(U"{" + U(std::to_string(i)) + U"}");
            if(v.k == k_dbl || v.k == k_flt || v.k == k_ld) { f.pop_back(); f += ref::enc<C>(U":.1f}"); }
            f += static_cast<C>('|');
            want += text(v) + U"|";
        }
        view vw(*this);
        auto got = px::vformat<C>(SV(f), px::args_ref_t<C>(vw));
        CK(got.ok() && got.s == ref::enc<C>(want), "text", got.show(), " want ", show(want), " after", log);
        c.count("renderings");
    }
    void typed(const arg& a, const val& v, int i)
    {
        auto bad = [&](const char* w) { c.check(false, "typed access", cat(w, " slot ", i, " after", log)); };
        try
        {
            switch(v.k)
            {
            case k_small: if(get<small>(a).id != v.n) bad("small"); break;
            case k_big: if(get<big>(a).id != v.n || !a.template holds<typename arg::handle>()) bad("big"); break;
            case k_thr: if(get<thrower>(a).id != v.n) bad("thrower"); break;
            case k_ali: if(get<aligned>(a).id != v.n) bad("aligned"); break;
            case k_vec: if(get<vec>(a) != v.v) bad("vector"); break;
            case k_bool: if(std::get<bool>(a.to_variant()) != (v.n != 0)) bad("bool"); break;
            case k_dbl: if(get<double>(a) != static_cast<double>(v.n) + 0.5) bad("double"); break;
            case k_str: if(!std::ranges::equal(SV(get<S>(a)), ref::enc<C>(v.s))) bad("string"); break;
            case k_cp: if(get<papilio::utf::codepoint>(a) != v.s[0]) bad("code point"); break;
            default: break;
            }
            c.eval();
        }
        catch(const std::exception& e) { bad(e.what()); }
        if(v.k == k_small || v.k == k_big)
        {
            bool th = false;
            try { (void)get<vec>(a); } catch(const papilio::bad_handle_cast&) { th = true; } catch(const std::exception&) {}
            CK(th, "access as another type is not refused", log);
        }
    }
    void run()
    {
        int n = 3 + static_cast<int>(r.below(25));
        for(int k = 0; k < n && !c.failed; ++k)
        {
            int i = static_cast<int>(r.below(N)), j = static_cast<int>(r.below(N));
            switch(r.below(8))
            {
            case 0: case 1: case 2: make(i); break;
            case 3: copy(i, j); break;
            case 4: move(i, j); break;
            case 5: swap(i, j); break;
            default: access(i, j); break;
            }
            verify();
            c.count("argument_steps");
        }
        for(auto& x : s) x.a.reset();
        CK(reg.live.size() == outside, "objects left behind", reg.live.size(), " want ", outside, " after", log);
        c.nontrivial(log);
        if(c.index % 499 == 0) c.sample(cat(c.stream, ": ", log));
    }
};

template <typename C>
void histories(Case& c)
{
    c.desc("arguments");
    reg.reset(&c);
    {
        machine<C> m(c);
        m.run();
    }
    CK(reg.live.empty(), "objects left behind at the end", reg.live.size());
}

// packs of arguments
template <typename C>
void packs(Case& c)
{
    using M = machine<C>;
    using arg = typename M::arg;
    using S = std::basic_string<C>;
    using SV = std::basic_string_view<C>;
    auto& r = c.rng;
    c.desc("packs");
    reg.reset(&c);
    std::string log;
    {
        struct entry { ref::U32 text; int inside; };
        struct pk { std::unique_ptr<px::dyn_t<C>> p; std::vector<entry> pos; std::map<std::string, entry> named; };
        std::vector<pk> v;
        std::deque<S> strs;
        std::deque<small> smalls;
        std::deque<big> bigs;
        long long next = 1;
        std::size_t outside = 0;
        auto fresh = [&] { v.push_back({std::make_unique<px::dyn_t<C>>(), {}, {}}); };
        fresh();
        int n = 4 + static_cast<int>(r.below(40));
        for(int k = 0; k < n && !c.failed; ++k)
        {
            std::size_t i = r.below(v.size());
            auto& p = v[i];
            auto op = r.below(14);
            log += cat(" ", op);
            c.more(cat(" ", op));
            switch(op)
            {
            default: // another argument
            {
                std::string name = "n" + std::to_string(next);
                bool named = r.chance(1, 3);
                long long id = next++;
                entry e{ref::ascii(std::to_string(id)), 0};
                auto nm = [&]() -> SV { strs.push_back(ref::enc<C>(ref::ascii(name))); return SV(strs.back()); };
                auto add = [&](auto&& x)
                {
                    if(!named) { if(r.coin()) p.p->emplace(std::forward<decltype(x)>(x)); else p.p->append(std::forward<decltype(x)>(x)); }
                    else
                    {
                        SV key = nm();
                        p.p->emplace(papilio::arg(key, std::forward<decltype(x)>(x)));
                    }
                };
                switch(r.below(8))
                {
                case 0: add(id); break;
                case 1: { bigs.emplace_back(id); ++outside; e.text = ref::ascii("B" + std::to_string(id)); add(bigs.back()); break; }
                case 2: { smalls.emplace_back(id); ++outside; e = {ref::ascii("S" + std::to_string(id)), 1}; add(smalls.back()); break; }
                case 3: e = {ref::ascii("B" + std::to_string(id)), 1}; add(arg(papilio::independent, big(id))); break;
                case 4: e = {ref::ascii("S" + std::to_string(id)), 1}; add(arg(papilio::independent, small(id))); break;
                case 5: e = {ref::ascii("T" + std::to_string(id)), 1}; add(arg(papilio::independent, thrower(id))); break;
                case 6:
                {
                    e.text = px::any_text(r, r.coin() ? 4 : 40);
                    S t = ref::enc<C>(e.text);
                    if(r.coin()) add(papilio::utf::basic_string_container<C>(papilio::independent, SV(t)));
                    else { strs.push_back(t); add(SV(strs.back())); }
                    break;
                }
                default: e.text = px::any_text(r, 20); strs.push_back(ref::enc<C>(e.text)); add(SV(strs.back())); break;
                }
                if(named) p.named[name] = e;
                else p.pos.push_back(e);
                break;
            }
            case 0:
                if(v.size() < 4) fresh();
                break;
            case 1: p.p->clear(); p.pos.clear(); p.named.clear(); break;
            case 2: // move the pack
            {
                auto q = std::make_unique<px::dyn_t<C>>(std::move(*p.p));
                p.p = std::move(q);
                break;
            }
            case 3:
                if(v.size() > 1) v.erase(v.begin() + static_cast<long>(i));
                break;
            case 4: // move, and go on with the pack that was moved from
            {
                if(v.size() >= 4) break;
                auto q = std::make_unique<px::dyn_t<C>>(std::move(*p.p));
                auto pos = p.pos;
                auto nam = p.named;
                p.p->clear();
                p.pos.clear();
                p.named.clear();
                v.push_back({std::move(q), pos, nam});
                break;
            }
            }
            std::size_t live = outside;
            for(auto& q : v)
            {
                for(auto& e : q.pos) live += static_cast<std::size_t>(e.inside);
                for(auto& [a, e] : q.named) { (void)a; live += static_cast<std::size_t>(e.inside); }
            }
            CK(reg.live.size() == live, "objects alive", reg.live.size(), " want ", live, " after", log);
            for(auto& q : v)
            {
                S f;
                ref::U32 want;
                CK(q.p->indexed_size() == q.pos.size() && q.p->named_size() == q.named.size(), "sizes of a pack", q.p->indexed_size(), " ", q.p->named_size(), " after", log);
                for(std::size_t a = 0; a < q.pos.size(); ++a) { f += ref::enc<C>(ref::ascii("{" + std::to_string(a) + "}|")); want += q.pos[a].text + U"|"; }
                for(auto& [a, e] : q.named)
                {
                    f += ref::enc<C>(ref::ascii("{" + a + "}|"));
                    want += e.text + U"|";
                    CK(q.p->contains(SV(ref::enc<C>(ref::ascii(a)))), "contains", a);
                }
                px::args_ref_t<C> one(*q.p);
                px::args_ref_t<C> two(one);
                auto got = px::vformat<C>(SV(f), r.coin() ? one : two);
                CK(got.ok() && got.s == ref::enc<C>(want), "text", got.show(), " want ", show(want), " after", log);
                if(q.pos.size() > 6) c.count("packs_on_the_heap");
                bool th = false;
                try { (void)one.get(q.pos.size() + r.below(3)); } catch(const std::out_of_range&) { th = true; }
                CK(th && !one.contains(q.pos.size()), "an index out of range is not refused", log);
                th = false;
                try { (void)q.p->get(SV(ref::enc<C>(U"missing"))); } catch(const std::out_of_range&) { th = true; }
                CK(th && !one.contains(SV(ref::enc<C>(U"missing"))), "an unknown name is not refused", log);
                if(!q.pos.empty()) CK(&one[papilio::basic_indexing_value<C>(0)] == &q.p->get(std::size_t(0)), "indexing", "");
            }
            c.count("pack_steps");
        }
        // static packs
        {
            long long id = next;
            big b(id);
            small sm(id + 1);
            std::size_t before = reg.live.size();
            S str = ref::enc<C>(px::any_text(r, 30));
            S name = ref::enc<C>(U"who");
            {
                auto mk = papilio::make_format_args<px::ctx_t<C>>(b, 42, SV(str), sm, papilio::arg(SV(name), b));
                CK(reg.live.size() == before + 1, "a static pack copies what it should borrow", reg.live.size(), " before ", before);
                auto f = ref::enc<C>(U"{0} {1} {2} {3} {who}");
                auto got = px::vformat<C>(SV(f), px::args_ref_t<C>(mk));
                S want = ref::enc<C>(ref::ascii(cat("B", id, " 42 "))) + str + ref::enc<C>(ref::ascii(cat(" S", id + 1, " B", id)));
                CK(got.ok() && got.s == want, "text of a static pack", got.show());
                // temporaries live until the call is over
                got = px::capture<C>([&] { return papilio::format(SV(f), big(7), 1, S(40, static_cast<C>('y')), small(8), papilio::arg(SV(name), big(9))); });
                want = ref::enc<C>(U"B7 1 " + ref::U32(40, U'y') + U" S8 B9");
                CK(got.ok() && got.s == want, "text with temporaries", got.show());
                c.count("static_packs");
            }
            CK(reg.live.size() == before, "a static pack leaves objects behind", reg.live.size());
        }
        c.nontrivial(log);
        if(c.index % 499 == 0) c.sample(cat(c.stream, ": ", log));
    }
    CK(reg.live.empty(), "objects left behind at the end", reg.live.size(), " after", log);
}
} // namespace c15
