// C15: histories of optionally-owning pointers and compressed pairs
#include <array>
#include <map>
#include <optional>
#include <typeinfo>
#include <papilio/memory.hpp>
#include "track.hpp"
using namespace vh;
using namespace track;
#define CK(cond, key, ...) c.check((cond), key, [&] { return cat(__VA_ARGS__); })

namespace
{
using obj = elem<0>;

// what each object expects: who has to destroy it
struct ledger
{
    Case* c = nullptr;
    std::map<const void*, int> expected; // object -> id of the deleter, for owned objects
    std::uint64_t deletions = 0;
    void deleted(const void* p, int id)
    {
        ++deletions;
        auto it = expected.find(p);
        if(it == expected.end()) { c->fail("an object that is not owned is deleted", ""); return; }
        if(it->second != id) c->fail("an object is deleted by another deleter", cat("deleter ", id, " instead of ", it->second));
        expected.erase(it);
    }
};
ledger led;

template <typename T>
void destroy(T* p, std::true_type) { delete[] p; }
template <typename T>
void destroy(T* p, std::false_type) { delete p; }

template <bool Arr>
struct stateful
{
    int id;
    stateful(int i = 0) : id(i) {}
    template <typename T>
    void operator()(T* p) const
    {
        led.deleted(p, id);
        destroy(p, std::bool_constant<Arr>());
    }
};
template <bool Arr>
struct move_only_del
{
    std::unique_ptr<int> id;
    move_only_del(int i = 0) : id(new int(i)) {}
    template <typename T>
    void operator()(T* p) const
    {
        led.deleted(p, id ? *id : 0);
        destroy(p, std::bool_constant<Arr>());
    }
};
struct stateless
{
    template <typename T>
    void operator()(T* p) const { led.deleted(p, 0); delete p; }
};
template <bool Arr, int N>
void fn_del(const obj* p)
{
    led.deleted(p, N);
    destroy(p, std::bool_constant<Arr>());
}

template <bool Arr>
struct d_stateful
{
    using type = stateful<Arr>;
    static constexpr bool is_default = false, copyable = true, wants_adopt = true;
    static type make(int id) { return type(id); }
    static int id(const type& d) { return d.id; }
};
template <bool Arr>
struct d_move_only
{
    using type = move_only_del<Arr>;
    static constexpr bool is_default = false, copyable = false, wants_adopt = true;
    static type make(int id) { return type(id); }
    static int id(const type& d) { return d.id ? *d.id : 0; }
};
template <bool Arr>
struct d_fn
{
    using type = void (*)(const obj*);
    static constexpr bool is_default = false, copyable = true, wants_adopt = true;
    static type make(int id) { return id % 3 == 0 ? &fn_del<Arr, 0> : id % 3 == 1 ? &fn_del<Arr, 1> : &fn_del<Arr, 2>; }
    static int id(const type& d) { return d == &fn_del<Arr, 0> ? 0 : d == &fn_del<Arr, 1> ? 1 : d == &fn_del<Arr, 2> ? 2 : -1; }
};
template <bool Arr>
struct d_default
{
    using type = std::default_delete<std::conditional_t<Arr, obj[], obj>>;
    static constexpr bool is_default = true, copyable = true, wants_adopt = true;
    static type make(int) { return {}; }
    static int id(const type&) { return 0; }
};

template <bool Arr, typename D>
struct machine
{
    using E = std::conditional_t<Arr, obj[], obj>;
    using P = papilio::optional_unique_ptr<E, typename D::type>;
    using U = std::unique_ptr<E, typename D::type>;
    static constexpr int N = 4;
    Case& c;
    Rng& r;
    std::array<std::optional<P>, N> p;
    struct st { obj* o = nullptr; bool own = false; std::size_t n = 1; } m[N];
    std::map<obj*, std::size_t> objects;     // everything alive
    std::map<obj*, std::size_t> stray;       // alive and owned by nobody
    std::string log;
    long long next = 1;

    machine(Case& cc) : c(cc), r(cc.rng) { for(auto& x : p) x.emplace(); }
    void say(std::string s) { log += " " + s; c.more(" " + s); }

    obj* fresh(std::size_t& n)
    {
        n = Arr ? r.below(4) : 1;
        obj* o = Arr ? new obj[n] : new obj(next);
        for(std::size_t i = 0; i < n; ++i) o[i].v = next++;
        objects[o] = n;
        return o;
    }
    void expect(obj* o, int id) { if(!D::is_default) led.expected[o] = id; }
    // the deleter in use from now on
    void owns(int i, obj* o)
    {
        if(D::id(p[i]->get_deleter()) < 0 || r.chance(1, 3)) p[i]->get_deleter() = D::make(static_cast<int>(r.below(3)));
        expect(o, D::id(p[i]->get_deleter()));
    }
    void dies(obj* o) { objects.erase(o); }
    void drop(int i) { if(m[i].own) dies(m[i].o); m[i] = {}; } // what resetting must do
    // pointers to objects that no longer exist must not be used
    void forget(obj* o) { for(int i = 0; i < N; ++i) if(!m[i].own && m[i].o == o) { p[i]->reset(); m[i] = {}; } }
    void dropping(int i) { if(m[i].own) { obj* o = m[i].o; drop(i); forget(o); } else m[i] = {}; }

    void verify()
    {
        std::size_t elems = 0;
        for(auto& [o, n] : objects) { elems += n; (void)o; }
        CK(reg.live.size() == elems, "objects alive", reg.live.size(), " want ", elems, " after", log);
        for(int i = 0; i < N; ++i)
        {
            const P& x = *p[i];
            CK(x.get() == m[i].o, "pointer", "slot ", i, " after", log);
            CK(x.has_ownership() == m[i].own, "ownership", "slot ", i, " ", x.has_ownership(), " after", log);
            CK(static_cast<bool>(x) == (m[i].o != nullptr) && (x == nullptr) == (m[i].o == nullptr) && (nullptr == x) == !m[i].o, "null tests", i);
            if(m[i].own && !D::is_default)
            {
                auto it = led.expected.find(m[i].o);
                CK(it != led.expected.end() && D::id(x.get_deleter()) == it->second, "deleter", "slot ", i, " has ", D::id(x.get_deleter()), " after", log);
            }
            if(m[i].o && objects.count(m[i].o))
            {
                if constexpr(Arr) { for(std::size_t k = 0; k < objects[m[i].o]; ++k) CK(x[k].get() == m[i].o[k].v, "array access", ""); }
                else CK((*x).get() == m[i].o->v && x->get() == m[i].o->v, "access", "");
                c.count(m[i].own ? "owned" : "borrowed");
            }
            else c.count("null");
            for(int k = 0; k < N; ++k) CK((x == *p[k]) == (m[i].o == m[k].o), "comparison", "");
        }
    }
    void step()
    {
        int i = static_cast<int>(r.below(N)), j = static_cast<int>(r.below(N));
        switch(r.below(16))
        {
        case 0: // own a new object
        {
            std::size_t n; obj* o = fresh(n);
            say(cat("own ", i));
            dropping(i);
            switch(r.below(3))
            {
            case 0: p[i]->reset(o, true); break;
            case 1: p[i].emplace(o, true); break;
            default:
                if constexpr(!Arr)
                {
                    if(r.coin()) p[i]->reset(papilio::independent, o);
                    else p[i].emplace(papilio::independent, o);
                }
                else p[i]->reset(o, true);
                break;
            }
            owns(i, o);
            m[i] = {o, true, n};
            break;
        }
        case 1: // take over a unique pointer
        {
            std::size_t n; obj* o = nullptr;
            int del = static_cast<int>(r.below(3));
            if(!r.chance(1, 6)) { o = fresh(n); expect(o, D::id(D::make(del))); }
            else n = 1;
            say(cat(o ? "adopt " : "adopt nothing ", i));
            U u(o, D::make(del));
            dropping(i);
            if(r.coin()) p[i]->reset(std::move(u));
            else p[i].emplace(std::move(u));
            CK(!u, "the unique pointer still owns", log);
            m[i] = {o, o != nullptr, n};
            break;
        }
        case 2: // borrow
        {
            if(objects.empty()) break;
            auto it = objects.begin();
            std::advance(it, static_cast<long>(r.below(objects.size())));
            obj* o = it->first;
            if(m[i].own && m[i].o == o) break;
            say(cat("borrow ", i));
            dropping(i);
            if(r.coin()) p[i]->reset(o, false);
            else p[i].emplace(o, false);
            m[i] = {o, false, 1};
            break;
        }
        case 3:
        case 4: // copy
        {
            if constexpr(D::copyable)
            {
                if(i == j) { say("self copy"); P& x = *p[i]; x = *&*p[j]; break; }
                if(m[i].own && m[j].o == m[i].o) break; // the object would go away
                say(cat("copy ", j, " to ", i));
                dropping(i);
                if(r.coin()) *p[i] = std::as_const(*p[j]);
                else p[i].emplace(std::as_const(*p[j]));
                m[i] = {m[j].o, false, 1};
            }
            break;
        }
        case 5:
        case 6:
        case 7: // move
        {
            if(i == j)
            {
                say("self move");
                P& x = *p[i];
                x = std::move(*&*p[j]);
                break;
            }
            if(m[i].own && m[j].o == m[i].o) break;
            say(cat("move ", j, " to ", i));
            dropping(i);
            if(r.coin()) *p[i] = std::move(*p[j]);
            else p[i].emplace(std::move(*p[j]));
            m[i] = m[j];
            m[j] = {};
            break;
        }
        case 8:
        case 9:
            say(cat("swap ", i, " ", j));
            p[i]->swap(*p[j]);
            std::swap(m[i], m[j]);
            break;
        case 10:
        {
            say(cat("release ", i));
            auto was = m[i];
            obj* o = const_cast<obj*>(p[i]->release());
            CK(o == was.o, "release", log);
            m[i] = {};
            if(was.own)
            {
                if constexpr(!D::is_default) led.expected.erase(o);
                if(r.coin()) { forget(o); dies(o); destroy(o, std::bool_constant<Arr>()); }
                else stray[o] = was.n;
            }
            break;
        }
        case 11:
            say(cat("reset ", i));
            dropping(i);
            switch(r.below(4))
            {
            case 0: p[i]->reset(); break;
            case 1: p[i]->reset(nullptr); break;
            case 2: *p[i] = nullptr; break;
            default: p[i].emplace(nullptr); break;
            }
            break;
        case 12:
            say(cat("null ", i));
            dropping(i);
            p[i]->reset(static_cast<obj*>(nullptr), r.coin());
            m[i] = {};
            break;
        case 13: // take a stray object back
            if(!stray.empty())
            {
                auto [o, n] = *stray.begin();
                if(m[i].o == o && m[i].own) break;
                stray.erase(stray.begin());
                say(cat("own again ", i));
                dropping(i);
                p[i]->reset(o, true);
                owns(i, o);
                m[i] = {o, true, n};
            }
            break;
        case 14:
            if constexpr(!Arr && D::is_default)
            {
                say(cat("make ", i));
                dropping(i);
                long long v = next++;
                *p[i] = papilio::make_optional_unique<obj>(v);
                obj* o = p[i]->get();
                CK(o && o->v == v, "make_optional_unique", log);
                objects[o] = 1;
                m[i] = {o, true, 1};
            }
            if constexpr(Arr && D::is_default)
            {
                say(cat("make ", i));
                dropping(i);
                std::size_t n = r.below(5);
                *p[i] = papilio::make_optional_unique<obj[]>(n);
                obj* o = p[i]->get();
                for(std::size_t k = 0; k < n; ++k) CK(o[k].get() == 0, "make_optional_unique", log);
                objects[o] = n;
                m[i] = {o, true, n};
            }
            break;
        default:
            if constexpr(!Arr)
            {
                if(objects.empty()) break;
                obj* o = objects.begin()->first;
                if(m[i].own && m[i].o == o) break;
                say(cat("pointer_to ", i));
                dropping(i);
                *p[i] = P::pointer_to(*o);
                m[i] = {o, false, 1};
            }
            break;
        }
    }
    void run()
    {
        int n = 3 + static_cast<int>(r.below(30));
        for(int k = 0; k < n && !c.failed; ++k) { step(); verify(); c.count("pointer_steps"); }
        for(int i = 0; i < N; ++i) { dropping(i); p[i].reset(); }
        for(auto& [o, n2] : stray) { (void)n2; dies(o); destroy(o, std::bool_constant<Arr>()); }
        CK(reg.live.empty() && objects.empty(), "objects left behind", reg.live.size());
        CK(led.expected.empty(), "an owned object was never deleted", led.expected.size());
        c.nontrivial(cat(typeid(D).name(), log));
        if(c.index % 499 == 0) c.sample(cat(c.stream, ": ", log));
    }
};
template <bool Arr, typename D>
void go(Case& c, const char* what)
{
    c.desc(what);
    reg.reset(&c);
    led = ledger();
    led.c = &c;
    machine<Arr, D> m(c);
    m.run();
}

// compressed pairs -----------------------------------------------------------
template <int Tag>
struct hollow // empty, counted
{
    static inline long long copies = 0, moves = 0;
    hollow() { reg.tick(); }
    hollow(int) {}
    hollow(const hollow&) { ++copies; }
    hollow(hollow&&) noexcept { ++moves; }
    hollow& operator=(const hollow&) { ++copies; return *this; }
    hollow& operator=(hollow&&) noexcept { ++moves; return *this; }
    int get() const { return Tag; }
};
template <typename A, typename B>
void pairs(Case& c, const char* what)
{
    using P = papilio::compressed_pair<A, B>;
    auto& r = c.rng;
    c.desc(what);
    reg.reset(&c);
    constexpr bool ea = std::is_empty_v<A>, eb = std::is_empty_v<B>;
    static_assert(!(ea && eb) || sizeof(P) <= 2);
    auto va = [](const A& a) -> long long { return a.get(); };
    auto vb = [](const B& b) -> long long { return b.get(); };
    std::string log;
    {
        struct st { long long a, b; };
        std::vector<std::unique_ptr<P>> v;
        std::vector<st> m;
        long long next = 1;
        auto ma = [](long long x) { if constexpr(ea) return A(0); else return A(x); };
        auto mb = [](long long x) { if constexpr(eb) return B(0); else return B(x); };
        auto wa = [&](long long x) { if constexpr(ea) return (long long)A(0).get(); else return x; };
        auto wb = [&](long long x) { if constexpr(eb) return (long long)B(0).get(); else return x; };
        int n = 3 + static_cast<int>(r.below(14));
        for(int k = 0; k < n; ++k)
        {
            std::size_t i = v.empty() ? 0 : r.below(v.size()), j = v.empty() ? 0 : r.below(v.size());
            auto op = v.size() > 6 ? 5 + r.below(4) : r.below(9);
            if(v.empty() && op > 4) op = 0;
            long long x = next++, y = next++;
            log += cat(" ", op);
            c.more(cat(" ", op));
            switch(op)
            {
            case 0: v.push_back(std::make_unique<P>()); m.push_back({wa(0), wb(0)}); break;
            case 1:
            {
                const A a = ma(x);
                const B b = mb(y);
                v.push_back(std::make_unique<P>(a, b));
                CK(va(a) == wa(x) && vb(b) == wb(y), "constructing a pair changes what it is copied from", log);
                m.push_back({wa(x), wb(y)});
                break;
            }
            case 2:
            {
                A a = ma(x);
                B b = mb(y);
                v.push_back(std::make_unique<P>(a, b)); // lvalues that are not const are copied too
                CK(va(a) == wa(x) && vb(b) == wb(y), "constructing a pair changes what it is copied from", log);
                m.push_back({wa(x), wb(y)});
                break;
            }
            case 3:
            {
                A a = ma(x);
                B b = mb(y);
                if(r.coin()) { v.push_back(std::make_unique<P>(std::move(a), b)); CK(vb(b) == wb(y), "a pair moves from an lvalue", log); }
                else { v.push_back(std::make_unique<P>(a, std::move(b))); CK(va(a) == wa(x), "a pair moves from an lvalue", log); }
                m.push_back({wa(x), wb(y)});
                break;
            }
            case 4:
            {
                A a = ma(x);
                B b = mb(y);
                if(r.coin()) v.push_back(std::make_unique<P>(std::piecewise_construct, std::forward_as_tuple(a), std::forward_as_tuple(b)));
                else
                {
                    v.push_back(std::make_unique<P>(std::piecewise_construct, std::forward_as_tuple(std::move(a)), std::tuple<>()));
                    y = 0;
                }
                if(y) CK(va(a) == wa(x) && vb(b) == wb(y), "piecewise construction changes what it is copied from", log);
                m.push_back({wa(x), wb(y)});
                break;
            }
            case 5: v.push_back(std::make_unique<P>(std::as_const(*v[i]))); m.push_back(m[i]); break;
            case 6:
                v.push_back(std::make_unique<P>(std::move(*v[i])));
                m.push_back(m[i]);
                if(!ea) m[i].a = -777;
                if(!eb) m[i].b = -777;
                break;
            case 7:
                if(i == j) break;
                v[i]->swap(*v[j]);
                std::swap(m[i], m[j]);
                break;
            default: v.erase(v.begin() + static_cast<long>(i)); m.erase(m.begin() + static_cast<long>(i)); break;
            }
            for(std::size_t q = 0; q < v.size(); ++q)
            {
                const P& cp = *v[q];
                CK(va(v[q]->first()) == m[q].a && vb(v[q]->second()) == m[q].b, "members of a pair", "pair ", q, ": ", va(cp.first()), " ", vb(cp.second()), " want ", m[q].a, " ", m[q].b, " after", log);
                CK(va(cp.first()) == m[q].a && &cp.first() == &v[q]->first() && &cp.second() == &v[q]->second(), "members of a const pair", log);
                CK(&get<0>(cp) == &cp.first() && &get<1>(*v[q]) == &cp.second(), "get", log);
            }
            c.count("pair_steps");
        }
        c.nontrivial(cat(what, log));
        if(c.index % 499 == 0) c.sample(cat(c.stream, ": ", log));
    }
    CK(reg.live.empty(), "objects left behind", reg.live.size(), " after", log);
}
} // namespace

VH_STREAM(pointers, 12000, 1500000)
{
    switch(c.index % 4)
    {
    case 0: go<false, d_stateful<false>>(c, "stateful deleter"); break;
    case 1: go<false, d_default<false>>(c, "default deleter"); break;
    case 2: go<false, d_fn<false>>(c, "function pointer"); break;
    default: go<false, d_move_only<false>>(c, "move-only deleter"); break;
    }
}
VH_STREAM(arrays, 9000, 1000000)
{
    switch(c.index % 3)
    {
    case 0: go<true, d_stateful<true>>(c, "array, stateful deleter"); break;
    case 1: go<true, d_default<true>>(c, "array, default deleter"); break;
    default: go<true, d_fn<true>>(c, "array, function pointer"); break;
    }
}
VH_STREAM(compressed, 12000, 1000000)
{
    switch(c.index % 6)
    {
    case 0: pairs<elem<0>, elem<1>>(c, "two members"); break;
    case 1: pairs<hollow<1>, elem<0>>(c, "empty first"); break;
    case 2: pairs<elem<0>, hollow<2>>(c, "empty second"); break;
    case 3: pairs<hollow<1>, hollow<2>>(c, "both empty"); break;
    case 4: pairs<hollow<3>, hollow<3>>(c, "the same empty type twice"); break;
    default: pairs<elem<2>, elem<0>>(c, "two members, throwing assignment"); break;
    }
}
