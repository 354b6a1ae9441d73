#pragma once
// C14: fixed_vector and fixed_flat_map against std::vector and std::map
#include <functional>
#include <map>
#include <optional>
#include <papilio/container.hpp>
#include "track.hpp"
using namespace vh;
using namespace track;
#define CK(cond, key, ...) c.check((cond), key, [&] { return cat(__VA_ARGS__); })

// the container between guard bytes, so that writes next to it are seen
template <typename V>
struct guarded
{
    alignas(64) unsigned char before[64];
    alignas(V) unsigned char mem[sizeof(V)];
    unsigned char after[64];
    V* p = nullptr;
    guarded() { std::memset(before, 0xA5, 64); std::memset(after, 0x5A, 64); std::memset(mem, 0xEE, sizeof mem); }
    template <typename... A>
    V& make(A&&... a) { kill(); p = new(mem) V(std::forward<A>(a)...); return *p; }
    void kill() { if(p) { V* q = p; p = nullptr; q->~V(); std::memset(mem, 0xEE, sizeof mem); } }
    bool intact() const
    {
        for(unsigned char x : before) if(x != 0xA5) return false;
        for(unsigned char x : after) if(x != 0x5A) return false;
        return true;
    }
    ~guarded() { kill(); }
};

template <typename T, std::size_t Cap>
struct vec_machine
{
    using V = papilio::fixed_vector<T, Cap>;
    static constexpr bool copyable = std::is_copy_constructible_v<T>;
    static constexpr bool tracked = !std::is_same_v<T, long long> && !std::is_same_v<T, std::string>;
    Case& c;
    Rng& r;
    static constexpr int N = 2;
    guarded<V> g[N];
    std::vector<long long> m[N];
    std::string log;
    bool faults;
    long long next = 1;

    vec_machine(Case& cc, bool f) : c(cc), r(cc.rng), faults(f) { for(auto& x : g) x.make(); }
    long long nv() { return next++; }
    void say(std::string s) { log += " " + s; c.more(" " + s); }

    void verify(int i)
    {
        V& x = *g[i].p;
        const V& k = x;
        auto& w = m[i];
        if(x.size() != w.size() || x.empty() != w.empty()) { CK(false, "size", x.size(), " want ", w.size(), " after", log); return; }
        CK(x.capacity() == Cap && V::max_size() == Cap && x.size() <= Cap, "capacity", x.capacity());
        CK(static_cast<std::size_t>(x.end() - x.begin()) == w.size() && x.data() == x.begin() && k.data() == k.cbegin() && k.cend() == k.end() && k.begin() == x.begin(), "iterators", "");
        bool same = true;
        std::size_t n = 0;
        for(auto& e : k) same = same && track::get(e) == w[n++];
        std::string s;
        if(!same) for(auto& e : k) s += cat(track::get(e), " ");
        CK(same && n == w.size(), "contents", s, "after", log);
        CK(g[i].intact(), "memory next to the container was written", log);
        if(!w.empty()) CK(track::get(x.front()) == w.front() && track::get(k.back()) == w.back() && track::get(x.at(w.size() - 1)) == w.back() && track::get(k[0]) == w[0] && track::get(k.at(0)) == w[0] && track::get(k.front()) == w.front() && track::get(x.back()) == w.back() && &k.front() == k.data(), "access", "");
        if(r.chance(1, 8))
            for(std::size_t b : {w.size(), Cap, std::size_t(-1)})
            {
                if(b < w.size()) continue;
                bool th = false;
                try { r.coin() ? (void)x.at(b) : (void)k.at(b); } catch(const std::out_of_range&) { th = true; }
                CK(th, "at() out of range", b);
            }
        if(w.size() == Cap) c.count("full_states");
        if(w.empty()) c.count("empty_states");
    }
    void census()
    {
        if constexpr(tracked)
        {
            std::size_t n = 0;
            for(auto& x : m) n += x.size();
            CK(reg.live.size() == n, "number of living elements", reg.live.size(), " want ", n, " after", log);
        }
    }
    // f adds one element; on a full container it has to throw and change nothing
    template <typename F>
    bool adding(int i, F f)
    {
        bool full = m[i].size() == Cap, thrown = false;
        try { f(); } catch(const std::length_error&) { thrown = true; }
        CK(thrown == full, "overflow", full ? "no exception on a full container" : "exception with room left", " after", log);
        if(full) c.count("overflows_refused");
        return !full;
    }
    void op()
    {
        int i = static_cast<int>(r.below(N)), j = 1 - i;
        V& x = *g[i].p;
        auto& w = m[i];
        int k = static_cast<int>(r.below(16));
        say(cat(k, "(", i, ")"));
        std::size_t at = r.below(w.size() + 1);
        auto pos = x.cbegin() + static_cast<std::ptrdiff_t>(at);
        auto put = [&](long long n) { w.insert(w.begin() + static_cast<std::ptrdiff_t>(at), n); };
        typename V::iterator it{};
        auto ret = [&] { CK(it == x.begin() + static_cast<std::ptrdiff_t>(at) && track::get(*it) == w[at], "returned iterator", at, " after", log); };
        switch(k)
        {
        case 0: case 1: { long long n = nv(); if(adding(i, [&] { x.push_back(make<T>(n)); })) w.push_back(n); break; }
        case 2: if constexpr(copyable) { long long n = nv(); const T t = make<T>(n); if(adding(i, [&] { x.push_back(t); })) w.push_back(n); } break;
        case 3: { long long n = nv(); if(adding(i, [&] { auto& e = x.emplace_back(make<T>(n)); CK(&e == &x.back(), "emplace_back result", ""); })) w.push_back(n); break; }
        case 4: if constexpr(copyable) if(!w.empty()) { auto a = r.below(w.size()); long long n = w[a]; if(adding(i, [&] { x.push_back(x[a]); })) w.push_back(n); c.count("own_element"); } break;
        case 5: case 6: { long long n = nv(); if(adding(i, [&] { it = x.insert(pos, make<T>(n)); })) { put(n); ret(); } break; }
        case 7: if constexpr(copyable) { long long n = nv(); const T t = make<T>(n); if(adding(i, [&] { it = x.insert(pos, t); })) { put(n); ret(); } } break;
        case 8: case 9:
            if constexpr(copyable) if(!w.empty())
            {
                auto a = r.below(w.size());
                long long n = w[a];
                if(adding(i, [&] { it = r.coin() ? x.insert(pos, x[a]) : x.emplace(pos, std::as_const(x)[a]); })) { put(n); ret(); }
                c.count("own_element");
            }
            break;
        case 10: if constexpr(std::is_constructible_v<T, long long, long long> && !std::is_same_v<T, std::string>) { long long n = nv(); if(adding(i, [&] { it = x.emplace(pos, n, 7ll); })) { put(n * 100 + 7); ret(); } } break;
        case 11: if(!w.empty()) { x.pop_back(); w.pop_back(); } break;
        case 12: for(std::size_t n = r.below(w.size() + 1); n; --n) { x.pop_back(); w.pop_back(); } break;
        case 13: if(r.chance(1, 3)) { x.clear(); w.clear(); } break;
        case 14:
            if constexpr(copyable)
            {
                if(r.coin()) { m[j].clear(); g[j].kill(); g[j].make(); g[j].kill(); try { g[j].make(std::as_const(x)); } catch(...) { g[j].make(); throw; } m[j] = w; c.count("copies"); }
                else
                {
                    std::size_t n = r.below(Cap + 3);
                    long long val = nv();
                    T t = make<T>(val);
                    g[j].kill();
                    m[j].clear();
                    bool th = false;
                    try { g[j].make(n, t); } catch(const std::length_error&) { th = true; } catch(...) { g[j].make(); throw; }
                    CK(th == (n > Cap), "size constructor", n);
                    if(th) g[j].make(); else m[j].assign(n, val);
                    c.count("filled");
                }
            }
            break;
        default:
        {
            g[j].kill();
            m[j].clear();
            try { g[j].make(std::move(x)); } catch(...) { g[j].make(); throw; }
            m[j] = w;
            // the source keeps elements that were moved from
            w.clear();
            for(auto& e : x) w.push_back(track::get(e));
            c.count("moves");
            break;
        }
        }
    }
    void run()
    {
        std::size_t n = 5 + r.below(40);
        for(std::size_t k = 0; k < n && !c.failed; ++k)
        {
            if(faults && r.chance(1, 2)) reg.arm = r.range(0, 7);
            bool faulted = false;
            try { op(); } catch(const fault&) { faulted = true; }
            reg.arm = -1;
            if(faulted)
            {
                c.count("faults");
                say("!");
                for(int i = 0; i < N; ++i) { m[i].clear(); CK(g[i].p->size() <= Cap, "size after a fault", ""); for(auto& e : *g[i].p) m[i].push_back(track::get(e)); }
            }
            for(int i = 0; i < N && !c.failed; ++i) verify(i);
            if(!c.failed) census();
            c.count("steps");
        }
        for(auto& x : g) x.kill();
        if constexpr(tracked) CK(reg.live.empty() && reg.constructed == reg.destroyed, "elements left over", reg.live.size(), " after", log);
    }
};

template <typename T, std::size_t Cap>
void run_vec(Case& c, const char* name, bool faults = false)
{
    reg.reset(&c);
    c.desc(cat("fixed_vector of ", name, " capacity ", Cap, faults ? " with faults:" : ":"));
    {
        vec_machine<T, Cap> mc(c, faults);
        mc.run();
        c.nontrivial(cat(name, Cap, faults, mc.log));
        c.sample(cat("fixed_vector of ", name, " capacity ", Cap, ":", mc.log.substr(0, 120)));
    }
    reg.reset(nullptr);
}

// keys
struct by_last_digits // a comparator with state-free but coarse equivalence
{
    bool operator()(long long a, long long b) const { return a / 10 < b / 10; }
};
inline long long key_of(long long x) { return x; }
inline long long key_of(const std::string& s) { return std::stoll(s); }
inline long long key_of(const elem<0>& e) { return e.get(); }
namespace track { inline bool operator<(const elem<0>& a, const elem<0>& b) { return a.get() < b.get(); } }
struct string_less
{
    using is_transparent = void;
    template <typename A, typename B>
    bool operator()(const A& a, const B& b) const { return std::string_view(a) < std::string_view(b); }
};

template <typename K, typename T, std::size_t Cap, typename Compare>
struct map_machine
{
    using M = papilio::fixed_flat_map<K, T, Cap, Compare>;
    Case& c;
    Rng& r;
    guarded<M> g;
    std::map<K, long long, Compare> m;
    std::string log;
    bool faults;
    long long next = 1;
    long long span;

    map_machine(Case& cc, bool f) : c(cc), r(cc.rng), faults(f), span(cc.rng.pick({4ll, 12ll, 60ll})) { g.make(); }
    static K mk(long long v)
    {
        if constexpr(std::is_same_v<K, std::string>) { char b[32]; std::snprintf(b, sizeof b, "%06lld", v); std::string s = b; if(v % 3 == 0) s += std::string(18, ' '); return s; }
        else return K(v);
    }
    void say(std::string s) { log += " " + s; c.more(" " + s); }
    static long long keyv(const K& k) { return key_of(k); }

    void verify()
    {
        M& x = *g.p;
        const M& k = x;
        if(x.size() != m.size() || x.empty() != m.empty()) { CK(false, "map size", x.size(), " want ", m.size(), " after", log); return; }
        CK(M::max_size() == Cap && x.size() <= Cap, "map capacity", "");
        if(x.size() > 1)
        {
            // the comparisons that the map hands out agree with its order
            auto a = k.begin() + static_cast<std::ptrdiff_t>(r.below(x.size())), b = k.begin() + static_cast<std::ptrdiff_t>(r.below(x.size()));
            typename M::value_compare vc{};
            auto kc = vc.key_comp();
            CK(kc(a->first, b->first) == (a < b) && vc(*a, *b) == (a < b), "comparison objects", "after", log);
        }
        auto it = m.begin();
        bool same = true;
        for(auto& [a, b] : k) { same = same && keyv(a) == keyv(it->first) && track::get(b) == it->second; ++it; }
        CK(same && it == m.end(), "map contents", "after", log);
        CK(g.intact(), "memory next to the container was written", log);
        if(m.size() == Cap) c.count("full_states");
    }
    void lookup(long long v)
    {
        M& x = *g.p;
        const M& k = x;
        K key = mk(v);
        auto w = m.find(key);
        auto lb = m.lower_bound(key);
        auto dist = [&](auto i) { return static_cast<std::size_t>(i - k.begin()); };
        std::size_t pos = static_cast<std::size_t>(std::distance(m.begin(), w)), lpos = static_cast<std::size_t>(std::distance(m.begin(), lb));
        CK(dist(x.find(key)) == pos && dist(k.find(key)) == pos, "find", v, " after", log);
        CK(k.contains(key) == (w != m.end()), "contains", v, " after", log);
        CK(dist(x.lower_bound(key)) == lpos && dist(k.lower_bound(key)) == lpos, "lower_bound", v, " after", log);
        bool th = false;
        try { const T& t = r.coin() ? x.at(key) : k.at(key); CK(w != m.end() && track::get(t) == w->second, "at", v, " after", log); } catch(const std::out_of_range&) { th = true; }
        CK(th == (w == m.end()), "at throws", v, " after", log);
        if constexpr(std::is_same_v<Compare, string_less>)
        {
            std::string_view sv = key;
            CK(dist(x.find(sv)) == pos && dist(k.find(sv)) == pos && k.contains(sv) == (w != m.end()) && dist(k.lower_bound(sv)) == lpos && dist(x.lower_bound(key.c_str())) == lpos, "heterogeneous lookup", v, " after", log);
            c.count("heterogeneous");
        }
        c.count(w != m.end() ? "hits" : "misses");
    }
    void op()
    {
        M& x = *g.p;
        long long kv = r.range(0, span);
        K key = mk(kv);
        auto w = m.find(key);
        bool there = w != m.end(), full = m.size() == Cap;
        int k = static_cast<int>(r.below(9));
        say(cat(k, ":", kv));
        long long val = next++;
        auto done = [&](auto res, bool assigned)
        {
            CK(res.second == !there, "inserted?", kv, " after", log);
            if(there) { if(assigned) w->second = val; }
            else { m.emplace(key, val); w = m.find(key); }
            CK(keyv(res.first->first) == keyv(w->first) && track::get(res.first->second) == w->second, "returned iterator of the map", kv, " after", log);
        };
        bool thrown = false;
        switch(k)
        {
        case 0: case 1: case 2:
            try { auto res = k ? x.insert_or_assign(key, make<T>(val)) : [&] { const T t = make<T>(val); return x.insert_or_assign(key, t); }(); done(res, true); }
            catch(const std::length_error&) { thrown = true; }
            CK(thrown == (full && !there), "map overflow", kv, " after", log);
            if(thrown) c.count("overflows_refused");
            break;
        case 3: case 4:
            try
            {
                auto res = [&] { if constexpr(std::is_same_v<T, long long> || std::is_same_v<T, elem<0>>) return x.try_emplace(key, val); else return x.try_emplace(key, make<T>(val)); }();
                done(res, false);
            }
            catch(const std::length_error&) { thrown = true; }
            CK(thrown == (full && !there), "map overflow", kv, " after", log);
            if(thrown) c.count("overflows_refused");
            break;
        case 5:
            // keys and values of its own
            if(!m.empty())
            {
                auto a = static_cast<std::ptrdiff_t>(r.below(m.size())), b = static_cast<std::ptrdiff_t>(r.below(m.size()));
                auto ma = std::next(m.begin(), a), mb = std::next(m.begin(), b);
                auto res = x.insert_or_assign((x.begin() + a)->first, std::as_const((x.begin() + b)->second));
                ma->second = mb->second;
                CK(!res.second && res.first == x.begin() + a, "assigning an own value", "after", log);
                c.count("own_element");
            }
            break;
        case 6:
            if(!m.empty() && !full && !there)
            {
                auto b = static_cast<std::ptrdiff_t>(r.below(m.size()));
                long long v2 = std::next(m.begin(), b)->second;
                if(r.coin()) { x.insert_or_assign(key, std::as_const((x.begin() + b)->second)); m.emplace(key, v2); }
                else { x.try_emplace(key, std::as_const((x.begin() + b)->second)); m.emplace(key, v2); }
                c.count("own_element");
            }
            break;
        case 7:
        {
            M copy(x);
            g.kill();
            try { g.make(r.coin() ? std::as_const(copy) : copy); } catch(...) { g.make(); m.clear(); throw; }
            c.count("copies");
            break;
        }
        default: lookup(kv); break;
        }
    }
    void run()
    {
        std::size_t n = 5 + r.below(45);
        for(std::size_t k = 0; k < n && !c.failed; ++k)
        {
            if(faults && r.chance(1, 2)) reg.arm = r.range(0, 12);
            bool faulted = false;
            try { op(); } catch(const fault&) { faulted = true; }
            reg.arm = -1;
            if(faulted)
            {
                c.count("faults");
                say("!");
                // start over: the elements must be destroyed exactly once
                CK(g.p->size() <= Cap, "size after a fault", "");
                for(auto& [a, b] : *g.p) { track::get(a); track::get(b); }
                g.make();
                m.clear();
            }
            if(!c.failed) verify();
            if(!c.failed && r.chance(1, 2)) lookup(r.range(-1, span + 1));
            c.count("map_steps");
        }
        g.kill();
        CK(g.intact(), "memory next to the container was written", log);
    }
};
template <typename K, typename T, std::size_t Cap, typename Compare>
void run_map(Case& c, const char* name, bool faults = false)
{
    reg.reset(&c);
    c.desc(cat("fixed_flat_map of ", name, " capacity ", Cap, faults ? " with faults:" : ":"));
    {
        map_machine<K, T, Cap, Compare> mc(c, faults);
        mc.run();
        c.nontrivial(cat(name, Cap, faults, mc.log));
        c.sample(cat("fixed_flat_map of ", name, " capacity ", Cap, ":", mc.log.substr(0, 120)));
        mc.m.clear();
    }
    c.check(reg.live.empty() && reg.constructed == reg.destroyed, "elements of the map left over", "");
    reg.reset(nullptr);
}
