#pragma once
// C13: small_vector against std::vector
#include <forward_list>
#include <list>
#include <memory_resource>
#include <optional>
#include <sstream>
#include <papilio/container.hpp>
#include "track.hpp"
using namespace vh;
using namespace track;
#define CK(cond, key, ...) c.check((cond), key, [&] { return cat(__VA_ARGS__); })

template <typename V>
struct machine
{
    using T = typename V::value_type;
    using A = typename V::allocator_type;
    static constexpr bool copyable = std::is_copy_constructible_v<T>;
    static constexpr bool std_alloc = std::is_same_v<A, std::allocator<T>>;
    static constexpr bool tracked = !std::is_same_v<T, long long> && !std::is_same_v<T, std::string>;
    using traits = std::allocator_traits<A>;

    Case& c;
    Rng& r;
    static constexpr int N = 3;
    std::unique_ptr<V> v[N];
    std::vector<long long> m[N];
    int alloc_id[N] = {};
    std::string log;
    std::vector<A> allocators;
    bool faults;
    long long next = 1;

    machine(Case& cc, std::vector<A> as, bool f) : c(cc), r(cc.rng), allocators(std::move(as)), faults(f)
    {
        for(int i = 0; i < N; ++i) fresh(i);
    }
    void fresh(int i)
    {
        v[i].reset();
        alloc_id[i] = static_cast<int>(r.below(allocators.size()));
        v[i].reset(new V(allocators[static_cast<std::size_t>(alloc_id[i])]));
        m[i].clear();
    }
    long long nv() { return next++; }
    void say(std::string s) { log += " " + s; c.more(" " + s); }
    std::vector<long long> values(std::size_t max)
    {
        std::vector<long long> x;
        for(std::size_t k = r.below(max + 1); k; --k) x.push_back(nv());
        return x;
    }
    bool pocma() const { return traits::propagate_on_container_move_assignment::value; }
    bool can_swap(int i, int j) const { return traits::propagate_on_container_swap::value || v[i]->get_allocator() == v[j]->get_allocator(); }

    std::string got(int i) { std::string s; for(auto& x : *v[i]) s += cat(track::get(x), " "); return s; }
    std::string want(int i) { std::string s; for(auto x : m[i]) s += cat(x, " "); return s; }

    void verify(int i)
    {
        V& x = *v[i];
        const V& k = x;
        auto& w = m[i];
        if(!(x.size() == w.size() && x.empty() == w.empty())) { CK(false, "size", x.size(), " want ", w.size(), " after", log); return; }
        CK(x.capacity() >= x.size(), "capacity", x.capacity());
        CK(x.dynamic_allocated() || x.capacity() == V::static_capacity(), "inline capacity", x.capacity());
        CK(static_cast<std::size_t>(x.end() - x.begin()) == w.size() && x.data() == &*x.begin() && k.cbegin() == x.begin() && k.cend() == x.end(), "iterators", "");
        bool same = true;
        for(std::size_t n = 0; n < w.size(); ++n) same = same && track::get(x[n]) == w[n];
        CK(same, "contents", "vector ", i, " is ", got(i), " want ", want(i), " after", log);
        if(!x.dynamic_allocated() && V::static_capacity())
        {
            auto b = reinterpret_cast<const char*>(x.data());
            CK(b >= reinterpret_cast<const char*>(&x) && b + sizeof(T) * x.capacity() <= reinterpret_cast<const char*>(&x + 1), "inline elements outside the object", "");
        }
        c.count(x.dynamic_allocated() ? "heap_states" : "inline_states");
    }
    void access(int i)
    {
        V& x = *v[i];
        papilio::small_vector_base<T, A>& base = x;
        const papilio::small_vector_base<T, A>& cb = x;
        auto& w = m[i];
        if(!w.empty())
        {
            CK(track::get(base.front()) == w.front() && track::get(cb.back()) == w.back() && track::get(base.at(w.size() - 1)) == w.back() && track::get(cb.at(0)) == w[0] && track::get(cb.front()) == w.front() && track::get(base.back()) == w.back() && &cb.front() == &*cb.begin(), "access", "");
            std::vector<long long> b, d;
            for(auto it = base.rbegin(); it != base.rend(); ++it) b.push_back(track::get(*it));
            for(auto it = cb.crbegin(); it != cb.crend(); ++it) d.push_back(track::get(*it));
            CK(b == std::vector<long long>(w.rbegin(), w.rend()) && b == d, "reverse iterators", "");
        }
        for(std::size_t n : {w.size(), w.size() + 1, std::size_t(-1)})
        {
            bool th = false;
            try { r.coin() ? (void)base.at(n) : (void)cb.at(n); } catch(const std::out_of_range&) { th = true; }
            CK(th, "at() out of range", n);
        }
        CK(cb.capacity() == x.capacity() && cb.max_size() > 0, "base", "");
        // far too much: refused, nothing changes
        if(std_alloc && r.chance(1, 4))
        {
            std::size_t n = r.pick<std::size_t>({cb.max_size() + 1, std::size_t(-1), std::size_t(-1) / 2 + 1 + w.size()}), cap = x.capacity();
            bool th = false;
            try { x.reserve(n); } catch(const std::length_error&) { th = true; }
            CK(th && x.capacity() == cap && x.size() == w.size(), "reserve too much", n);
            c.count("refused_sizes");
        }
    }
    // after a fault the elements that are there are taken as they are
    void resync()
    {
        for(int i = 0; i < N; ++i)
        {
            m[i].clear();
            for(auto& x : *v[i]) m[i].push_back(track::get(x));
            CK(v[i]->size() <= v[i]->capacity(), "capacity after a fault", log);
        }
    }
    void census()
    {
        if constexpr(tracked)
        {
            std::size_t n = 0;
            for(auto& x : m) n += x.size();
            CK(reg.live.size() == n, "number of living elements", reg.live.size(), " want ", n, " after", log);
        }
        if constexpr(!std_alloc)
            if constexpr(requires { allocators[0].id; })
            {
                std::size_t n = 0;
                for(int i = 0; i < N; ++i) n += v[i]->dynamic_allocated();
                CK(reg.blocks.size() == n, "number of allocations held", reg.blocks.size(), " want ", n, " after", log);
            }
    }

    void op()
    {
        int i = static_cast<int>(r.below(N)), j = static_cast<int>(r.below(N));
        V& x = *v[i];
        auto& w = m[i];
        int k = static_cast<int>(r.below(28));
        say(cat(k, "(", i, ",", j, ")"));
        std::size_t at = r.below(w.size() + 1);
        auto pos = x.cbegin() + static_cast<std::ptrdiff_t>(at);
        auto idx = [&] { return r.below(w.size()); };
        auto ret = [&](auto it, std::size_t p) { CK(it == x.begin() + static_cast<std::ptrdiff_t>(p) && track::get(*it) == w[p], "returned iterator", "op ", k, " at ", p, " after", log); };
        switch(k)
        {
        case 0: case 1: { long long n = nv(); x.push_back(make<T>(n)); w.push_back(n); break; }
        case 2: { long long n = nv(); auto& e = x.emplace_back(make<T>(n)); w.push_back(n); CK(&e == &x.back(), "emplace_back result", ""); break; }
        case 3: if constexpr(copyable) { long long n = nv(); const T t = make<T>(n); x.push_back(t); w.push_back(n); } break;
        case 4: // an element of its own
            if constexpr(copyable) if(!w.empty())
            {
                auto a = idx();
                long long n = w[a];
                if(r.coin()) x.push_back(x[a]); else x.emplace_back(std::as_const(x)[a]);
                w.push_back(n);
                c.count("own_element");
            }
            break;
        case 5: if(!w.empty()) { auto a = idx(); long long n = w[a]; x.push_back(std::move(x[a])); w[a] = std::is_same_v<T, long long> ? n : -777; w.push_back(n);
                    if constexpr(std::is_same_v<T, std::string>) { x[a] = make<T>(nv()); w[a] = next - 1; } c.count("own_element"); } break;
        case 6: case 7: { long long n = nv(); auto it = x.insert(pos, make<T>(n)); w.insert(w.begin() + static_cast<std::ptrdiff_t>(at), n); ret(it, at); break; }
        case 8: if constexpr(copyable) { long long n = nv(); const T t = make<T>(n); auto it = x.insert(pos, t); w.insert(w.begin() + static_cast<std::ptrdiff_t>(at), n); ret(it, at); } break;
        case 9: case 10:
            if constexpr(copyable) if(!w.empty())
            {
                auto a = idx();
                long long n = w[a];
                auto it = r.coin() ? x.insert(pos, x[a]) : x.emplace(pos, std::as_const(x)[a]);
                w.insert(w.begin() + static_cast<std::ptrdiff_t>(at), n);
                ret(it, at);
                c.count("own_element");
            }
            break;
        case 11:
            if constexpr(std::is_constructible_v<T, long long, long long> && !std::is_same_v<T, std::string>) { long long n = nv(); auto it = x.emplace(pos, n, 7ll); w.insert(w.begin() + static_cast<std::ptrdiff_t>(at), n * 100 + 7); ret(it, at); }
            break;
        case 12: if(!w.empty()) { x.pop_back(); w.pop_back(); } break;
        case 13: if(!w.empty()) for(std::size_t n = r.below(w.size()) + 1; n; --n) { x.pop_back(); w.pop_back(); } break;
        case 14: x.clear(); w.clear(); CK(x.empty(), "clear", ""); break;
        case 15:
            if constexpr(copyable)
            {
                std::size_t n = r.below(w.size() + 5);
                if(r.coin() || w.empty()) { long long val = nv(); T t = make<T>(val); x.resize(n, t); w.resize(n, val); }
                else { auto a = n < w.size() ? r.below(n + 1) : idx(); if(a >= w.size()) a = 0; long long val = w[a]; x.resize(n, x[a]); w.resize(n, val); c.count("own_element"); }
            }
            break;
        case 16:
            if constexpr(copyable && std::is_default_constructible_v<T>) { std::size_t n = r.below(w.size() + 5); x.resize(n); w.resize(n, std::is_same_v<T, std::string> ? -777 : 0); }
            break;
        case 17: { std::size_t n = r.below(14), cap = x.capacity(); x.reserve(n); CK(x.capacity() >= n && x.capacity() >= cap, "reserve", n, " capacity ", x.capacity()); break; }
        case 18: x.shrink_to_fit(); CK(x.size() <= V::static_capacity() ? !x.dynamic_allocated() : x.capacity() == x.size(), "shrink_to_fit", x.capacity()); c.count("shrinks"); break;
        case 19: case 20:
        {
            if constexpr(!copyable) break;
            else
            {
                auto vals = values(7);
                bool append = k == 20;
                std::vector<T> src;
                for(auto y : vals) src.push_back(make<T>(y));
                switch(r.below(5))
                {
                case 0: append ? x.append_range(src) : x.assign(src.begin(), src.end()); break;
                case 1: { std::list<T> l(src.begin(), src.end()); append ? x.append_range(l) : x.assign_range(l); break; }
                case 2: { std::forward_list<T> l(src.begin(), src.end()); append ? x.append_range(l) : x.assign(l.begin(), l.end()); break; }
                case 3: append ? x.append_range(std::initializer_list<T>{}) : x.assign({}); vals.clear(); break;
                default:
                    if constexpr(std::is_same_v<T, long long>)
                    {
                        std::stringstream ss;
                        for(auto y : vals) ss << y << ' ';
                        std::istream_iterator<long long> a(ss), b;
                        append ? x.append_range(std::ranges::subrange(a, b)) : x.assign(a, b);
                    }
                    else { V l(src.begin(), src.end(), x.get_allocator()); append ? x.append_range(l) : x.assign_range(l); }
                    break;
                }
                if(!append) w.clear();
                w.insert(w.end(), vals.begin(), vals.end());
                c.count("ranges");
            }
            break;
        }
        case 21: // copies
            if constexpr(copyable)
            {
                auto p = std::make_unique<V>(std::as_const(*v[j]));
                bool ok = p->get_allocator() == v[j]->get_allocator();
                if(i == j) break;
                v[i] = std::move(p);
                m[i] = m[j];
                if constexpr(!std::is_same_v<A, std::pmr::polymorphic_allocator<T>>) { CK(ok, "allocator of a copy", ""); }
                c.count("copies");
            }
            break;
        case 22:
            if constexpr(copyable) { x = std::as_const(*v[j]); m[i] = m[j]; c.count(i == j ? "self_assignments" : "copies"); }
            break;
        case 23:
        {
            // move construction
            if(i == j) break;
            std::unique_ptr<V> p(new V(std::move(*v[j])));
            CK(p->get_allocator() == v[j]->get_allocator(), "allocator after moving", "");
            v[i] = std::move(p);
            m[i] = m[j];
            m[j].clear();
            c.count("moves");
            break;
        }
        case 24:
        {
            if(i == j) break;
            bool eq = x.get_allocator() == v[j]->get_allocator();
            A ra = v[j]->get_allocator(), la = x.get_allocator();
            if(!eq) c.count("moves_between_allocators");
            if(faults && reg.arm >= 0) reg.arm = std::min<long long>(reg.arm, 3);
            x = std::move(*v[j]);
            CK(x.get_allocator() == (pocma() ? ra : la), "allocator after move assignment", "");
            m[i] = m[j];
            // what is left behind is valid but unspecified
            m[j].clear();
            for(auto& y : *v[j]) m[j].push_back(track::get(y));
            c.count("moves");
            break;
        }
        case 25: case 26:
        {
            if(!can_swap(i, j)) break;
            if(faults && reg.arm >= 0) reg.arm = std::min<long long>(reg.arm, 3);
            A ra = v[j]->get_allocator(), la = x.get_allocator();
            if(r.coin()) x.swap(*v[j]);
            else { using std::swap; swap(x, *v[j]); }
            if(i != j) std::swap(m[i], m[j]);
            if(traits::propagate_on_container_swap::value) CK(x.get_allocator() == ra && v[j]->get_allocator() == la, "allocators after swap", "");
            c.count("swaps");
            break;
        }
        default:
            if(r.coin()) fresh(i);
            else if constexpr(copyable)
            {
                std::vector<T> src;
                auto vals = values(6);
                for(auto y : vals) src.push_back(make<T>(y));
                auto p = r.coin() || src.size() != 2 ? std::make_unique<V>(src.begin(), src.end(), x.get_allocator()) : std::unique_ptr<V>(new V({src[0], src[1]}, x.get_allocator()));
                v[i] = std::move(p);
                m[i] = vals;
            }
            break;
        }
    }

    void run()
    {
        std::size_t n = 5 + r.below(r.chance(1, 4) ? 80 : 25);
        for(std::size_t k = 0; k < n && !c.failed; ++k)
        {
            if(faults && r.chance(1, 2)) reg.arm = r.range(0, 9);
            bool faulted = false;
            try { op(); }
            catch(const fault&) { faulted = true; }
            reg.arm = -1;
            if(faulted) { say("!"); c.count("faults"); resync(); }
            for(int i = 0; i < N && !c.failed; ++i) verify(i);
            if(!c.failed) census();
            if(!c.failed && r.chance(1, 4)) access(static_cast<int>(r.below(N)));
            c.count("steps");
        }
        for(auto& p : v) p.reset();
        if constexpr(tracked) CK(reg.live.empty() && reg.constructed == reg.destroyed, "elements left over", reg.live.size(), " after", log);
        CK(reg.blocks.empty(), "memory left over", reg.blocks.size(), " after", log);
        c.count("elements_constructed", reg.constructed);
        c.count("elements_moved", reg.moved);
    }
};

template <typename T, std::size_t Cap, typename A>
void run_machine(Case& c, const char* name, std::vector<A> as, bool faults)
{
    using V = papilio::small_vector<T, Cap, A>;
    reg.reset(&c);
    c.desc(cat(name, " inline capacity ", Cap, faults ? " with faults:" : ":"));
    {
        machine<V> mc(c, std::move(as), faults);
        mc.run();
        c.nontrivial(cat(name, Cap, mc.log));
        c.sample(cat(name, " capacity ", Cap, ":", mc.log.substr(0, 120)));
    }
    reg.reset(nullptr);
}
template <typename T, std::size_t Cap>
void with_std(Case& c, const char* name, bool faults = false) { run_machine<T, Cap, std::allocator<T>>(c, name, {{}}, faults); }
template <typename T, std::size_t Cap, bool POCMA, bool POCS>
void with_ids(Case& c, const char* name, bool faults = false)
{
    using A = alloc<T, POCMA, POCS>;
    run_machine<T, Cap, A>(c, name, {A(1), A(2)}, faults);
}
template <typename T, std::size_t Cap>
void with_pmr(Case& c, const char* name)
{
    using A = std::pmr::polymorphic_allocator<T>;
    std::pmr::unsynchronized_pool_resource r1;
    struct counting : std::pmr::memory_resource
    {
        std::unordered_map<void*, std::size_t> held;
        void* do_allocate(std::size_t n, std::size_t a) override { void* p = ::operator new(n, std::align_val_t(a)); held[p] = n; return p; }
        void do_deallocate(void* p, std::size_t n, std::size_t a) override
        {
            auto it = held.find(p);
            if(it == held.end()) { reg.bad("memory returned to another resource"); return; }
            if(it->second != n) reg.bad("memory returned with another size");
            held.erase(it);
            ::operator delete(p, std::align_val_t(a));
        }
        bool do_is_equal(const std::pmr::memory_resource& o) const noexcept override { return this == &o; }
    } a, b;
    auto old = std::pmr::set_default_resource(&a);
    run_machine<T, Cap, A>(c, name, {A(&a), A(&b)}, false);
    std::pmr::set_default_resource(old);
    if(!a.held.empty() || !b.held.empty()) c.fail("memory left over", "");
}
