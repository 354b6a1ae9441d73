#pragma once
// Elements and allocators that report every life-time mistake
#include <memory>
#include <unordered_map>
#include <unordered_set>
#include "vh.hpp"

namespace track
{
struct fault {};

struct registry
{
    vh::Case* c = nullptr;
    std::unordered_set<const void*> live;
    std::uint64_t constructed = 0, destroyed = 0, moved = 0, assigned = 0;
    long long arm = -1; // operations until the next fault
    bool fired = false;
    std::unordered_map<const void*, std::pair<std::size_t, int>> blocks; // pointer -> count, allocator id
    std::uint64_t allocations = 0;

    void bad(const char* what) { if(c) c->fail(what, ""); }
    void tick()
    {
        if(arm < 0) return;
        if(arm-- == 0) { arm = -1; fired = true; throw fault(); }
    }
    void born(const void* p) { if(!live.insert(p).second) bad("an element is constructed over a living one"); ++constructed; }
    void dies(const void* p) { if(live.erase(p) == 0) bad("something that is not alive is destroyed"); ++destroyed; }
    void uses(const void* p) { if(!live.count(p)) bad("an element that is not alive is used"); }
    void reset(vh::Case* cc) { *this = registry(); c = cc; }
};
inline registry reg;

// Mode 0: nothing throws on moving; 1: moves may throw; 2: move construction does not throw, move assignment may
template <int Mode, std::size_t Align = alignof(long long)>
struct alignas(Align) elem
{
    long long v;
    elem() : v(0) { reg.tick(); reg.born(this); }
    elem(long long x) : v(x) { reg.tick(); reg.born(this); }
    elem(long long a, long long b) : v(a * 100 + b) { reg.tick(); reg.born(this); }
    elem(const elem& o) : v((reg.uses(&o), o.v)) { reg.tick(); reg.born(this); }
    elem(elem&& o) noexcept(Mode != 1) : v((reg.uses(&o), o.v))
    {
        if constexpr(Mode == 1) reg.tick();
        if(reinterpret_cast<std::uintptr_t>(this) % Align) reg.bad("misaligned element");
        o.v = -777;
        reg.born(this);
        ++reg.moved;
    }
    elem& operator=(const elem& o)
    {
        reg.uses(this);
        reg.uses(&o);
        reg.tick();
        v = o.v;
        ++reg.assigned;
        return *this;
    }
    elem& operator=(elem&& o) noexcept(Mode == 0)
    {
        reg.uses(this);
        reg.uses(&o);
        if constexpr(Mode != 0) reg.tick();
        if(this != &o) { v = o.v; o.v = -777; }
        ++reg.assigned;
        return *this;
    }
    ~elem() { reg.dies(this); v = -999; }
    long long get() const { reg.uses(this); return v; }
};

// like std::allocator: an element type with moves only
struct move_only
{
    std::unique_ptr<long long> p;
    move_only(long long x = 0) : p(new long long(x)) { reg.born(this); }
    move_only(move_only&& o) noexcept : p((reg.uses(&o), std::move(o.p))) { reg.born(this); ++reg.moved; }
    move_only& operator=(move_only&& o) noexcept { reg.uses(this); reg.uses(&o); p = std::move(o.p); return *this; }
    ~move_only() { reg.dies(this); }
    long long get() const { reg.uses(this); return p ? *p : -777; }
};

template <typename T, bool POCMA, bool POCS, bool POCCA = false>
struct alloc
{
    using value_type = T;
    using propagate_on_container_move_assignment = std::bool_constant<POCMA>;
    using propagate_on_container_swap = std::bool_constant<POCS>;
    using propagate_on_container_copy_assignment = std::bool_constant<POCCA>;
    using is_always_equal = std::false_type;
    template <typename U>
    struct rebind { using other = alloc<U, POCMA, POCS, POCCA>; };

    int id = 0;
    alloc() = default;
    explicit alloc(int i) : id(i) {}
    template <typename U>
    alloc(const alloc<U, POCMA, POCS, POCCA>& o) noexcept : id(o.id) {}
    bool operator==(const alloc& o) const noexcept { return id == o.id; }

    T* allocate(std::size_t n)
    {
        reg.tick();
        T* p = static_cast<T*>(::operator new(n * sizeof(T), std::align_val_t(alignof(T))));
        reg.blocks[p] = {n, id};
        ++reg.allocations;
        return p;
    }
    void deallocate(T* p, std::size_t n) noexcept
    {
        auto it = reg.blocks.find(p);
        if(it == reg.blocks.end()) { reg.bad("memory returned that was not allocated"); return; }
        if(it->second.first != n) reg.bad("memory returned with another size");
        if(it->second.second != id) reg.bad("memory returned to another allocator");
        reg.blocks.erase(it);
        ::operator delete(p, std::align_val_t(alignof(T)));
    }
};

inline long long get(long long v) { return v; }
inline long long get(const std::string& s) { return s.empty() ? -777 : std::stoll(s); }
template <typename T>
requires requires(const T& t) { t.get(); }
long long get(const T& t) { return t.get(); }

template <typename T>
T make(long long v)
{
    // long enough to own memory now and then
    if constexpr(std::is_same_v<T, std::string>) { std::string s = std::to_string(v); if(v % 2) s += std::string(20, ' '); return s; }
    else return T(v);
}
} // namespace track
