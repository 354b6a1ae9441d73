// Common harness support: seeded case streams, crash attribution, result records.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <functional>
#include <initializer_list>
#include <stdexcept>
#include <string>
#include <string_view>
#include <type_traits>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <vector>

namespace vh
{
inline std::uint64_t mix64(std::uint64_t z)
{
    z += 0x9E3779B97F4A7C15ull;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}

inline std::uint64_t hash_bytes(const void* p, std::size_t n, std::uint64_t h = 0xcbf29ce484222325ull)
{
    const unsigned char* b = static_cast<const unsigned char*>(p);
    for(std::size_t i = 0; i < n; ++i)
        h = (h ^ b[i]) * 0x100000001b3ull;
    return mix64(h ^ n);
}

inline std::uint64_t hash_str(std::string_view s, std::uint64_t h = 0xcbf29ce484222325ull)
{
    return hash_bytes(s.data(), s.size(), h);
}

class Rng
{
public:
    explicit Rng(std::uint64_t s = 1)
        : m_s(mix64(s)) {}

    std::uint64_t next()
    {
        m_s += 0x9E3779B97F4A7C15ull;
        std::uint64_t z = m_s;
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }

    // [0, n)
    std::uint64_t below(std::uint64_t n)
    {
        return n == 0 ? 0 : next() % n;
    }

    // [a, b]
    std::int64_t range(std::int64_t a, std::int64_t b)
    {
        return a + static_cast<std::int64_t>(below(static_cast<std::uint64_t>(b - a) + 1));
    }

    bool chance(unsigned num, unsigned den)
    {
        return below(den) < num;
    }

    bool coin()
    {
        return (next() >> 33) & 1;
    }

    template <typename T>
    const T& pick(const std::vector<T>& v)
    {
        return v[below(v.size())];
    }

    template <typename T, std::size_t N>
    const T& pick(const T (&v)[N])
    {
        return v[below(N)];
    }

    template <typename T>
    T pick(std::initializer_list<T> v)
    {
        return *(v.begin() + below(v.size()));
    }

private:
    std::uint64_t m_s;
};

bool thorough();
std::uint64_t seed();

struct Case
{
    Rng rng;
    const char* stream;
    std::uint64_t index;
    bool failed = false;

    // Describe what is about to be run. Kept in a shared-memory page so that a crash can be attributed.
    void desc(std::string_view s);
    // More context, appended to the description.
    void more(std::string_view s);
    // Record a violation (the case continues).
    void fail(std::string_view key, std::string_view detail);
    // The case was non-trivial; signature identifies what was explored.
    void nontrivial(std::string_view sig);
    void nontrivial(std::uint64_t sig);
    // Count an observed event.
    void count(const char* what, std::uint64_t n = 1);
    // One oracle evaluation.
    void eval(std::uint64_t n = 1);
    void sample(std::string_view s);

    void check(bool ok, std::string_view key, std::string_view detail)
    {
        eval();
        if(!ok)
            fail(key, detail);
    }

    template <typename F>
    requires std::is_invocable_v<F>
    void check(bool ok, std::string_view key, F&& detail)
    {
        eval();
        if(!ok)
            fail(key, detail());
    }
};

using case_fn = void (*)(Case&);

struct Stream
{
    Stream(const char* name, std::uint64_t n_quick, std::uint64_t n_thorough, case_fn fn);
};

#define VH_STREAM(name, nq, nt)                                                  \
    static void vh_stream_##name(::vh::Case& c);                                 \
    static ::vh::Stream vh_stream_reg_##name(#name, nq, nt, &vh_stream_##name);  \
    static void vh_stream_##name(::vh::Case& c)

// Printable form of a byte string / code point sequence
std::string show(std::string_view s);
std::string show(std::u32string_view s);
std::string show(std::u16string_view s);
std::string show(std::u8string_view s);
std::string show(std::wstring_view s);

inline std::string str(const std::string& s) { return s; }
inline std::string str(std::string_view s) { return std::string(s); }
inline std::string str(const char* s) { return s; }
inline std::string str(bool b) { return b ? "true" : "false"; }
template <typename T>
requires(std::is_arithmetic_v<T>)
std::string str(T v) { return std::to_string(v); }

template <typename... Ts>
std::string cat(const Ts&... ts)
{
    std::string r;
    ((r += str(ts)), ...);
    return r;
}

// Track live heap bytes / blocks (C++ operator new/delete), and inject allocation failures.
struct AllocGuard
{
    // Fail the n-th allocation from now on (1-based); 0: never.
    static void fail_at(std::uint64_t n);
    static void limit(std::size_t bytes); // larger allocations fail
    static std::uint64_t allocs();   // allocations since fail_at()
    static std::int64_t live();      // live blocks
    static bool fired();
};
} // namespace vh
