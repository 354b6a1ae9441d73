#pragma once
// C19: threads that share what nobody modifies
#include "wild.hpp"
#include <atomic>
#include <barrier>
#include <cstdio>
#include <locale>
#include <sstream>
#include <thread>
#include <sys/wait.h>
#include <unistd.h>
#include <papilio/color.hpp>
#include <papilio/locale.hpp>
#include <papilio/print.hpp>
using namespace vh;
using ref::U32;

namespace c19
{
enum paint { red = 1, green = 2, blue = 30 };
struct streamed { int v; };
template <typename C>
std::basic_ostream<C>& operator<<(std::basic_ostream<C>& os, const streamed& s) { return os << static_cast<C>('s') << s.v; }

// What one thread saw
template <typename C>
struct step
{
    int what;
    std::size_t with;
    std::uint64_t seed;
    px::result<C> got;
};

template <typename C>
struct shared
{
    using S = std::basic_string<C>;
    wild::pack<px::ctx_t<C>> pack;
    std::vector<S> formats;
    std::vector<papilio::utf::basic_string_container<C>> containers; // owning and borrowing
    std::vector<S> texts;
    std::vector<int> numbers{3, 1, 4, 1, 5, 9};
    std::map<int, S> map;
    std::locale loc = std::locale::classic();
    papilio::formatter<int, C> int_formatter;
    papilio::formatter<std::vector<int>, C> list_formatter;
    wild::custom cu{7};
    streamed st{42};
    std::tm tm{};
    std::optional<papilio::basic_format_args_ref<px::ctx_t<C>>> view;
    std::optional<papilio::basic_format_arg<px::ctx_t<C>>> arg;

    explicit shared(Rng& r)
    {
        pack.fill(r);
        for(int i = 0; i < 5; ++i)
        {
            U32 f;
            do f = wild::format_string(r, pack.sh);
            while(wild::digits(f) > 3);
            formats.push_back(ref::enc<C>(f));
        }
        for(int i = 0; i < 4; ++i) texts.push_back(wild::pack<px::ctx_t<C>>::str(r, 30));
        for(int i = 0; i < 4; ++i)
        {
            if(r.coin()) containers.emplace_back(papilio::independent, texts[static_cast<std::size_t>(i)]);
            else containers.emplace_back(texts[static_cast<std::size_t>(i)]);
        }
        for(int i = 0; i < 3; ++i) map[i] = texts[static_cast<std::size_t>(i)];
        tm.tm_year = 100; tm.tm_mon = static_cast<int>(r.below(12)); tm.tm_mday = 5; tm.tm_wday = static_cast<int>(r.below(7));
        view.emplace(pack.args);
        arg.emplace(cu);
        C two[8] = {static_cast<C>('n'), static_cast<C>(':'), static_cast<C>('>'), static_cast<C>('4')};
        spec = S(two, 4);
        {
            papilio::basic_format_parse_context<px::ctx_t<C>> pc(std::basic_string_view<C>(spec), pack.args);
            list_formatter.parse(pc);
        }
    }
    S spec;

    static constexpr int kinds = 16;
    std::size_t count(int what) const
    {
        switch(what)
        {
        case 0: case 1: case 2: return formats.size();
        case 3: case 4: return containers.size();
        default: return texts.size();
        }
    }
    px::result<C> act(int what, std::size_t n, std::uint64_t seed) const
    {
        using V = std::basic_string_view<C>;
        Rng r(seed);
        auto lit = [](const char* s) { return ref::enc<C>(ref::ascii(s)); };
        return px::capture<C>([&]() -> S
        {
            switch(what)
            {
            case 0: return papilio::vformat(V(formats[n]), pack.args);
            case 1:
            {
                S t;
                papilio::vformat_to(std::back_inserter(t), V(formats[n]), *view);
                return t;
            }
            case 2:
            {
                S t;
                papilio::formatted_range<C> range(V(formats[n]), pack.args);
                for(C x : range) t.push_back(x);
                return t;
            }
            case 3: // the containers themselves
            {
                const auto& c = containers[n];
                S t = S(V(c));
                t += lit(std::to_string(c.length()).c_str());
                for(papilio::utf::codepoint cp : c) cp.append_to(t);
                for(auto it = c.rbegin(); it != c.rend(); ++it) papilio::utf::codepoint(*it).append_to(t);
                if(c.length() > 2) t += S(V(c.substr(1, 2)));
                t += lit(c == containers[(n + 1) % containers.size()] ? "=" : "#");
                for(papilio::utf::codepoint cp : c) t += lit(std::to_string(cp.estimate_width()).c_str());
                return t;
            }
            case 4:
            {
                auto copy = containers[n];
                if(r.coin()) copy.push_back(papilio::utf::codepoint(U'文'));
                S f = lit("{:?}|{:*>12}|{0[1:3]}|{0.length}");
                return papilio::format(V(f), copy, containers[n]);
            }
            case 5:
            {
                S f = lit("{}{:>5}{[-1]}{:n:x}");
                return papilio::format(V(f), texts[n], texts[n].size(), texts[n], numbers);
            }
            case 6:
            {
                S f = lit("{} {} {:n} {.length}");
                return papilio::format(V(f), map, std::pair<const int&, const S&>(numbers[n], texts[n]), numbers, texts[n]);
            }
            case 7:
            {
                S f = lit("{} {} {}");
                return papilio::format(V(f), static_cast<wild::pet>(n), paint::green, static_cast<paint>(n));
            }
            case 8: // formatter objects
            {
                S t;
                using ctx = px::ctx_t<C>;
                ctx fc(std::back_inserter(t), *view);
                fc.advance_to(int_formatter.format(numbers[n], fc));
                fc.advance_to(list_formatter.format(numbers, fc));
                return t;
            }
            case 9: // arguments
            {
                auto a = *arg;
                auto b = a.attribute(papilio::basic_attribute_name<C>(lit("name")));
                auto d = a.index(static_cast<papilio::ssize_t>(n));
                S f = lit("{}{}");
                return papilio::format(V(f), b, d);
            }
            case 10:
            {
                S f = lit("{:.3f} {:e} {:g} {:a} {}");
                return papilio::format(V(f), 1.0 / static_cast<double>(n + 1), 12345.678 * static_cast<double>(n), 1e100, 0.1f, 3.5L);
            }
            case 11:
            {
                S f = lit("{:%Y-%m-%d %A} {}");
                return papilio::format(V(f), tm, tm);
            }
            case 12:
            {
                S f = lit("{$ {0} > 1 ? '{}' : {1:x}} {$ !{2} ? 'none' : $ {0.length} == 3 ? 'three' : 'other'}");
                return papilio::format(V(f), texts[n], numbers[n], static_cast<int>(n));
            }
            case 13:
                if constexpr(std::is_same_v<C, char> || std::is_same_v<C, wchar_t>)
                {
                    S f = lit("{:L} {:L} {}");
                    return papilio::format(loc, V(f), n % 2 == 0, 1.5, st);
                }
                else
                    return papilio::format(V(lit("{:#x}")), numbers[n]);
            case 14:
                if constexpr(std::is_same_v<C, char>)
                {
                    // a path, a style, joined values
                    return papilio::format("{} {} {}", std::filesystem::path("a/b"), papilio::styled(papilio::fg(papilio::color::red), texts[n]), papilio::join(numbers, "; "));
                }
                else
                    return S(papilio::format(V(lit("{:^9}")), true));
            default: // fails
            {
                S f = lit(n == 0 ? "{1}" : n == 1 ? "{0:q}" : n == 2 ? "{0" : "{0['a']}");
                return papilio::format(V(f), numbers[n]);
            }
            }
        });
    }
};

struct pause
{
    Rng& r;
    void operator()() const
    {
        switch(r.below(6))
        {
        case 0: std::this_thread::yield(); break;
        case 1: for(std::size_t i = r.below(400); i > 0; --i) std::atomic_signal_fence(std::memory_order_seq_cst); break;
        default: break;
        }
    }
};

// n threads that start together; each does its own random sequence of things
template <typename C>
bool together(Case& c, bool in_child)
{
    Rng& r = c.rng;
    const shared<C> s(r);
    const std::size_t threads = static_cast<std::size_t>(r.range(2, 5));
    std::vector<std::vector<step<C>>> did(threads);
    const bool alike = r.chance(1, 3); // everyone does the same at the same time
    std::uint64_t seed0 = r.next();
    std::vector<std::uint64_t> seeds;
    for(std::size_t i = 0; i < threads; ++i) seeds.push_back(r.next());
    std::barrier start(static_cast<std::ptrdiff_t>(threads));
    std::vector<std::thread> pool;
    for(std::size_t i = 0; i < threads; ++i)
        pool.emplace_back([&, i]
        {
            Rng mine(alike ? seed0 : seeds[i]), wait(seeds[i] + 1);
            auto& log = did[i];
            const std::size_t n = static_cast<std::size_t>(mine.range(4, 12));
            start.arrive_and_wait();
            for(std::size_t k = 0; k < n; ++k)
            {
                int what = static_cast<int>(mine.below(shared<C>::kinds));
                std::size_t with = mine.below(s.count(what));
                std::uint64_t seed = mine.next();
                pause{wait}();
                log.push_back({what, with, seed, s.act(what, with, seed)});
            }
        });
    for(auto& t : pool) t.join();
    // alone
    bool ok = true;
    std::size_t steps = 0;
    for(std::size_t i = 0; i < threads; ++i)
        for(auto& st : did[i])
        {
            ++steps;
            auto alone = s.act(st.what, st.with, st.seed);
            bool same = alone.err == st.got.err && alone.s == st.got.s && alone.what == st.got.what;
            ok = ok && same;
            if(!in_child)
                c.check(same, cat("differs-", st.what), [&] { return cat("thread ", i, " action ", st.what, " on ", st.with, ": alone ", alone.show(), " together ", st.got.show()); });
        }
    if(!in_child)
    {
        c.count("steps_compared", steps);
        c.count("thread_groups");
        c.nontrivial(cat(seed0, threads, steps));
    }
    return ok;
}
template <typename C>
bool together_any(Case& c, bool in_child);
} // namespace c19
