#include "ops.hpp"

VH_STREAM(containers, 50000, 2500000)
{
    px::with_char(static_cast<int>(c.rng.below(5)), [&](auto t)
    {
        using C = decltype(t);
        using S = u::basic_string_container<C>;
        Rng& r = c.rng;
        U32 v = text(r, r.chance(1, 8) ? 40 : 9);
        px::exact<C> e(ref::enc<C>(v));
        bool own = r.coin();
        describe<C>(c, v, own ? "owning container" : "borrowing container");
        S s = own ? S(papilio::independent, std::basic_string<C>(e.view())) : S(e.view());
        for(int k = 0; k < 4; ++k)
        {
            read_op<C>(c, s, v);
            c.count("container_ops");
            // edit
            int op = static_cast<int>(r.below(12));
            c.more(cat(" edit", op));
            switch(op)
            {
            case 0: { char32_t x = px::any_cp(r); s.push_back(u::codepoint(x)); v += x; break; }
            case 1: { char32_t x = r.range(1, 0x7e); s.push_back(static_cast<C>(x)); v += x; break; }
            case 2: { char32_t x = px::any_cp(r); std::size_t n = r.below(5); s.assign(n, u::codepoint(x)); v = U32(n, x); break; }
            case 3: { std::size_t n = r.below(5); s.assign(n, static_cast<C>('q')); v = U32(n, U'q'); break; }
            case 4: case 5:
                if(!v.empty())
                {
                    std::size_t i = r.below(v.size());
                    char32_t x = px::any_cp(r);
                    if(r.coin()) s[i] = u::codepoint(x);
                    else if(r.coin()) s.index(i) = u::codepoint(x);
                    else { s.index(reverse_index, v.size() - 1 - i) = u::codepoint(x); }
                    v[i] = x;
                    c.count("element_writes");
                }
                break;
            case 6:
                if(!v.empty()) // through an iterator, walking on afterwards
                {
                    std::size_t i = 0;
                    for(auto it = s.begin(); it != s.end(); ++it, ++i)
                    {
                        if(i >= v.size()) break;
                        char32_t cur = *it;
                        CK(cur == v[i], "mutable iteration", i, " got ", hex(cur));
                        if(r.chance(1, 3)) { char32_t x = px::any_cp(r); *it = u::codepoint(x); v[i] = x; c.count("element_writes"); }
                    }
                    CK(i == v.size(), "mutable iteration length", i);
                }
                break;
            case 7:
                if(!v.empty()) // backwards
                {
                    std::size_t i = v.size();
                    for(auto it = s.end(); it != s.begin();)
                    {
                        --it;
                        --i;
                        char32_t cur = *it;
                        CK(cur == v[i], "mutable backward iteration", i, " got ", hex(cur));
                        if(i == 0) break;
                        if(r.chance(1, 4)) { char32_t x = px::any_cp(r); *it = u::codepoint(x); v[i] = x; }
                    }
                    CK(i == 0, "mutable backward iteration length", i);
                }
                break;
            case 8:
            {
                U32 x = text(r, 6);
                std::vector<u::codepoint> cps;
                for(char32_t k2 : x) cps.emplace_back(k2);
                if constexpr(std::is_same_v<C, char32_t>) s.assign_range(x);
                else s.assign_range(cps);
                v = x;
                break;
            }
            case 9:
            {
                U32 x = text(r, 6);
                auto xs = ref::enc<C>(x);
                s.assign_range(xs);
                v = x;
                break;
            }
            case 10:
            {
                U32 x = text(r, 6);
                auto xs = ref::enc<C>(x);
                s.resize_and_overwrite(xs.size() + 3, [&](C* p, std::size_t m) { CK(m == xs.size() + 3, "resize_and_overwrite size", m); std::copy(xs.begin(), xs.end(), p); return xs.size(); });
                v = x;
                break;
            }
            default:
                if(!v.empty() && r.coin())
                {
                    // reading through the mutable iterators in reverse
                    U32 g;
                    for(auto it = s.rbegin(); it != s.rend(); ++it) { char32_t x = *it; g += x; }
                    CK(g == U32(v.rbegin(), v.rend()), "mutable reverse iterators", show(g));
                    auto ci = static_cast<u::codepoint_iterator<C>>(std::next(s.begin(), static_cast<std::ptrdiff_t>(r.below(v.size()))));
                    char32_t x = *ci;
                    CK(v.find(x) != v.npos, "iterator conversion", hex(x));
                }
                break;
            }
            CK(shows<C>(s, v), "text after edit", "edit ", op, " got ", show(sv(s)), " want ", show(v));
            c.count("edits");
            if(c.failed) break;
        }
        CK(e.view() == std::basic_string_view<C>(e.view()), "", "");
        c.nontrivial(cat(sizeof(C), own, show(v), c.index % 64));
    });
}

