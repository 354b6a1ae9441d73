#include "ops.hpp"

// Comparison with a close text, in any encoding
template <typename C, typename S>
static void compare_op(Case& c, const S& s, const U32& v)
{
    Rng& r = c.rng;
    std::size_t n = v.size();
        U32 x = v;
        switch(r.below(6))
        {
        case 0: if(n) x.pop_back(); break;
        case 1: x += px::any_cp(r); break;
        case 2: if(n) x[r.below(n)] = px::any_cp(r); break;
        case 3: if(n) { char32_t& k = x[r.below(n)]; char32_t k2 = k + (r.coin() ? 1 : char32_t(-1)); if(k2 < 0xD800 || (k2 >= 0xE000 && k2 < 0x110000)) k = k2; } break;
        case 4: x = text(r, 6); break;
        default: break;
        }
        int want = v < x ? -1 : x < v ? 1 : 0;
        px::with_char(static_cast<int>(r.below(5)), [&](auto t)
        {
            using D = decltype(t);
            auto xs = ref::enc<D>(x);
            bool no_null = x.find(U'\0') == x.npos;
            u::basic_string_ref<D> xr(xs);
            std::basic_string_view<D> xv(xs);
            u::basic_string_container<D> xc(xs);
            auto one = [&](auto&& o, const char* what)
            {
                CK(s.compare(o) == want, "compare", what, " ", s.compare(o), " want ", want, " other ", show(x));
                CK((s == o) == (want == 0) && (s != o) == (want != 0), "==", what, " other ", show(x));
                CK((o == s) == (want == 0), "== reversed", what, " other ", show(x));
                if constexpr(requires { s <=> o; })
                {
                auto rel = s <=> o;
                CK((rel < 0) == (want < 0) && (rel > 0) == (want > 0), "<=>", what, " other ", show(x));
                CK((s < o) == (want < 0) && (s >= o) == (want >= 0), "<", what, " other ", show(x));
                CK((o < s) == (want > 0) && (o > s) == (want < 0), "< reversed", what, " other ", show(x));
                }
            };
            switch(r.below(5))
            {
            case 0: one(xr, "ref"); break;
            case 1: one(xv, "string_view"); break;
            case 2: one(xs, "string"); break;
            case 3:
                if constexpr(is_ref<S, C>) CK((s == xc) == (want == 0) && (xc == s) == (want == 0), "== container", show(x));
                else one(xc, "container");
                break;
            default:
                if(no_null) one(xs.c_str(), "c string");
                break;
            }
            c.count(sizeof(C) == sizeof(D) ? "comparisons_same_encoding" : "comparisons_across_encodings");
        });
        
}

VH_STREAM(compare_views, 25000, 1500000)
{
    px::with_char(static_cast<int>(c.rng.below(5)), [&](auto t)
    {
        using C = decltype(t);
        using S = u::basic_string_ref<C>;
        U32 v = text(c.rng, c.rng.chance(1, 8) ? 40 : 9);
        describe<C>(c, v, "compared string_ref");
        px::exact<C> e(ref::enc<C>(v));
        S s(e.view());
        for(int k = 0; k < 3; ++k) compare_op<C>(c, s, v);
        c.nontrivial(cat(sizeof(C), show(v), c.index % 64));
    });
}
