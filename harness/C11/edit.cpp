#include "ops.hpp"

static volatile char32_t sink;

VH_STREAM(edits, 40000, 2500000)
{
    px::with_char(static_cast<int>(c.rng.below(5)), [&](auto t)
    {
        using C = decltype(t);
        using S = u::basic_string_container<C>;
        using V = std::basic_string_view<C>;
        Rng& r = c.rng;
        std::basic_string<C> v = hostile_units<C>(r, r.chance(1, 8) ? 24 : 7);
        px::exact<C> e(v);
        std::basic_string<C> orig = v;
        bool own = r.coin();
        c.desc(units_text<C>(v) + (own ? " owned" : " borrowed"));
        S s = own ? S(papilio::independent, e.view()) : S(e.view());
        for(int k = 0; k < 5; ++k)
        {
            int op = static_cast<int>(r.below(9));
            c.more(cat(" edit", op));
            char32_t x = px::any_cp(r);
            auto xs = ref::enc<C>(U32(1, x));
            switch(op)
            {
            case 0: s.push_back(u::codepoint(x)); v += xs; break;
            case 1: { C y = static_cast<C>(r.next()); s.push_back(y); v += y; break; }
            case 2: { auto y = hostile_units<C>(r, 5); s.assign_range(y); v = y; break; }
            case 3: case 4: // write one element
                if(!v.empty())
                {
                    std::size_t i = r.below(v.size());
                    std::size_t off = s.get_offset(i);
                    if(off == u::npos) break;
                    s[i] = u::codepoint(x);
                    V g = s.to_string_view();
                    bool ok = false;
                    for(std::size_t len = 1; len <= 4 && off + len <= v.size(); ++len)
                        ok = ok || g == v.substr(0, off) + xs + v.substr(off + len);
                    CK(ok, "element write changes only the element", "index ", i, " offset ", off, " got ", units_text<C>(g), " from ", units_text<C>(v));
                    v = g;
                    c.count("element_writes");
                }
                break;
            case 5: // write while iterating
            {
                std::size_t steps = 0, guard = 4 * v.size() + 8;
                for(auto it = s.begin(); it != s.end() && steps < guard; ++it, ++steps)
                {
                    char32_t y = *it;
                    sink = y;
                    if(r.chance(1, 3)) { *it = u::codepoint(px::any_cp(r)); c.count("element_writes"); }
                }
                CK(steps < guard, "mutable iteration ends", steps);
                v = s.to_string_view();
                break;
            }
            case 6:
            {
                std::size_t steps = 0, n = v.size();
                for(auto it = s.end(); it != s.begin() && steps <= n; ++steps)
                {
                    --it;
                    char32_t y = *it;
                    sink = y;
                    auto ci = static_cast<u::codepoint_iterator<C>>(it);
                    CK(ci.base() >= s.data() && ci.base() + ci.size() <= s.data() + s.size(), "iterator conversion", "");
                }
                CK(steps <= n, "mutable backward iteration ends", steps);
                break;
            }
            case 7:
                if(!v.empty())
                {
                    std::size_t q = r.below(v.size());
                    std::size_t off = s.get_offset(reverse_index, q);
                    if(off != u::npos) { sink = static_cast<char32_t>(s.index(reverse_index, q)); s.index(reverse_index, q) = u::codepoint(x); v = s.to_string_view(); CK(v.substr(0, off) == V(v).substr(0, off), "", ""); c.count("element_writes"); }
                }
                break;
            default:
            {
                S s2(s.cbegin(), s.cend());
                CK(s2 == s, "copy from iterators", "");
                S s3;
                s3 = s;
                CK(s3.to_string_view() == V(v), "copy assignment", "");
                break;
            }
            }
            CK(s.to_string_view() == V(v), "text after edit", "edit ", op, " got ", units_text<C>(s.to_string_view()), " want ", units_text<C>(v));
            CK(e.view() == V(orig), "the source is never written", "");
            c.count("edits");
            if(c.failed) break;
        }
        c.nontrivial(cat(units_text<C>(V(orig)), own, c.index % 16));
    });
}

// Formatting malformed text with any specification, also through accessors and scripts
VH_STREAM(formatting, 60000, 3000000)
{
    px::with_char(static_cast<int>(c.rng.below(5)), [&](auto t)
    {
        using C = decltype(t);
        Rng& r = c.rng;
        std::basic_string<C> v = hostile_units<C>(r, r.chance(1, 8) ? 24 : 7), v2 = hostile_units<C>(r, 4);
        px::exact<C> e(v), e2(v2);
        px::arg_builder<C> ab;
        u::basic_string_container<C> own(papilio::independent, e2.view());
        if(r.coin()) ab.args.emplace(e.view());
        else ab.args.emplace(u::basic_string_ref<C>(e.view()));
        if(r.coin()) ab.args.emplace(own);
        else ab.args.emplace(e2.view());
        C ch = v.empty() ? static_cast<C>(r.next()) : v[0];
        ab.args.emplace(ch);
        u::codepoint cp = v.empty() ? u::codepoint(static_cast<char32_t>(r.next())) : static_cast<u::codepoint>(*u::basic_string_ref<C>(e.view()).cbegin());
        ab.args.emplace(cp);
        ref::Spec s = px::any_spec(r);
        s.sign = 0;
        s.alt = s.zero = false;
        if(r.coin()) { s.has_prec = true; s.prec = r.below(10); }
        if(r.chance(1, 4)) s.type = U's';
        U32 f;
        int kind = static_cast<int>(r.below(8));
        std::size_t which = r.below(2);
        auto id = ref::ascii(std::to_string(which));
        bool plain = false;
        switch(kind)
        {
        case 0: f = U"{" + id + U"}"; plain = true; break;
        case 1: f = U"{" + id + U":" + s.text() + U"}"; break;
        case 2: f = U"{" + id + U":" + (r.coin() ? U"?" : U"*^20?") + U"}"; break;
        case 3: f = U"{" + id + U"[" + ref::ascii(std::to_string(r.range(-6, 6))) + U"]" + (r.coin() ? U":" + s.text() : U"") + U"}"; break;
        case 4: f = U"{" + id + U"[" + ref::ascii(std::to_string(r.range(-6, 6))) + U":" + ref::ascii(std::to_string(r.range(-6, 6))) + U"]" + U"}"; break;
        case 5: f = r.pick({U"{0.length}|{1.size}", U"{$ 0 == 1 ? '=' : 0 < 1 ? '<' : '>'}", U"{$ {0} == {1} ? 'e' : {0} < {1} ? 'l' : 'g'}", U"{$ {0}: {1} : {0}}", U"{$ !{0[0]}: 'x'}", U"{0[:].length}"}); break;
        case 6: f = r.coin() ? U"{2}" : U"{2:" + s.text() + U"}"; break;
        default: f = r.coin() ? U"{3}" : r.coin() ? U"{3:?}" : U"{2:?}"; break;
        }
        c.desc(cat(units_text<C>(v), " / ", units_text<C>(v2), " format ", show(f)));
        px::exact<C> fe(ref::enc<C>(f));
        auto got = px::vformat<C>(fe.view(), ab.args);
        if(got.ok()) c.count("formatted"); else c.count("refused");
        if(plain)
            CK(got.ok() && got.s == (which ? v2 : v), "malformed text passes through", got.show());
        c.eval();
        c.nontrivial(cat(units_text<C>(v), show(f)));
        // the format string itself malformed in its literal part
        if(r.chance(1, 3))
        {
            auto f2 = hostile_units<C>(r, 6);
            for(auto& q : f2) if(q == C('{') || q == C('}')) q = C('|');
            auto whole = f2 + ref::enc<C>(U32(U"{0}")) + f2;
            px::exact<C> we(whole);
            c.more(" literal " + units_text<C>(f2));
            auto g2 = px::vformat<C>(we.view(), ab.args);
            c.count(g2.ok() ? "malformed_literal" : "malformed_literal_refused");
        }
    });
}
