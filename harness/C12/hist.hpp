#pragma once
// C12: histories of edits over several string containers, source buffers and their lifetimes
#include <memory>
#include <optional>
#include <sstream>
#include "fmt.hpp"
using namespace vh;
using ref::U32;
namespace u = papilio::utf;
#define CK(cond, key, ...) c.check((cond), key, [&] { return cat(__VA_ARGS__); })

template <typename C>
struct history
{
    using S = u::basic_string_container<C>;
    using str_t = std::basic_string<C>;
    using view_t = std::basic_string_view<C>;

    // where the characters of a borrowing container are
    struct source
    {
        enum kind_t { none, string, raw, slot } kind = none;
        int id = 0;
        bool operator==(const source&) const = default;
    };
    struct slot
    {
        std::unique_ptr<S> s;
        U32 v;
        bool own = false;
        source src;
        bool dangling = false; // the characters are gone: may only be assigned or destroyed
        bool moved = false;
    };

    Case& c;
    Rng& r;
    static constexpr int NS = 4, NB = 3;
    slot sl[NS];
    std::unique_ptr<str_t> strings[NB]; // exact copies kept beside them
    U32 string_text[NB];
    std::unique_ptr<C[]> raws[NB];      // exact heap blocks with a terminator
    U32 raw_text[NB];
    std::string log;

    explicit history(Case& cc) : c(cc), r(cc.rng)
    {
        for(int i = 0; i < NB; ++i) { new_string(i); new_raw(i); }
    }

    U32 text(std::size_t n = 0)
    {
        // around the small buffer of std::string as well
        U32 t = px::any_text(r, n ? n : r.chance(1, 4) ? 24 : 5);
        for(auto& x : t) if(x == 0) x = U'0';
        return t;
    }
    void new_string(int i)
    {
        string_text[i] = text();
        strings[i] = std::make_unique<str_t>(ref::enc<C>(string_text[i]));
        if(r.coin()) strings[i]->shrink_to_fit();
    }
    void new_raw(int i)
    {
        raw_text[i] = text();
        str_t e = ref::enc<C>(raw_text[i]);
        raws[i].reset(new C[e.size() + 1]);
        std::copy(e.c_str(), e.c_str() + e.size() + 1, raws[i].get());
    }
    int any_slot() { return static_cast<int>(r.below(NS)); }
    bool readable(const slot& x) const { return x.s && !x.dangling && !x.moved; }
    int readable_slot()
    {
        int i = any_slot();
        for(int k = 0; k < NS; ++k, i = (i + 1) % NS) if(readable(sl[i])) return i;
        return -1;
    }
    void say(std::string x) { log += " " + x; c.more(" " + x); }

    // take ownership in one of the ways there are
    void rescue(int i)
    {
        slot& x = sl[i];
        int how = static_cast<int>(r.below(9));
        say(cat("own", i, "/", how));
        switch(how)
        {
        case 0: x.s->obtain_ownership(); break;
        case 1: { const str_t& t = std::as_const(*x.s).str(); CK(t == ref::enc<C>(x.v), "str()", show(view_t(t))); break; }
        case 2: check_c_str(i); break;
        case 3: { S t(papilio::independent, *x.s); *x.s = std::move(t); break; }
        case 4: x.s->assign(papilio::independent, x.s->to_string_view()); break;
        case 5: { S t(papilio::independent, *x.s); x.s->swap(t); break; }
        case 6: { view_t v = *x.s; *x.s = papilio::independent(v); break; }
        case 7: { char32_t ch = px::any_cp(r); x.s->push_back(u::codepoint(ch)); x.v += ch; break; }
        default:
            if(x.v.empty()) x.s->obtain_ownership();
            else { char32_t ch = px::any_cp(r); std::size_t k = r.below(x.v.size()); (*x.s)[k] = u::codepoint(ch); x.v[k] = ch; }
            break;
        }
        x.own = true;
        x.src = {};
        c.count("ownership_taken");
    }
    void check_c_str(int i)
    {
        slot& x = sl[i];
        str_t e = ref::enc<C>(x.v);
        const C* p = x.s->c_str();
        CK(std::char_traits<C>::length(p) == e.size() && view_t(p, e.size()) == e && p[e.size()] == C(), "c_str", "container ", i);
        x.own = true;
        x.src = {};
        c.count("null_terminated_requests");
    }
    // the characters of src are about to change or go away
    void leave(source src)
    {
        for(int i = 0; i < NS; ++i)
            if(sl[i].s && !sl[i].own && sl[i].src == src && !sl[i].dangling)
            {
                if(sl[i].moved) { sl[i].dangling = true; continue; }
                if(r.chance(1, 4)) { sl[i].dangling = true; say(cat("dangle", i)); c.count("left_dangling"); }
                else rescue(i);
            }
    }
    void settle(int i, const U32& v, bool own, source src = {})
    {
        slot& x = sl[i];
        x.v = v;
        x.own = own;
        x.src = own ? source() : src;
        x.dangling = x.moved = false;
    }
    // before slot i changes, those who look into it have to leave
    void touch(int i) { leave({source::slot, i}); }
    source origin(int j) { return sl[j].own ? source{source::slot, j} : sl[j].src; }

    void verify()
    {
        for(int i = 0; i < NS; ++i)
        {
            slot& x = sl[i];
            if(!readable(x)) continue;
            str_t e = ref::enc<C>(x.v);
            view_t got = x.s->to_string_view();
            if(got != e) { c.check(false, "text", [&] { return cat("container ", i, " shows ", show(got), " want ", show(view_t(e)), " after", log); }); continue; }
            c.eval();
            CK(x.s->size() == e.size() && x.s->empty() == e.empty(), "size", "container ", i);
            CK(!x.own || x.s->has_ownership(), "claims not to own", "container ", i, " after", log);
            if(x.s->has_ownership()) CK(x.s->data()[e.size()] == C(), "owned text not terminated", "container ", i);
            if(!x.own) c.count("borrowed_reads");
            else c.count("owned_reads");
        }
        for(int i = 0; i < NB; ++i)
        {
            CK(*strings[i] == ref::enc<C>(string_text[i]), "source string was written", i, " after", log);
            CK(view_t(raws[i].get()) == ref::enc<C>(raw_text[i]), "source array was written", i, " after", log);
        }
        if(int i = readable_slot(); i >= 0 && r.chance(1, 3))
        {
            slot& x = sl[i];
            const S& s = *x.s;
            U32 g;
            for(char32_t ch : s) g += ch;
            CK(g == x.v && s.length() == x.v.size(), "code points", "container ", i, " after", log);
            int j = readable_slot();
            CK((s == *sl[j].s) == (x.v == sl[j].v), "equality", i, " ", j, " after", log);
        }
    }

    void construct(int i)
    {
        touch(i);
        auto put = [&](auto&&... a) { sl[i].s.reset(); sl[i].s.reset(new S(static_cast<decltype(a)>(a)...)); };
        int b = static_cast<int>(r.below(NB));
        source S_{source::string, b}, R_{source::raw, b};
        int how = static_cast<int>(r.below(17));
        say(cat("new", i, "/", how));
        switch(how)
        {
        case 0: put(); settle(i, {}, false); break;
        case 1: put(std::as_const(*strings[b])); settle(i, string_text[b], false, S_); break;
        case 2: { str_t t = *strings[b]; put(std::move(t)); settle(i, string_text[b], true); break; }
        case 3: put(papilio::independent, std::as_const(*strings[b])); settle(i, string_text[b], true); break;
        case 4: put(view_t(*strings[b])); settle(i, string_text[b], false, S_); break;
        case 5: put(static_cast<const C*>(raws[b].get())); settle(i, raw_text[b], false, R_); break;
        case 6: { std::size_t k = r.below(raw_text[b].size() + 1); U32 t = raw_text[b].substr(0, k); put(static_cast<const C*>(raws[b].get()), ref::enc<C>(t).size()); settle(i, t, false, R_); break; }
        case 7: put(papilio::independent, static_cast<const C*>(raws[b].get())); settle(i, raw_text[b], true); break;
        case 8: { std::size_t k = r.below(raw_text[b].size() + 1); U32 t = raw_text[b].substr(0, k); put(papilio::independent, static_cast<const C*>(raws[b].get()), ref::enc<C>(t).size()); settle(i, t, true); break; }
        case 9: { std::size_t n = r.below(20); put(n, static_cast<C>('c')); settle(i, U32(n, U'c'), true); break; }
        case 10: { std::size_t n = r.below(8); char32_t ch = px::any_cp(r); put(n, u::codepoint(ch)); settle(i, U32(n, ch), true); break; }
        case 11: put(strings[b]->cbegin(), strings[b]->cend()); settle(i, string_text[b], true); break;
        default:
        {
            int j = readable_slot();
            if(j < 0 || j == i) { put(std::as_const(*strings[b])); settle(i, string_text[b], false, S_); break; }
            const S& o = *sl[j].s;
            U32 ov = sl[j].v;
            source org = origin(j);
            switch(how)
            {
            case 12: put(o); settle(i, ov, false, org); break;
            case 13: put(papilio::independent, o); settle(i, ov, true); break;
            case 14:
            {
                bool own = sl[j].own;
                if(own) touch(j);
                if(!readable(sl[j])) { put(); settle(i, {}, false); break; }
                ov = sl[j].v;
                put(std::move(*sl[j].s));
                settle(i, ov, own, org);
                sl[j].moved = true;
                c.count("moves");
                break;
            }
            case 15:
            {
                std::size_t a = r.below(ov.size() + 1), n = r.below(ov.size() - a + 1);
                auto first = std::next(o.cbegin(), static_cast<std::ptrdiff_t>(a));
                put(first, std::next(first, static_cast<std::ptrdiff_t>(n)));
                settle(i, ov.substr(a, n), false, org);
                break;
            }
            default:
            {
                std::size_t a = r.below(ov.size() + 1), n = r.below(ov.size() + 1);
                put(o.substr(a, n));
                settle(i, ov.substr(a, n), false, org);
                break;
            }
            }
            c.count("from_other_container");
        }
        }
        c.count("constructions");
    }

    void assign(int i)
    {
        if(!sl[i].s) return construct(i);
        int b = static_cast<int>(r.below(NB));
        source S_{source::string, b}, R_{source::raw, b};
        S& s = *sl[i].s;
        int how = static_cast<int>(r.below(25));
        int j = how >= 18 ? readable_slot() : -1;
        if(how >= 18 && j < 0) how = 0;
        // who looks into this container leaves first (which may include j)
        touch(i);
        if(j >= 0 && !readable(sl[j])) { j = -1; how = 1; }
        say(cat("assign", i, "/", how, j >= 0 ? cat("<-", j) : ""));
        if(sl[i].dangling) c.count("assigned_while_dangling");
        switch(how)
        {
        case 0: s.assign(std::as_const(*strings[b])); settle(i, string_text[b], false, S_); break;
        case 1: { str_t t = *strings[b]; s.assign(std::move(t)); settle(i, string_text[b], true); break; }
        case 2: s.assign(view_t(*strings[b])); settle(i, string_text[b], false, S_); break;
        case 3: s = view_t(*strings[b]); settle(i, string_text[b], false, S_); break;
        case 4: { view_t v = *strings[b]; s = papilio::independent(v); settle(i, string_text[b], true); break; }
        case 5: s.assign(papilio::independent, view_t(*strings[b])); settle(i, string_text[b], true); break;
        case 6: s.assign(papilio::independent, std::as_const(*strings[b])); settle(i, string_text[b], true); break;
        case 7: s.assign(static_cast<const C*>(raws[b].get())); settle(i, raw_text[b], false, R_); break;
        case 8: { U32 t = raw_text[b].substr(0, r.below(raw_text[b].size() + 1)); s.assign(static_cast<const C*>(raws[b].get()), ref::enc<C>(t).size()); settle(i, t, false, R_); break; }
        case 9: { std::size_t n = r.below(20); s.assign(n, static_cast<C>('k')); settle(i, U32(n, U'k'), true); break; }
        case 10: { std::size_t n = r.below(8); char32_t ch = px::any_cp(r); s.assign(n, u::codepoint(ch)); settle(i, U32(n, ch), true); break; }
        case 11: s.assign_range(*strings[b]); settle(i, string_text[b], true); break;
        case 12: { std::vector<u::codepoint> cp(string_text[b].begin(), string_text[b].end()); s.assign_range(cp); settle(i, string_text[b], true); break; }
        case 13: s.clear(); settle(i, {}, sl[i].own); if(!sl[i].own) sl[i].src = {}; break;
        case 14: s = S(); settle(i, {}, false); break;
        case 15: { S t(papilio::independent, *strings[b]); s = std::move(t); settle(i, string_text[b], true); break; }
        case 16: { S t(*strings[b]); s = std::move(t); settle(i, string_text[b], false, S_); break; }
        case 17:
            if constexpr(std::is_same_v<C, char> || std::is_same_v<C, wchar_t>)
            {
                U32 w;
                for(std::size_t k = r.below(20); k; --k) w += U'a' + static_cast<char32_t>(r.below(26));
                std::basic_istringstream<C> is(ref::enc<C>(U" \n" + w + U" rest"));
                if(w.empty()) w = U"rest";
                is >> s;
                settle(i, w, true);
                c.count("extractions");
            }
            else { s.clear(); settle(i, {}, sl[i].own); }
            break;
        case 18: case 19:
        {
            // copy assignment: an owning container is copied, a view is shared
            U32 v = sl[j].v;
            bool own = sl[j].own;
            source org = sl[j].src;
            s = std::as_const(*sl[j].s);
            settle(i, v, own, org);
            if(i == j) c.count("self_assignments");
            break;
        }
        case 20:
        {
            if(i == j) break;
            U32 v = sl[j].v;
            bool own = sl[j].own;
            source org = sl[j].src;
            if(own) touch(j);
            if(!readable(sl[j]) || sl[j].v != v) break;
            own = sl[j].own;
            org = sl[j].src;
            s = std::move(*sl[j].s);
            settle(i, v, own, org);
            sl[j].moved = true;
            c.count("moves");
            break;
        }
        case 21:
        {
            if(i == j && sl[i].own) { s.assign(papilio::independent, s.to_string_view()); c.count("self_assignments"); break; }
            U32 v = sl[j].v;
            source org = origin(j);
            s.assign(sl[j].s->to_string_view());
            settle(i, v, false, org);
            break;
        }
        case 22:
        {
            U32 v = sl[j].v;
            s.assign_range(*sl[j].s);
            settle(i, v, true);
            if(i == j) c.count("self_assignments");
            break;
        }
        case 23:
        {
            // a part of another container or of itself, by value
            U32 v = sl[j].v;
            std::size_t a = r.below(v.size() + 1), n = r.below(v.size() + 1);
            U32 part = v.substr(a, n);
            s.assign(papilio::independent, sl[j].s->substr(a, n).to_string_view());
            settle(i, part, true);
            if(i == j) c.count("self_assignments");
            break;
        }
        default:
        {
            U32 v = sl[j].v;
            if(i == j && sl[i].own) break;
            source org = origin(j);
            std::size_t a = r.below(v.size() + 1), n = r.below(v.size() - a + 1);
            auto first = std::next(std::as_const(*sl[j].s).cbegin(), static_cast<std::ptrdiff_t>(a));
            s.assign(first, std::next(first, static_cast<std::ptrdiff_t>(n)));
            settle(i, v.substr(a, n), false, org);
            break;
        }
        }
        c.count("assignments");
    }

    void edit(int i)
    {
        if(!readable(sl[i])) return;
        touch(i);
        if(!readable(sl[i])) return;
        slot& x = sl[i];
        int how = static_cast<int>(r.below(10));
        say(cat("edit", i, "/", how));
        switch(how)
        {
        case 0: case 1: { char32_t ch = px::any_cp(r); x.s->push_back(u::codepoint(ch)); x.v += ch; x.own = true; break; }
        case 2: x.s->push_back(static_cast<C>('p')); x.v += U'p'; x.own = true; break;
        case 3: case 4:
            if(!x.v.empty())
            {
                std::size_t k = r.below(x.v.size());
                char32_t ch = px::any_cp(r);
                (*x.s)[k] = u::codepoint(ch);
                x.v[k] = ch;
                x.own = true;
            }
            break;
        case 5:
        {
            // an element of another container or of itself
            int j = readable_slot();
            if(x.v.empty() || sl[j].v.empty()) break;
            std::size_t k = r.below(x.v.size()), l = r.below(sl[j].v.size());
            char32_t ch = sl[j].v[l];
            if(r.coin()) (*x.s)[k] = (*sl[j].s)[l];
            else *std::next(x.s->begin(), static_cast<std::ptrdiff_t>(k)) = *std::next(sl[j].s->begin(), static_cast<std::ptrdiff_t>(l));
            x.v[k] = ch;
            x.own = true;
            c.count("element_copies");
            break;
        }
        case 6:
        {
            int j = readable_slot();
            if(sl[j].v.empty()) break;
            std::size_t l = r.below(sl[j].v.size());
            char32_t ch = sl[j].v[l];
            x.s->push_back(static_cast<u::codepoint>((*sl[j].s)[l]));
            x.v += ch;
            x.own = true;
            break;
        }
        case 7:
        {
            // keeps what was there before in front
            str_t old = ref::enc<C>(x.v);
            U32 add = text();
            str_t e = ref::enc<C>(add);
            bool kept = true;
            x.s->resize_and_overwrite(old.size() + e.size() + r.below(3), [&](C* p, std::size_t) { kept = view_t(p, old.size()) == old; std::copy(e.begin(), e.end(), p + old.size()); return old.size() + e.size(); });
            CK(kept, "resize_and_overwrite lost the text", i);
            x.v += add;
            x.own = true;
            break;
        }
        case 8:
        {
            str_t taken = std::move(*x.s).str();
            CK(taken == ref::enc<C>(x.v), "str() &&", i);
            x.moved = true;
            x.own = true;
            c.count("moves");
            break;
        }
        default: x.s->clear(); x.v.clear(); if(!x.own) x.src = {}; break;
        }
        if(x.own) x.src = {};
        c.count("edits");
    }

    void exchange()
    {
        int i = any_slot(), j = any_slot();
        if(!sl[i].s || !sl[j].s) return;
        // a small string moves with its container
        if(i != j) { touch(i); touch(j); }
        if(!readable(sl[i]) || !readable(sl[j])) return;
        say(cat("swap", i, ",", j));
        sl[i].s->swap(*sl[j].s);
        if(i != j)
        {
            std::swap(sl[i].v, sl[j].v);
            std::swap(sl[i].own, sl[j].own);
            std::swap(sl[i].src, sl[j].src);
        }
        c.count("swaps");
    }

    void sources()
    {
        int b = static_cast<int>(r.below(NB));
        int how = static_cast<int>(r.below(4));
        if(how < 3)
        {
            leave({source::string, b});
            say(cat("source", b, "/", how));
            switch(how)
            {
            case 0: new_string(b); break;
            case 1: { U32 t = text(); *strings[b] = ref::enc<C>(t); string_text[b] = t; break; }
            default:
                for(auto& ch : *strings[b]) ch = static_cast<C>('~');
                string_text[b] = U32(strings[b]->size(), U'~');
                break;
            }
        }
        else
        {
            leave({source::raw, b});
            say(cat("raw", b));
            std::fill(raws[b].get(), raws[b].get() + ref::enc<C>(raw_text[b]).size(), static_cast<C>('!'));
            new_raw(b);
        }
        c.count("sources_replaced");
    }

    void step()
    {
        int i = any_slot();
        switch(r.below(14))
        {
        case 0: case 1: construct(i); break;
        case 2: case 3: case 4: assign(i); break;
        case 5: case 6: case 7: edit(i); break;
        case 8: exchange(); break;
        case 9: case 10: sources(); break;
        case 11:
            touch(i);
            say(cat("destroy", i));
            sl[i] = slot();
            break;
        case 12: if(readable(sl[i])) { touch(i); if(readable(sl[i])) { say(cat("c_str", i)); check_c_str(i); } } break;
        default:
            if(int j = readable_slot(); j >= 0)
            {
                // other forms of the text
                const S& s = *sl[j].s;
                std::basic_string_view<C> v = s;
                u::basic_string_ref<C> rf = s;
                CK(rf.to_u8string() == ref::enc<char8_t>(sl[j].v), "to_u8string", j);
                CK(rf.to_u16string() == ref::enc<char16_t>(sl[j].v), "to_u16string", j);
                CK(rf.to_u32string() == sl[j].v, "to_u32string", j);
                CK(v == ref::enc<C>(sl[j].v) && rf.to_string_view() == v, "conversion to views", j);
            }
            break;
        }
    }
};

template <typename C>
void run_history(Case& c)
{
    c.desc(cat(sizeof(C), "-byte history:"));
    history<C> h(c);
    std::size_t n = 4 + c.rng.below(c.rng.chance(1, 5) ? 60 : 16);
    for(std::size_t k = 0; k < n && !c.failed; ++k)
    {
        h.step();
        if(c.failed) break;
        h.verify();
    }
    c.count("steps", n);
    c.nontrivial(cat(sizeof(C), h.log));
    c.sample(cat(sizeof(C), "-byte:", h.log.substr(0, 160)));
}
