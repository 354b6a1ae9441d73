#include "ops.hpp"

// A walk with every operator of the iterators; the position is the number of code points behind it
template <typename C, typename It>
static void walk(Case& c, It first, It last, const U32& v, const C* data, const char* what)
{
    Rng& r = c.rng;
    const auto n = static_cast<std::ptrdiff_t>(v.size());
    constexpr bool plain = std::is_same_v<It, u::codepoint_iterator<C>>; // the iterator of the views can do more
    struct pos { It it; std::ptrdiff_t at; } p[2] = {{first, 0}, {last, n}};
    auto address = [](const It& i) { if constexpr(plain) return i.base(); else return i.to_address(); };
    auto off = [&](std::ptrdiff_t at) { return units_of<C>(v, 0, static_cast<std::size_t>(at)); };
    for(int k = 0; k < 8 && !c.failed; ++k)
    {
        pos& x = p[r.below(2)];
        pos& y = p[r.below(2)];
        std::ptrdiff_t d = r.range(-x.at, n - x.at);
        switch(r.below(10))
        {
        case 0: if(x.at < n) { It old = x.it++; CK(old != x.it && std::next(old) == x.it, what, "++ at ", x.at); ++x.at; } break;
        case 1: if(x.at > 0) { It old = x.it--; CK(old != x.it && std::next(x.it) == old, what, "-- at ", x.at); --x.at; } break;
        case 2: if(x.at < n) { ++x.it; ++x.at; } break;
        case 3: if(x.at > 0) { It& same = --x.it; CK(&same == &x.it, what, "-- gives another iterator"); --x.at; } break;
        case 4:
            if constexpr(plain)
            {
                switch(r.below(6))
                {
                case 0: x.it += d; break;
                case 1: x.it -= -d; break;
                case 2: x.it = x.it + d; break;
                case 3: x.it = d + x.it; break;
                case 4: x.it = x.it - -d; break;
                default: x.it = -d - x.it; break;
                }
            }
            else std::advance(x.it, d);
            x.at += d;
            break;
        case 5:
            if(r.coin()) x.it.swap(y.it);
            else { using std::swap; swap(x.it, y.it); }
            std::swap(x.at, y.at);
            break;
        case 6: x.it = y.it; x.at = y.at; break;
        case 7:
            if constexpr(plain)
            {
                CK(x.it - y.it == x.at - y.at, what, "difference of ", x.at, " and ", y.at, " is ", x.it - y.it);
                CK((x.it <=> y.it) == (x.at <=> y.at) && (x.it < y.it) == (x.at < y.at) && (x.it >= y.it) == (x.at >= y.at), what, "order of ", x.at, " and ", y.at);
            }
            else if(x.at <= y.at) CK(std::distance(x.it, y.it) == y.at - x.at, what, "distance from ", x.at, " to ", y.at);
            break;
        case 8:
            if constexpr(!plain)
                if(x.at < n)
                {
                    auto ci = static_cast<u::codepoint_iterator<C>>(x.it);
                    U32 rest;
                    for(auto e = ci + (n - x.at); ci != e; ++ci) rest += static_cast<char32_t>(*ci);
                    CK(rest == v.substr(static_cast<std::size_t>(x.at)), what, "as an iterator of a view at ", x.at, ": ", show(rest));
                }
            break;
        default: break;
        }
        CK((x.it == y.it) == (x.at == y.at), what, "equality of ", x.at, " and ", y.at);
        for(auto& q : p)
        {
            CK(address(q.it) == data + off(q.at), what, "at ", address(q.it) - data, " instead of ", off(q.at));
            if(q.at < n && !c.failed)
            {
                char32_t want = v[static_cast<std::size_t>(q.at)];
                char32_t got = *q.it;
                u::codepoint cp = *q.it;
                CK(got == want && cp == want, what, "shows ", hex(got), " at ", q.at);
                CK(&*q.it == data + off(q.at), what, "the address of the reference at ", q.at);
                if constexpr(plain) CK(q.it.size() == ref::units(want, sizeof(C)), what, "size at ", q.at);
            }
        }
        c.count("iterator_steps");
    }
}

VH_STREAM(iterators, 15000, 700000)
{
    px::with_char(static_cast<int>(c.rng.below(5)), [&](auto t)
    {
        using C = decltype(t);
        Rng& r = c.rng;
        U32 v = text(r, r.chance(1, 8) ? 30 : 8);
        describe<C>(c, v, "iterators");
        px::exact<C> e(ref::enc<C>(v));
        u::basic_string_ref<C> s(e.view());
        walk<C>(c, s.begin(), s.end(), v, s.data(), "view iterator");
        walk<C>(c, u::codepoint_begin(e.view()), u::codepoint_end(e.view()), v, e.view().data(), "code point iterator");
        u::basic_string_container<C> owning(papilio::independent, e.view()), borrowing(e.view());
        const auto& co = owning;
        walk<C>(c, co.begin(), co.end(), v, co.data(), "container iterator");
        walk<C>(c, borrowing.cbegin(), borrowing.cend(), v, borrowing.data(), "container iterator");
        walk<C>(c, owning.begin(), owning.end(), v, owning.data(), "mutable iterator");
        if(v.empty()) { c.nontrivial("empty"); return; }
        // references from one place assigned to another
        std::size_t i = r.below(v.size()), j = r.below(v.size());
        CK((owning[i] == owning[j]) == (v[i] == v[j]), "reference equality", i, " ", j);
        CK((*std::next(s.begin(), static_cast<std::ptrdiff_t>(i)) == *std::next(s.begin(), static_cast<std::ptrdiff_t>(j))) == (v[i] == v[j]), "reference equality", i, " ", j);
        switch(r.below(5))
        {
        case 0: owning[i] = owning[j]; v[i] = v[j]; break;
        case 1: *std::next(owning.begin(), static_cast<std::ptrdiff_t>(i)) = *std::next(owning.begin(), static_cast<std::ptrdiff_t>(j)); v[i] = v[j]; break;
        case 2: owning.index(i) = owning.index(reverse_index, v.size() - 1 - j); v[i] = v[j]; break;
        case 3: { char32_t x = px::any_cp(r); owning.index(reverse_index, v.size() - 1 - i) = u::codepoint(x); v[i] = x; break; }
        default:
        {
#ifdef PAPILIO_HAS_MULTIDIMENSIONAL_SUBSCRIPT
            char32_t x = px::any_cp(r);
            owning[reverse_index, v.size() - 1 - i] = u::codepoint(x);
            v[i] = x;
            CK(static_cast<char32_t>(u::codepoint(co[reverse_index, v.size() - 1 - j])) == v[j] && static_cast<char32_t>(u::codepoint(owning[reverse_index, v.size() - 1 - j])) == v[j], "reverse subscript", j);
            c.count("reverse_subscripts");
#endif
        }
        }
        CK(shows<C>(owning, v), "assignment through a reference", "shows ", show(sv(owning)), " want ", show(v));
        CK(owning.capacity() >= owning.size(), "capacity", owning.capacity());
        c.nontrivial(cat(sizeof(C), show(v), c.index % 64));
    });
}

// The building blocks, for every unit
VH_STREAM(units, 257, 257)
{
    c.desc(cat("units, block ", c.index));
    if(c.index == 256)
    {
        for(unsigned b = 0; b < 256; ++b)
        {
            auto x = static_cast<std::uint8_t>(b);
            bool tail = b >= 0x80 && b < 0xC0;
            CK(u::is_trailing_byte(x) == tail && u::is_leading_byte(x) != tail, "byte kind", b);
            std::uint8_t n = b < 0x80 ? 1 : b < 0xC0 ? 1 : b < 0xE0 ? 2 : b < 0xF0 ? 3 : b < 0xF8 ? 4 : 1;
            CK(u::byte_count(x) == n, "byte_count", b, " ", u::byte_count(x));
            if(tail || b >= 0xF8) continue;
        }
        using namespace papilio::utf::literals;
        CK(U'a'_cp == U'a' && U'é'_cp == U'é' && U'文'_cp == U'文' && U'🦋'_cp == U'🦋' && U'\U0010ffff'_cp == U'\U0010ffff', "code point literal", "");
        auto lit = [&](const auto& r, const auto& w, std::basic_string_view<typename std::decay_t<decltype(w)>::char_type> want) { CK(sv(r) == want && sv(w) == want && !w.has_ownership(), "string literal", show(want)); };
        lit("aé文🦋"_sr, "aé文🦋"_sc, "aé文🦋");
        lit(L"aé文🦋"_sr, L"aé文🦋"_sc, L"aé文🦋");
        lit(u8"aé文🦋"_sr, u8"aé文🦋"_sc, u8"aé文🦋");
        lit(u"aé文🦋"_sr, u"aé文🦋"_sc, u"aé文🦋");
        lit(U"aé文🦋"_sr, U"aé文🦋"_sc, U"aé文🦋");
        c.nontrivial("bytes");
        return;
    }
    for(unsigned k = 0; k < 256; ++k)
    {
        auto x = static_cast<std::uint16_t>(c.index * 256 + k);
        CK(u::is_high_surrogate(x) == (x >= 0xD800 && x < 0xDC00) && u::is_low_surrogate(x) == (x >= 0xDC00 && x < 0xE000), "surrogate kind", x);
        if(u::is_high_surrogate(x))
            for(unsigned y = 0xDC00; y < 0xE000; y += 1 + static_cast<unsigned>(c.rng.below(40)))
            {
                char32_t want = 0x10000u + ((x - 0xD800u) << 10) + (y - 0xDC00u);
                auto got = u::decoder<char16_t>::to_char32_t(static_cast<char16_t>(x), static_cast<char16_t>(y));
                CK(got.first == want && got.second == 2, "surrogate pair", x, " ", y);
            }
        u::codepoint cp(U'x');
        const char* none = "y";
        cp.assign(none, 0);
        CK(cp.empty(), "assign nothing", "");
        cp.assign(reinterpret_cast<const char8_t*>(none), 1);
        CK(cp == U'y' && U'y' == cp && (U'z' <=> cp) > 0 && U'a' < cp, "assign", "");
        cp.assign(reinterpret_cast<const char8_t*>(none), 0);
        CK(cp.empty(), "assign nothing", "");
    }
    c.nontrivial(c.index);
}
