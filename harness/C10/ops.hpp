#pragma once
// C10: Unicode strings behave as sequences of code points
#include "fmt.hpp"
#include <sstream>
using namespace vh;
using ref::U32;
namespace u = papilio::utf;
using papilio::reverse_index;
using papilio::index_range;

static U32 text(Rng& r, std::size_t maxlen)
{
    // few distinct characters now and then, so that searching and comparing find partial matches
    if(r.chance(2, 5))
    {
        static const std::vector<U32> sets = {U"ab", U"é文", U"🦋🦊", U"a\u00e9", U"a文🦋", U"\u07ff\u0800", U"\uffff\U00010000", U"\ud7ff\ue000", U"\U0010ffff\U00010000z"};
        const U32& set = r.pick(sets);
        U32 v;
        for(std::size_t n = r.below(maxlen + 1); n; --n) v += set[r.below(set.size())];
        return v;
    }
    return px::any_text(r, maxlen);
}

static char32_t member_or_any(Rng& r, const U32& v)
{
    return !v.empty() && r.chance(2, 3) ? v[r.below(v.size())] : px::any_cp(r);
}

template <typename S, typename C>
concept is_ref = std::is_same_v<S, u::basic_string_ref<C>>;

template <typename C>
static std::basic_string_view<C> sv(const u::basic_string_ref<C>& s) { return s.to_string_view(); }
template <typename C>
static std::basic_string_view<C> sv(const u::basic_string_container<C>& s) { return s.to_string_view(); }

static std::string hex(char32_t c)
{
    char b[16];
    std::snprintf(b, sizeof b, "U+%04X", static_cast<unsigned>(c));
    return b;
}

template <typename C>
static std::size_t units_of(const U32& v, std::size_t i, std::size_t n = std::size_t(-1))
{
    std::size_t s = 0;
    for(std::size_t k = i; k < v.size() && k - i < n; ++k) s += ref::units(v[k], sizeof(C));
    return s;
}

template <typename C, typename S>
static bool shows(const S& s, const U32& v) { return sv(s) == std::basic_string_view<C>(ref::enc<C>(v)); }

#define CK(cond, key, ...) c.check((cond), key, [&] { return cat(__VA_ARGS__); })

// One reading operation on s, which must show v
template <typename C, typename S>
static void read_op(Case& c, const S& s, const U32& v)
{
    Rng& r = c.rng;
    std::size_t n = v.size();
    auto base = sv(s).data();
    int op = static_cast<int>(r.below(18));
    c.more(cat(" op", op));
    switch(op)
    {
    case 0:
        CK(s.length() == n, "length", "length ", s.length(), " want ", n);
        CK(s.size() == units_of<C>(v, 0), "size", "size ", s.size());
        CK(s.empty() == v.empty(), "empty", "empty");
        CK(u::strlen(sv(s)) == n, "strlen", u::strlen(sv(s)));
        CK(u::strlen<u::strlen_behavior::ignore>(sv(s)) == n, "strlen ignore", "");
        CK(u::strlen<u::strlen_behavior::stop>(sv(s)) == n, "strlen stop", u::strlen<u::strlen_behavior::stop>(sv(s)), " want ", n);
        CK(u::strlen<u::strlen_behavior::exception>(sv(s)) == n, "strlen exception", "");
        if(v.find(U'\0') == v.npos)
        {
            auto t = ref::enc<C>(v);
            CK(u::strlen(t.c_str()) == n, "strlen c_str", "");
            CK(u::strlen(t.c_str(), t.size()) == n, "strlen ptr,len", "");
            CK(u::strlen<u::strlen_behavior::exception>(t.c_str(), t.size()) == n, "strlen ptr,len exception", "");
            CK(u::strlen<u::strlen_behavior::stop>(t.c_str(), t.size()) == n, "strlen ptr,len stop", "");
            CK(u::strlen(t.c_str(), t.size() + 1) == n, "strlen ptr,len+1", "");
        }
        break;
    case 1:
    {
        std::size_t i = r.below(n + 3);
        bool in = i < n;
        std::size_t want = in ? units_of<C>(v, 0, i) : u::npos;
        CK(s.get_offset(i) == want, "get_offset", "get_offset(", i, ")=", s.get_offset(i), " want ", want);
        CK(u::index_offset(i, sv(s)) == want, "index_offset", "");
        std::size_t rwant = in ? units_of<C>(v, 0, n - 1 - i) : u::npos;
        CK(s.get_offset(reverse_index, i) == rwant, "get_offset reverse", "get_offset(rev ", i, ")=", s.get_offset(reverse_index, i), " want ", rwant);
        break;
    }
    case 2:
    {
        std::size_t i = r.below(n + 3);
        for(int rev = 0; rev < 2; ++rev)
        {
            bool thrown = false;
            char32_t got = 0;
            try { got = rev ? s.at(reverse_index, i) : s.at(i); }
            catch(const std::out_of_range&) { thrown = true; }
            CK(thrown == (i >= n), "at throws", "at ", i, " of ", n);
            if(i < n) CK(got == v[rev ? n - 1 - i : i], "at", "at(", i, ") rev=", rev, " got ", hex(got));
            char32_t d = px::any_cp(r);
            char32_t g2 = rev ? s.index_or(reverse_index, i, u::codepoint(d)) : s.index_or(i, u::codepoint(d));
            CK(g2 == (i < n ? v[rev ? n - 1 - i : i] : d), "index_or", "index_or(", i, ")");
        }
        break;
    }
    case 3:
        if(n)
        {
            std::size_t i = r.below(n);
            const S& cs = s;
            char32_t g = cs[i];
            CK(g == v[i], "operator[]", "[", i, "] got ", hex(g));
            const u::implement_string<C, S>& bs = s;
            char32_t g1 = bs.index(i);
            char32_t g2 = bs.index(reverse_index, i);
            CK(g1 == v[i] && g2 == v[n - 1 - i], "index", "index ", i, " got ", hex(g1), " rev ", hex(g2));
            CK(&cs[i] == base + units_of<C>(v, 0, i), "address of element", "");
            char32_t f = s.front(), b = s.back();
            CK(f == v.front() && b == v.back(), "front/back", hex(f), " ", hex(b));
        }
        break;
    case 4: // forward
    {
        U32 got;
        bool addr = true;
        std::size_t k = 0;
        for(auto it = s.cbegin(); it != s.cend(); ++it, ++k)
        {
            u::codepoint cp = *it;
            got += static_cast<char32_t>(cp);
            addr = addr && it.base() == base + units_of<C>(v, 0, k) && it.size() == ref::units(v[std::min(k, n - 1)], sizeof(C));
            if(k > n) break;
        }
        CK(got == v, "forward iteration", show(got));
        CK(addr, "iterator position", "");
        U32 g2;
        for(char32_t cp : s) g2 += cp;
        CK(g2 == v, "range for", show(g2));
        break;
    }
    case 5: // backward
    {
        U32 got;
        for(auto it = s.cend(); it != s.cbegin();)
        {
            --it;
            u::codepoint cp = *it;
            got += static_cast<char32_t>(cp);
            if(got.size() > n) break;
        }
        CK(got == U32(v.rbegin(), v.rend()), "backward iteration", show(got));
        U32 g2;
        for(auto it = s.crbegin(); it != s.crend(); ++it) { char32_t cp = *it; g2 += cp; }
        CK(g2 == U32(v.rbegin(), v.rend()), "reverse iterator", show(g2));
        break;
    }
    case 6: // random walk
    {
        auto it = s.cbegin();
        std::size_t pos = 0;
        for(int k = 0; k < 12; ++k)
        {
            std::size_t to = r.below(n + 1);
            auto d = static_cast<std::ptrdiff_t>(to) - static_cast<std::ptrdiff_t>(pos);
            switch(r.below(3))
            {
            case 0: it += d; break;
            case 1: it = it + d; break;
            default: it -= -d; break;
            }
            pos = to;
            bool ok = it.base() == base + units_of<C>(v, 0, pos);
            CK(ok, "iterator arithmetic", "to ", pos);
            if(!ok) break;
            auto o = s.cbegin() + static_cast<std::ptrdiff_t>(r.below(n + 1));
            auto od = static_cast<std::ptrdiff_t>(U32(ref::dec<C>(std::basic_string_view<C>(base, o.base())).value()).size());
            CK(o - it == od - static_cast<std::ptrdiff_t>(pos), "iterator difference", o - it, " want ", od - static_cast<std::ptrdiff_t>(pos));
            CK((o == it) == (od == static_cast<std::ptrdiff_t>(pos)) && (o <=> it) == (od <=> static_cast<std::ptrdiff_t>(pos)), "iterator comparison", "");
            if(pos < n) { char32_t g = *it; CK(g == v[pos], "walk value", hex(g)); }
            if(pos < n && r.coin())
            {
                auto old = it++;
                ++pos;
                CK(old.base() == base + units_of<C>(v, 0, pos - 1), "post increment", "");
            }
            else if(pos > 0 && r.coin())
            {
                auto old = it--;
                CK(old.base() == base + units_of<C>(v, 0, pos), "post decrement", "");
                --pos;
            }
        }
        break;
    }
    case 7: // find character
    {
        char32_t x = member_or_any(r, v);
        std::size_t pos = r.chance(1, 3) ? 0 : r.below(n + 3);
        std::size_t want = pos > n ? v.npos : v.find(x, pos);
        auto it = s.find(u::codepoint(x), pos);
        auto w = base + units_of<C>(v, 0, want == v.npos ? n : want);
        CK(it.base() == w, "find character", "find(", hex(x), ",", pos, ") at unit ", it.base() - base, " want ", w - base);
        CK(s.contains(u::codepoint(x)) == (v.find(x) != v.npos), "contains character", hex(x));
        break;
    }
    case 8: // find string
    {
        U32 x;
        if(n && r.chance(3, 4)) { std::size_t i = r.below(n); x = v.substr(i, r.below(4)); if(r.chance(1, 4)) x += px::any_cp(r); }
        else x = text(r, 3);
        std::size_t pos = r.chance(1, 3) ? 0 : r.below(n + 3);
        std::size_t want = pos > n ? v.npos : v.find(x, pos);
        auto xs = ref::enc<C>(x);
        auto w = base + units_of<C>(v, 0, want == v.npos ? n : want);
        bool no_null = x.find(U'\0') == x.npos;
        int form = static_cast<int>(r.below(4));
        auto it = s.cend();
        if constexpr(is_ref<S, C>)
        {
            if(form == 0 && no_null) it = s.find(xs.c_str(), pos);
            else if(form == 1) it = s.find(xs.data(), pos, xs.size());
            else it = s.find(u::basic_string_ref<C>(xs), pos);
            CK(s.contains(u::basic_string_ref<C>(xs)) == (v.find(x) != v.npos), "contains string", show(x));
        }
        else
        {
            it = s.find(std::basic_string_view<C>(xs), pos);
            CK(s.contains(std::basic_string_view<C>(xs)) == (v.find(x) != v.npos), "contains string", show(x));
        }
        CK(it.base() == w, "find string", "find(", show(x), ",", pos, ") at unit ", it.base() - base, " want ", w - base);
        break;
    }
    case 9: // prefix, suffix
    {
        U32 x = r.coin() ? v.substr(0, r.below(n + 1)) : r.coin() ? v.substr(r.below(n + 1)) : text(r, 3);
        if(r.chance(1, 4)) x += px::any_cp(r);
        if(r.chance(1, 6)) x = px::any_cp(r) + x;
        auto xs = ref::enc<C>(x);
        bool no_null = x.find(U'\0') == x.npos;
        CK(s.starts_with(std::basic_string_view<C>(xs)) == v.starts_with(x), "starts_with", show(x));
        if(no_null) CK(s.starts_with(xs.c_str()) == v.starts_with(x), "starts_with c_str", show(x));
        char32_t ch = member_or_any(r, v.empty() ? v : v.substr(0, 1) + v.substr(n - 1));
        CK(s.starts_with(u::codepoint(ch)) == v.starts_with(ch), "starts_with character", hex(ch));
        if constexpr(is_ref<S, C>)
        {
            CK(s.starts_with(u::basic_string_ref<C>(xs)) == v.starts_with(x), "starts_with ref", show(x));
            CK(s.ends_with(u::basic_string_ref<C>(xs)) == v.ends_with(x), "ends_with", show(x));
            if(no_null) CK(s.ends_with(xs.c_str()) == v.ends_with(x), "ends_with c_str", show(x));
            CK(s.ends_with(u::codepoint(ch)) == v.ends_with(ch), "ends_with character", hex(ch));
        }
        break;
    }
    case 10: // substr by position
    {
        std::size_t pos = r.below(n + 3), cnt = r.chance(1, 3) ? u::npos : r.below(n + 2);
        U32 want = pos > n ? U32() : v.substr(pos, cnt);
        bool thrown = false;
        try
        {
            auto t = s.substr(pos, cnt);
            CK(pos > n || shows<C>(t, want), "substr", "substr(", pos, ",", cnt, ") got ", show(sv(t)));
            auto [t2, k] = s.substr_extended(pos, cnt);
            CK(shows<C>(t2, want) && k == want.size(), "substr_extended", show(sv(t2)), " ", k);
        }
        catch(const std::out_of_range&) { thrown = true; }
        CK(thrown == (pos > n), "substr throws", "substr(", pos, ") of ", n);
        auto t = s.template substr<u::substr_behavior::empty_string>(pos, cnt);
        CK(shows<C>(t, want), "substr empty_string", "substr(", pos, ",", cnt, ") got ", show(sv(t)));
        break;
    }
    case 11: // substr by range
    {
        auto bound = [&]() -> papilio::ssize_t { return static_cast<papilio::ssize_t>(r.below(2 * n + 6)) - static_cast<papilio::ssize_t>(n) - 3; };
        papilio::ssize_t a = bound(), b = bound();
        bool open = r.chance(1, 4);
        if(open) b = index_range::npos;
        auto sn = static_cast<papilio::ssize_t>(n);
        auto out = [&](papilio::ssize_t k) { return k < 0 ? -k > sn : k > sn; };
        bool bad = out(a) || (!open && out(b));
        auto pos = [&](papilio::ssize_t k) { return std::clamp<papilio::ssize_t>(k < 0 ? k + sn : k, 0, sn); };
        std::size_t i = static_cast<std::size_t>(pos(a)), j = open ? n : static_cast<std::size_t>(pos(b));
        U32 want = i < j ? v.substr(i, j - i) : U32();
        bool thrown = false;
        try
        {
            auto t = s.substr(index_range(a, b));
            if(!bad) CK(shows<C>(t, want), "substr range", "substr(", a, ",", b, ") got ", show(sv(t)));
        }
        catch(const std::out_of_range&) { thrown = true; }
        CK(thrown == bad, "substr range throws", "substr(", a, ",", b, ") of ", n);
        auto t = s.template substr<u::substr_behavior::empty_string>(index_range(a, b));
        CK(shows<C>(t, want) || (bad && sv(t).empty()), "substr range empty_string", "substr(", a, ",", b, ") got ", show(sv(t)));
        break;
    }
    case 12: case 13: // conversion and back
    {
        u::basic_string_ref<C> rs(sv(s));
        px::with_char(static_cast<int>(r.below(5)), [&](auto t)
        {
            using D = decltype(t);
            std::basic_string<D> d = rs.template to_string<D>();
            CK(d == ref::enc<D>(v), "to_string", "to ", sizeof(D), " got ", show(std::basic_string_view<D>(d)));
            u::basic_string_ref<D> rd(d);
            auto back = rd.template to_string<C>();
            CK(back == ref::enc<C>(v), "round trip", show(std::basic_string_view<C>(back)));
            c.count("conversions");
        });
        CK(rs.to_u8string() == ref::enc<char8_t>(v) && rs.to_u16string() == ref::enc<char16_t>(v) && rs.to_u32string() == v && rs.to_wstring() == ref::enc<wchar_t>(v), "to_uNstring", "");
        break;
    }
    case 14: // remove prefix / suffix
    {
        if constexpr(is_ref<S, C>)
        {
            S t = s;
            U32 m = v;
            for(int k = 0; k < 3; ++k)
            {
                std::size_t q = r.below(5) == 0 ? r.below(n + 5) : r.below(3);
                if(r.coin()) { t.remove_prefix(q); m.erase(0, std::min(q, m.size())); }
                else { t.remove_suffix(q); m.erase(m.size() - std::min(q, m.size())); }
                CK(shows<C>(t, m) && t.length() == m.size(), "remove prefix/suffix", show(sv(t)), " want ", show(m));
            }
        }
        break;
    }
    case 15: // from iterators
    {
        std::size_t i = r.below(n + 1), j = i + r.below(n - i + 1);
        auto a = s.cbegin() + static_cast<std::ptrdiff_t>(i), b = s.cbegin() + static_cast<std::ptrdiff_t>(j);
        S t(a, b);
        CK(shows<C>(t, v.substr(i, j - i)), "from iterators", show(sv(t)));
        S t2;
        t2.assign(a, b);
        CK(shows<C>(t2, v.substr(i, j - i)), "assign iterators", show(sv(t2)));
        break;
    }
    case 16: // stream
    {
        std::basic_string<C> want = ref::enc<C>(v);
        if constexpr(std::is_same_v<C, char> || std::is_same_v<C, wchar_t>)
        {
            std::basic_ostringstream<C> os;
            os << s;
            CK(os.str() == want, "operator<<", show(std::basic_string_view<C>(os.str())));
        }
        break;
    }
    case 17: // algorithms of the standard library over the iterators
    {
        char32_t x = member_or_any(r, v);
        auto cnt = std::count(s.cbegin(), s.cend(), u::codepoint(x));
        CK(cnt == std::count(v.begin(), v.end(), x), "std::count", cnt);
        CK(static_cast<std::size_t>(std::distance(s.cbegin(), s.cend())) == n, "std::distance", "");
        break;
    }
    default: break;
    }
}

template <typename C>
static void describe(Case& c, const U32& v, const char* kind)
{
    c.desc(cat(sizeof(C), "-byte ", kind, " ", show(v)));
}

