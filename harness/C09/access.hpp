#pragma once
// C09: accesses compared with a tree model of the argument
#include <ctime>
#include <map>
#include <deque>
#include <memory>
#include <optional>
#include <span>
#include <tuple>
#include <typeindex>
#include <variant>
#include <papilio/container.hpp>
#include <papilio/xchar.hpp>
#include <papilio/accessor/chrono.hpp>
#include <papilio/accessor/misc.hpp>
#include <papilio/accessor/ranges.hpp>
#include <papilio/accessor/tuple.hpp>
#include <papilio/accessor/vocabulary.hpp>
#include <papilio/formatter/chrono.hpp>
#include <papilio/formatter/misc.hpp>
#include <papilio/formatter/tuple.hpp>
#include <papilio/formatter/vocabulary.hpp>
#include "fmt.hpp"
#if __has_include(<expected>)
#include <expected>
#endif
using namespace vh;
using ref::U32;

// A user type whose accessor returns temporaries
struct custom
{
    long long id = 0;
    template <typename Context>
    friend auto format(const custom& v, Context& ctx)
    {
        using tr = papilio::format_context_traits<Context>;
        for(char x : "C" + std::to_string(v.id)) tr::append(ctx, papilio::utf::codepoint(static_cast<char32_t>(x)));
        return ctx.out();
    }
};

template <typename Context>
struct papilio::accessor<custom, Context>
{
    using C = typename Context::char_type;
    using arg = papilio::basic_format_arg<Context>;
    static custom index(const custom& v, papilio::ssize_t i) { return custom{v.id * 3 + i % 7}; }
    static std::basic_string<C> index(const custom& v, std::basic_string_view<C> k)
    {
        return std::basic_string<C>(k) + ref::enc<C>(U32(24, U'.')) + ref::enc<C>(ref::ascii(std::to_string(v.id)));
    }
    static arg attribute(const custom& v, const papilio::basic_attribute_name<C>& a)
    {
        if(a == PAPILIO_TSTRING_VIEW(C, "self")) return v;
        if(a == PAPILIO_TSTRING_VIEW(C, "child")) return arg(papilio::independent, custom{v.id + 1});
        if(a == PAPILIO_TSTRING_VIEW(C, "list")) return arg(papilio::independent, std::vector<int>{static_cast<int>(v.id % 100), static_cast<int>(v.id % 100 + 1), 7});
        if(a == PAPILIO_TSTRING_VIEW(C, "name")) return ref::enc<C>(U"a long name that needs memory " + ref::ascii(std::to_string(v.id)));
        papilio::throw_invalid_attribute(a);
    }
};

namespace model
{
struct node
{
    enum kind_t { null, integer, boolean, chr, str, list, bools, tuple, pair, int_map, str_map, opt, var, exp, attrs, cust, opaque } kind = null;
    long long i = 0;
    bool is_unsigned = false;
    U32 s;
    std::vector<node> items;
    std::vector<long long> ikeys;
    std::vector<U32> skeys;
    int order = 0; // 1: std::less, 2: std::greater
    bool ints = true;  // list printed as a list of integers
};

inline node N(node::kind_t k) { node n; n.kind = k; return n; }
inline node nint(long long v) { node n = N(node::integer); n.i = v; return n; }
inline node nbool(bool v) { node n = N(node::boolean); n.i = v; return n; }
inline node nstr(const U32& s) { node n = N(node::str); n.s = s; return n; }

template <typename T>
requires(std::is_same_v<T, int> || std::is_same_v<T, long long> || std::is_same_v<T, short> || std::is_same_v<T, std::size_t> || std::is_same_v<T, unsigned char>)
node of(const T& v) { return nint(static_cast<long long>(v)); }
inline node of(const bool& v) { return nbool(v); }
template <typename C>
node of(const std::basic_string<C>& s) { return nstr(ref::dec<C>(s).value()); }
inline node of(const custom& v) { node n = N(node::cust); n.i = v.id; return n; }
template <typename T, typename A>
node of(const std::vector<T, A>& v);
template <typename T>
node of_list(const T& v)
{
    node n = N(node::list);
    for(auto& x : v) { n.items.push_back(of(x)); n.ints = n.ints && n.items.back().kind == node::integer; }
    return n;
}
template <typename... Ts>
node of(const std::tuple<Ts...>& t);
template <typename A, typename B>
node of(const std::pair<A, B>& p) { node n = N(node::pair); n.items = {of(p.first), of(p.second)}; return n; }
template <typename T>
node of(const std::optional<T>& o) { node n = N(node::opt); n.i = o.has_value(); if(o) n.items = {of(*o)}; return n; }
template <typename T, typename A>
node of(const std::vector<T, A>& v)
{
    if constexpr(std::is_same_v<T, bool>)
    {
        node n = N(node::bools);
        for(bool b : v) n.items.push_back(nbool(b));
        return n;
    }
    else return of_list(v);
}
template <typename... Ts>
node of(const std::tuple<Ts...>& t)
{
    node n = N(sizeof...(Ts) == 2 ? node::pair : node::tuple);
    std::apply([&](auto&... x) { (n.items.push_back(of(x)), ...); }, t);
    return n;
}
template <typename... Ts>
node of(const std::variant<Ts...>& v)
{
    node n = N(node::var);
    n.i = static_cast<long long>(v.index());
    n.order = sizeof...(Ts);
    std::visit([&](auto& x) { n.items = {of(x)}; }, v);
    return n;
}
template <typename M>
node of_map(const M& m, int order)
{
    using K = typename M::key_type;
    node n = N(std::is_integral_v<K> ? node::int_map : node::str_map);
    n.order = order;
    for(auto& [k, v] : m)
    {
        if constexpr(std::is_integral_v<K>) n.ikeys.push_back(static_cast<long long>(k));
        else n.skeys.push_back(ref::dec(k).value());
        n.items.push_back(of(v));
    }
    return n;
}

struct step
{
    enum kind_t { index, slice, key, attr } kind;
    long long a = 0, b = 0;
    bool has_a = true, has_b = true;
    U32 k;

    U32 text() const
    {
        auto num = [](long long v) { return ref::ascii(std::to_string(v)); };
        switch(kind)
        {
        case index: return U"[" + num(a) + U"]";
        case slice: return U"[" + (has_a ? num(a) : U32()) + U":" + (has_b ? num(b) : U32()) + U"]";
        case key:
        {
            U32 r = U"['";
            for(char32_t c : k) { if(c == U'\'' || c == U'\\') r += U'\\'; r += c; }
            return r + U"']";
        }
        default: return U"." + k;
        }
    }
};

// nullopt: an exception is due
inline std::optional<node> apply(const node& n, const step& st, std::size_t char_size)
{
    auto resolve = [](long long i, std::size_t size) { return i < 0 ? i + static_cast<long long>(size) : i; };
    auto at = [&](const std::vector<node>& v, long long i) -> node
    {
        i = resolve(i, v.size());
        return i < 0 || i >= static_cast<long long>(v.size()) ? node() : v[static_cast<std::size_t>(i)];
    };
    auto units = [&](const U32& s) { std::size_t k = 0; for(char32_t c : s) k += ref::units(c, char_size); return k; };
    auto bounds = [&](std::size_t size)
    {
        long long sz = static_cast<long long>(size);
        long long a = st.has_a ? resolve(st.a, size) : 0, b = st.has_b ? resolve(st.b, size) : sz;
        a = std::clamp(a, 0ll, sz);
        b = std::clamp(b, 0ll, sz);
        return std::pair<std::size_t, std::size_t>(static_cast<std::size_t>(a), static_cast<std::size_t>(std::max(a, b) - a));
    };
    const bool is_size = st.kind == step::attr && st.k == U"size";
    switch(n.kind)
    {
    case node::str:
        if(st.kind == step::index)
        {
            long long i = resolve(st.a, n.s.size());
            node r = N(node::chr);
            r.s = i < 0 || i >= static_cast<long long>(n.s.size()) ? U32(1, U'\0') : U32(1, n.s[static_cast<std::size_t>(i)]);
            return r;
        }
        if(st.kind == step::slice) { auto [a, c] = bounds(n.s.size()); return nstr(n.s.substr(a, c)); }
        if(is_size) return nint(static_cast<long long>(units(n.s)));
        if(st.kind == step::attr && st.k == U"length") return nint(static_cast<long long>(n.s.size()));
        return std::nullopt;
    case node::list:
        if(st.kind == step::index) return at(n.items, st.a);
        if(st.kind == step::slice)
        {
            auto [a, c] = bounds(n.items.size());
            if(c == 0) return node();
            node r = n;
            r.items.assign(n.items.begin() + static_cast<std::ptrdiff_t>(a), n.items.begin() + static_cast<std::ptrdiff_t>(a + c));
            return r;
        }
        if(is_size) return nint(static_cast<long long>(n.items.size()));
        return std::nullopt;
    case node::bools:
    case node::tuple:
    case node::pair:
        if(st.kind == step::index) return at(n.items, st.a);
        if(is_size) return nint(static_cast<long long>(n.items.size()));
        if(n.kind == node::pair && st.kind == step::attr && st.k == U"first") return n.items[0];
        if(n.kind == node::pair && st.kind == step::attr && st.k == U"second") return n.items[1];
        return std::nullopt;
    case node::int_map:
    case node::str_map:
        if(is_size) return nint(static_cast<long long>(n.items.size()));
        if(n.kind == node::int_map && st.kind == step::index)
        {
            for(std::size_t k = 0; k < n.ikeys.size(); ++k) if(n.ikeys[k] == st.a) return n.items[k];
            return node();
        }
        if(n.kind == node::str_map && st.kind == step::key)
        {
            for(std::size_t k = 0; k < n.skeys.size(); ++k) if(n.skeys[k] == st.k) return n.items[k];
            return node();
        }
        if(st.kind == step::attr && n.order && (st.k == U"min" || st.k == U"max"))
        {
            if(n.items.empty()) return node();
            return (st.k == U"min") == (n.order == 1) ? n.items.front() : n.items.back();
        }
        return std::nullopt;
    case node::opt:
    case node::exp:
        if(st.kind == step::attr && st.k == U"has_value") return nbool(n.i != 0);
        if(st.kind == step::attr && st.k == U"value") return n.i ? n.items[0] : node();
        if(n.kind == node::exp && st.kind == step::attr && st.k == U"error") return n.i ? node() : n.items[0];
        return std::nullopt;
    case node::var:
        if(st.kind == step::attr && st.k == U"index") return nint(n.i);
        if(st.kind == step::attr && st.k == U"value") return n.items[0];
        if(st.kind == step::index) return resolve(st.a, static_cast<std::size_t>(n.order)) == n.i ? n.items[0] : node();
        return std::nullopt;
    case node::attrs:
        if(st.kind == step::attr)
            for(std::size_t k = 0; k < n.skeys.size(); ++k) if(n.skeys[k] == st.k) return n.items[k];
        return std::nullopt;
    case node::cust:
        if(st.kind == step::index) { node r = n; r.i = n.i * 3 + st.a % 7; return r; }
        if(st.kind == step::key) return nstr(st.k + U32(24, U'.') + ref::ascii(std::to_string(n.i)));
        if(st.kind == step::attr)
        {
            if(st.k == U"self") return n;
            if(st.k == U"child") { node r = n; ++r.i; return r; }
            if(st.k == U"name") return nstr(U"a long name that needs memory " + ref::ascii(std::to_string(n.i)));
            if(st.k == U"list") { node r = N(node::list); r.items = {nint(static_cast<int>(n.i % 100)), nint(static_cast<int>(n.i % 100) + 1), nint(7)}; return r; }
        }
        return std::nullopt;
    default: return std::nullopt;
    }
}

inline std::optional<U32> text(const node& n)
{
    switch(n.kind)
    {
    case node::integer: return ref::ascii(std::to_string(n.i));
    case node::boolean: return n.i ? U"true" : U"false";
    case node::chr:
    case node::str: return n.s;
    case node::cust: return U"C" + ref::ascii(std::to_string(n.i));
    case node::list:
    {
        if(!n.ints) return std::nullopt;
        U32 r = U"[";
        for(std::size_t k = 0; k < n.items.size(); ++k) r += (k ? U", " : U"") + ref::ascii(std::to_string(n.items[k].i));
        return r + U"]";
    }
    default: return std::nullopt;
    }
}

inline step random_step(Rng& r, const node& n)
{
    step s;
    auto idx = [&](std::size_t size) -> long long
    {
        if(r.chance(1, 40)) return r.pick({std::numeric_limits<long long>::max() - 1, std::numeric_limits<long long>::min() + 1, 1ll << 32, -(1ll << 32), (1ll << 31) - 1, 4294967295ll});
        return r.range(-static_cast<long long>(size) - 2, static_cast<long long>(size) + 1);
    };
    // now and then something that does not belong to the kind
    int odd = r.chance(1, 12) ? static_cast<int>(r.below(4)) : -1;
    auto attr = [&](std::initializer_list<const char32_t*> l) { s.kind = step::attr; s.k = r.chance(1, 25) ? U32(U"nonsense") : U32(*(l.begin() + r.below(l.size()))); };
    auto index = [&](std::size_t size) { s.kind = step::index; s.a = idx(size); };
    auto slice = [&](std::size_t size)
    {
        s.kind = step::slice;
        s.has_a = r.chance(2, 3);
        s.has_b = r.chance(2, 3);
        s.a = idx(size);
        s.b = idx(size);
    };
    if(odd == 0) { index(3); return s; }
    if(odd == 1) { slice(3); return s; }
    if(odd == 2) { attr({U"size", U"length", U"first", U"value", U"min"}); return s; }
    if(odd == 3) { s.kind = step::key; s.k = r.coin() ? U"a" : U"é'\\"; return s; }
    switch(n.kind)
    {
    case node::str:
        if(r.chance(1, 4)) attr({U"size", U"length"});
        else if(r.coin()) index(n.s.size());
        else slice(n.s.size());
        break;
    case node::list:
        if(r.chance(1, 6)) attr({U"size"});
        else if(r.chance(1, 4)) slice(n.items.size());
        else index(n.items.size());
        break;
    case node::bools:
    case node::tuple:
        if(r.chance(1, 6)) attr({U"size"});
        else index(n.items.size());
        break;
    case node::pair:
        if(r.coin()) attr({U"size", U"first", U"second"});
        else index(2);
        break;
    case node::int_map:
        if(r.chance(1, 4)) attr({U"size", U"min", U"max"});
        else
        {
            s.kind = step::index;
            s.a = !n.ikeys.empty() && r.chance(3, 4) ? n.ikeys[r.below(n.ikeys.size())] : r.range(-4, 8);
            // keys that would match only after a truncation
            if(r.chance(1, 5)) s.a += r.pick({256ll, 65536ll, 1ll << 32, -(1ll << 32), -256ll});
        }
        break;
    case node::str_map:
        if(r.chance(1, 4)) attr({U"size", U"min", U"max"});
        else
        {
            s.kind = step::key;
            s.k = !n.skeys.empty() && r.chance(3, 4) ? n.skeys[r.below(n.skeys.size())] : px::any_text(r, 2);
            for(auto& c : s.k) if(c < 0x20) c = U'.';
        }
        break;
    case node::opt: attr({U"value", U"value", U"has_value"}); break;
    case node::exp: attr({U"value", U"error", U"has_value"}); break;
    case node::var:
        if(r.coin()) attr({U"value", U"index"});
        else index(static_cast<std::size_t>(n.order));
        break;
    case node::attrs: s.kind = step::attr; s.k = n.skeys[r.below(n.skeys.size())]; if(r.chance(1, 25)) s.k += U'x'; break;
    case node::cust:
        switch(r.below(3))
        {
        case 0: index(4); break;
        case 1: s.kind = step::key; s.k = px::any_text(r, 3); for(auto& c : s.k) if(c < 0x20) c = U'.'; break;
        default: attr({U"self", U"child", U"name", U"list"}); break;
        }
        break;
    default: index(2); break;
    }
    return s;
}
} // namespace model

template <typename C>
struct world
{
    using str_t = std::basic_string<C>;
    Rng& r;
    px::dyn_t<C> args;
    std::shared_ptr<void> keep;
    model::node n;
    const char* type = "";

    explicit world(Rng& rr) : r(rr) {}

    template <typename T>
    T& hold(T v)
    {
        auto p = std::make_shared<T>(std::move(v));
        keep = p;
        return *p;
    }
    int i() { return static_cast<int>(r.chance(1, 2) ? r.range(1, 30) : r.range(-100000, 100000)); }
    str_t s() { return ref::enc<C>(px::any_text(r, r.chance(1, 5) ? 30 : 6)); }
    template <typename F>
    auto vec(F f, std::size_t max) { std::vector<decltype(f())> v; for(std::size_t k = r.below(max + 1); k; --k) v.push_back(f()); return v; }
    std::tm tm()
    {
        std::tm t{};
        t.tm_year = static_cast<int>(r.range(-50, 300)); t.tm_mon = static_cast<int>(r.below(12)); t.tm_mday = static_cast<int>(r.range(1, 31));
        t.tm_hour = static_cast<int>(r.below(24)); t.tm_min = static_cast<int>(r.below(60)); t.tm_sec = static_cast<int>(r.below(60));
        t.tm_wday = static_cast<int>(r.below(7)); t.tm_yday = static_cast<int>(r.below(366)); t.tm_isdst = static_cast<int>(r.below(2));
        return t;
    }
    template <typename T>
    void put(const char* name, const T& obj, model::node nn)
    {
        type = name;
        n = std::move(nn);
        args.emplace(obj);
    }
    template <typename T>
    void put_auto(const char* name, T v) { T& o = hold(std::move(v)); put(name, o, model::of(o)); }

    void make()
    {
        using namespace model;
        namespace p = papilio;
        switch(r.below(27))
        {
        case 0: case 1: case 2: put_auto("string", s()); break;
        case 3: put_auto("vector<int>", vec([&] { return i(); }, 6)); break;
        case 4: put_auto("vector<string>", vec([&] { return s(); }, 5)); break;
        case 5: put_auto("vector<bool>", std::vector<bool>(vec([&] { return static_cast<char>(r.coin()); }, 9).size(), r.coin())); break;
        case 6: put_auto("vector<vector<int>>", vec([&] { return vec([&] { return i(); }, 4); }, 4)); break;
        case 7:
        {
            p::fixed_vector<int, 8> v;
            for(std::size_t k = r.below(9); k; --k) v.push_back(i());
            auto& o = hold(std::move(v));
            put("fixed_vector", o, of_list(o));
            break;
        }
        case 8:
        {
            p::small_vector<str_t, 2> v;
            for(std::size_t k = r.below(5); k; --k) v.push_back(s());
            auto& o = hold(std::move(v));
            put("small_vector", o, of_list(o));
            break;
        }
        case 9: { auto& o = hold(std::array<int, 5>{i(), i(), i(), i(), i()}); put("array", o, of_list(o)); break; }
        case 10:
        {
            struct box { int a[4]; };
            auto& o = hold(box{{i(), i(), i(), i()}});
            type = "C array";
            n = of_list(o.a);
            args.emplace(o.a);
            break;
        }
        case 11:
        {
            auto& o = hold(vec([&] { return i(); }, 7));
            node m = of_list(o);
            std::span<const int> sp(o);
            type = "span";
            n = m;
            args.emplace(sp);
            break;
        }
        case 12: put_auto("tuple", std::tuple<int, str_t, std::vector<int>, bool>(i(), s(), vec([&] { return i(); }, 4), r.coin())); break;
        case 13: put_auto("pair", std::pair<str_t, std::pair<int, std::vector<str_t>>>(s(), {i(), vec([&] { return s(); }, 3)})); break;
        case 14: put_auto("tuple of 2", std::tuple<int, str_t>(i(), s())); break;
        case 15: put_auto("empty tuple", std::tuple<>()); break;
        case 16:
        {
            std::map<int, str_t> m;
            for(std::size_t k = r.below(5); k; --k) m[static_cast<int>(r.range(-3, 6))] = s();
            auto& o = hold(std::move(m));
            put("map<int,string>", o, of_map(o, 1));
            break;
        }
        case 17:
        {
            std::map<str_t, std::vector<int>> m;
            for(std::size_t k = r.below(5); k; --k) m[ref::enc<C>(key())] = vec([&] { return i(); }, 3);
            auto& o = hold(std::move(m));
            put("map<string,vector>", o, of_map(o, 1));
            break;
        }
        case 18:
        {
            std::map<str_t, int, std::less<>> m;
            for(std::size_t k = r.below(5); k; --k) m[ref::enc<C>(key())] = i();
            auto& o = hold(std::move(m));
            put("map<string,int,less<>>", o, of_map(o, 1));
            break;
        }
        case 19:
        {
            std::map<long long, int, std::greater<long long>> m;
            for(std::size_t k = r.below(5); k; --k) m[r.range(-3, 6)] = i();
            auto& o = hold(std::move(m));
            put("map<long long,int,greater>", o, of_map(o, 2));
            break;
        }
        case 20:
        {
            std::map<unsigned char, int> m;
            for(std::size_t k = r.below(5); k; --k) m[static_cast<unsigned char>(r.coin() ? r.below(6) : r.range(250, 255))] = i();
            auto& o = hold(std::move(m));
            put("map<uchar,int>", o, of_map(o, 1));
            break;
        }
        case 21:
        {
            p::fixed_flat_map<int, int, 6> m;
            for(std::size_t k = r.below(6); k; --k) m.insert_or_assign(static_cast<int>(r.range(-3, 6)), i());
            auto& o = hold(std::move(m));
            put("fixed_flat_map", o, of_map(o, 1));
            break;
        }
        case 22:
            if(r.coin()) put_auto("optional<string>", r.chance(1, 3) ? std::optional<str_t>() : std::optional<str_t>(s()));
            else put_auto("optional<vector>", r.chance(1, 3) ? std::optional<std::vector<int>>() : std::optional<std::vector<int>>(vec([&] { return i(); }, 4)));
            break;
        case 23:
        {
            std::variant<int, str_t, std::vector<int>> v;
            switch(r.below(3)) { case 0: v = i(); break; case 1: v = s(); break; default: v = vec([&] { return i(); }, 4); break; }
            put_auto("variant", std::move(v));
            break;
        }
        case 24:
        {
            auto& o = hold(tm());
            node m = N(node::attrs);
            auto add = [&](const char32_t* k, node v) { m.skeys.push_back(k); m.items.push_back(std::move(v)); };
            add(U"year", nint(o.tm_year + 1900)); add(U"mday", nint(o.tm_mday)); add(U"hour", nint(o.tm_hour)); add(U"min", nint(o.tm_min));
            add(U"sec", nint(o.tm_sec)); add(U"wday", nint(o.tm_wday)); add(U"yday", nint(o.tm_yday)); add(U"is_dst", nbool(o.tm_isdst != 0)); add(U"month", nint(o.tm_mon));
            put("tm", o, m);
            break;
        }
        case 25:
#ifdef PAPILIO_HAS_LIB_EXPECTED
            if(r.coin())
            {
                std::expected<str_t, int> e = r.coin() ? std::expected<str_t, int>(s()) : std::expected<str_t, int>(std::unexpected(i()));
                auto& o = hold(std::move(e));
                node m = N(node::exp);
                m.i = o.has_value();
                m.items = {o ? of(*o) : of(o.error())};
                put("expected", o, m);
                break;
            }
#endif
            {
                std::type_index t = r.coin() ? std::type_index(typeid(int)) : std::type_index(typeid(std::vector<int>));
                auto& o = hold(t);
                node m = N(node::attrs);
                m.skeys = {U"name", U"hash_code"};
                m.items = {nstr(ref::ascii(o.name())), N(node::opaque)};
                put("type_index", o, m);
            }
            break;
        default: put_auto("user type", custom{r.range(0, 100000)}); break;
        }
    }

    U32 key()
    {
        U32 k = px::any_text(r, 3);
        for(auto& c : k) if(c < 0x20) c = U'.';
        if(r.chance(1, 4)) k += r.coin() ? U'\'' : U'\\';
        return k;
    }
};

template <typename C>
void access_case(Case& c)
{
    Rng& r = c.rng;
    world<C> w(r);
    w.make();
    std::vector<model::step> steps;
    std::optional<model::node> cur = w.n;
    std::size_t len = r.chance(1, 20) ? 0 : 1 + r.below(4);
    for(std::size_t k = 0; k < len && cur; ++k)
    {
        if(cur->kind == model::node::null && r.coin()) break;
        steps.push_back(model::random_step(r, *cur));
        cur = model::apply(*cur, steps.back(), sizeof(C));
        if(cur && (cur->kind == model::node::integer || cur->kind == model::node::boolean) && r.chance(9, 10)) break;
    }
    U32 chain;
    for(auto& s : steps) chain += s.text();
    // a second argument for the width context
    w.args.emplace(U'|');
    U32 want;
    bool known = true, error = false;
    U32 f;
    std::optional<U32> t;
    if(cur) t = model::text(*cur);
    int ctx = static_cast<int>(r.below(8));
    if(!cur || cur->kind == model::node::null) { error = true; ctx = ctx == 7 ? 6 : 0; }
    else if(!t) { known = false; ctx = 0; }
    using model::node;
    if(cur && (cur->kind == node::chr || cur->kind == node::cust || cur->kind == node::list || cur->kind == node::boolean)) ctx = 0;
    if(ctx == 7 && cur->kind == node::str)
        for(char32_t ch : cur->s) if(ch < 0x20) ctx = 0;
    if(ctx < 5)
    {
        f = U"{0" + chain + U"}";
        if(t) want = *t;
        if(known && !error && r.chance(1, 4) && (cur->kind == node::integer || cur->kind == node::str))
        {
            ref::Spec s;
            s.align = r.pick({U'<', U'>', U'^'});
            s.has_width = true;
            s.width = 1 + r.below(20);
            f = U"{0" + chain + U":" + s.text() + U"}";
            want = ref::pad(*t, s, U'<');
        }
    }
    else if(ctx == 5 || ctx == 6) // dynamic width
    {
        f = U"{1:*<{0" + chain + U"}}";
        bool ok = cur && cur->kind == node::integer && cur->i >= 1 && cur->i <= 3000;
        if(!ok) error = true;
        else want = U"|" + U32(static_cast<std::size_t>(cur->i) - 1, U'*');
        if(cur && cur->kind == node::integer && cur->i > 3000) { f = U"{0" + chain + U"}"; error = false; want = *t; }
        // a zero width may be refused or ignored
        if(cur && cur->kind == node::integer && cur->i == 0) known = false, error = false;
    }
    else // condition of a script
    {
        bool eq = r.coin();
        U32 lit;
        if(cur->kind == node::integer) lit = ref::ascii(std::to_string(eq ? cur->i : cur->i + 1));
        else
        {
            lit = U"'";
            for(char32_t ch : cur->s) { if(ch == U'\'' || ch == U'\\') lit += U'\\'; lit += ch; }
            lit += eq ? U"'" : U"x'";
        }
        f = U"{$ {0" + chain + U"} == " + lit + U" ? 'yes' : 'no'}";
        want = eq ? U"yes" : U"no";
    }
    c.desc(cat(sizeof(C), "-byte ", w.type, " format ", show(f)));
    px::exact<C> fe(ref::enc<C>(f));
    auto got = px::vformat<C>(fe.view(), w.args);
    if(!known)
    {
        c.eval();
        c.count("opaque");
    }
    else if(error)
    {
        c.check(!got.ok(), "nothing there", [&] { return cat("got ", got.show()); });
        c.count(cur ? "null_results" : "refused");
    }
    else
    {
        auto e = ref::enc<C>(want);
        c.check(got.ok() && got.s == e, "access", [&] { return cat("got ", got.show(), " want ", show(std::basic_string_view<C>(e))); });
        c.count("addressed");
        if(steps.size() > 1) c.count("chained");
        if(ctx == 7) c.count("in_condition");
        if(ctx == 5 || ctx == 6) c.count("in_width");
    }
    // the same through the interface of the arguments
    if(r.coin() && !steps.empty())
    {
        try
        {
            std::vector<std::unique_ptr<papilio::basic_format_arg<px::ctx_t<C>>>> hold;
            px::args_ref_t<C> ar = w.args;
            const papilio::basic_format_arg<px::ctx_t<C>>* a = &ar[0];
            std::deque<std::basic_string<C>> names;
            for(auto& s : steps)
            {
                names.push_back(ref::enc<C>(s.k));
                using arg_t = papilio::basic_format_arg<px::ctx_t<C>>;
                std::unique_ptr<arg_t> nx;
                std::basic_string_view<C> nm = names.back();
                switch(s.kind)
                {
                case model::step::index: nx = std::make_unique<arg_t>(a->index(static_cast<papilio::ssize_t>(s.a))); break;
                case model::step::slice: nx = std::make_unique<arg_t>(a->index(papilio::index_range(s.has_a ? s.a : 0, s.has_b ? s.b : papilio::index_range::npos))); break;
                case model::step::key: nx = std::make_unique<arg_t>(a->index(papilio::basic_indexing_value<C>(nm))); break;
                default: nx = std::make_unique<arg_t>(a->attribute(papilio::basic_attribute_name<C>(nm))); break;
                }
                hold.push_back(std::move(nx));
                a = hold.back().get();
            }
            c.check(bool(cur), "interface access should fail", "");
            c.check(!cur || a->empty() == (cur->kind == node::null), "interface access null", "");
            if(cur && t)
            {
                px::dyn_t<C> one;
                one.emplace(*a);
                auto g = px::vformat<C>(ref::enc<C>(U"{}"), one);
                auto e = ref::enc<C>(*t);
                c.check(g.ok() && g.s == e, "interface access", [&] { return cat("got ", g.show(), " want ", show(std::basic_string_view<C>(e))); });
                c.count("interface_addressed");
            }
        }
        catch(const std::exception& e)
        {
            c.check(!cur, "interface access", [&] { return cat("exception ", e.what()); });
        }
    }
    c.nontrivial(cat(w.type, show(f), sizeof(C)));
    c.sample(cat(w.type, " ", show(f), " -> ", error ? std::string("refused") : show(want)));
}
