// Format strings from a loose grammar with mutations, and packs of every kind of argument, for any context
#pragma once
#include <array>
#include <ctime>
#include <deque>
#include <filesystem>
#include <list>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <thread>
#include <tuple>
#include <typeinfo>
#include <variant>
#include <vector>
#include "fmt.hpp"
#include <papilio/container.hpp>
#include <papilio/accessor/chrono.hpp>
#include <papilio/accessor/misc.hpp>
#include <papilio/accessor/ranges.hpp>
#include <papilio/accessor/tuple.hpp>
#include <papilio/accessor/vocabulary.hpp>
#include <papilio/formatter/chrono.hpp>
#include <papilio/formatter/filesystem.hpp>
#include <papilio/formatter/misc.hpp>
#include <papilio/formatter/tuple.hpp>
#include <papilio/formatter/vocabulary.hpp>

namespace wild
{
using vh::Rng;
using ref::U32;

// A type with its own formatter and accessor
struct custom
{
    long long id = 0;
};
enum class pet { cat = 1, dog = 2, owl = -5 };
} // namespace wild

template <typename C>
class papilio::formatter<wild::custom, C>
{
public:
    template <typename ParseContext>
    auto parse(ParseContext& ctx) -> typename ParseContext::iterator
    {
        auto it = ctx.begin();
        while(it != ctx.end() && (*it == U'<' || *it == U'!'))
        {
            ++m_marks;
            ++it;
        }
        return it;
    }
    template <typename Context>
    auto format(const wild::custom& v, Context& ctx) const -> typename Context::iterator
    {
        using tr = papilio::format_context_traits<Context>;
        for(std::size_t i = 0; i < m_marks; ++i) tr::append(ctx, papilio::utf::codepoint(U'«'));
        for(char x : std::to_string(v.id)) tr::append(ctx, papilio::utf::codepoint(static_cast<char32_t>(x)));
        return tr::out(ctx);
    }

private:
    std::size_t m_marks = 0;
};

template <typename Context>
struct papilio::accessor<wild::custom, Context>
{
    using C = typename Context::char_type;
    using arg = papilio::basic_format_arg<Context>;
    static wild::custom index(const wild::custom& v, papilio::ssize_t i) { return wild::custom{(v.id * 3 + i % 7) % 1000003}; }
    static std::basic_string<C> index(const wild::custom& v, std::basic_string_view<C> k)
    {
        return std::basic_string<C>(k) + ref::enc<C>(ref::ascii(std::to_string(v.id)));
    }
    static arg attribute(const wild::custom& v, const papilio::basic_attribute_name<C>& a)
    {
        if(a == PAPILIO_TSTRING_VIEW(C, "self")) return v;
        if(a == PAPILIO_TSTRING_VIEW(C, "child")) return arg(papilio::independent, wild::custom{v.id + 1});
        if(a == PAPILIO_TSTRING_VIEW(C, "list")) return arg(papilio::independent, std::vector<int>{static_cast<int>(v.id % 100), 7});
        if(a == PAPILIO_TSTRING_VIEW(C, "name")) return ref::enc<C>(U"a name " + ref::ascii(std::to_string(v.id)));
        papilio::throw_invalid_attribute(a);
    }
};

namespace wild
{
// numbers that as a width or precision are either small or refused
inline long long number(Rng& r)
{
    switch(r.below(6))
    {
    case 0: return static_cast<long long>(r.next() | (1ull << 40));
    case 1: return -static_cast<long long>(r.below(1000));
    case 2: return r.pick<long long>({0ll, 1ll, -1ll, 127ll, 128ll, 255ll, INT64_MIN, INT64_MAX, -2147483648ll, 0x110000ll << 20});
    default: return static_cast<long long>(r.below(60));
    }
}

inline const std::vector<U32>& names()
{
    static const std::vector<U32> n{U"a", U"name", U"_x1", U"名前", U"ab", U"value"};
    return n;
}

// strings and values no well-behaved program would pass (with different decisions in each character type)
inline bool hostile = false;
template <typename C>
C any_unit(Rng& r)
{
    if constexpr(sizeof(C) == 1) return static_cast<C>(r.coin() ? 0x80 + r.below(128) : r.below(256));
    else if constexpr(sizeof(C) == 2) return static_cast<C>(r.coin() ? 0xD800 + r.below(0x800) : r.below(0x10000));
    else return static_cast<C>(r.pick<std::uint32_t>({0xD800u, 0xDFFFu, 0x110000u, 0xFFFFFFFFu, 0x80000000u, 0x1FFFFFu, static_cast<std::uint32_t>(r.next())}));
}
template <typename C>
void break_units(Rng& r, std::basic_string<C>& s, std::size_t n)
{
    for(std::size_t i = r.below(n + 1); i > 0; --i)
    {
        std::size_t p = r.below(s.size() + 1);
        switch(r.below(4))
        {
        case 0: if(p < s.size()) s.erase(p, 1 + r.below(3)); break;
        case 1: if(p < s.size()) s[p] = any_unit<C>(r); break;
        case 2: s.resize(p); break;
        default: s.insert(p, 1, any_unit<C>(r)); break;
        }
    }
}

// what kind of argument is where
enum kind_t { k_int, k_flt, k_str, k_chr, k_bool, k_ptr, k_list, k_smap, k_imap, k_tuple, k_opt, k_var, k_custom, k_tm, k_enum, k_other };
struct shape
{
    std::vector<kind_t> pos, named;
};
inline kind_t kind_of(std::string_view d)
{
    if(d == "int" || d == "short" || d == "long long" || d.starts_with("unsigned")) return k_int;
    if(d == "double" || d == "float" || d == "long double") return k_flt;
    if(d == "string" || d == "string_view" || d == "const char*") return k_str;
    if(d == "character" || d == "codepoint") return k_chr;
    if(d == "bool") return k_bool;
    if(d == "pointer") return k_ptr;
    if(d.starts_with("vector")) return k_list;
    if(d == "map<string,int>") return k_smap;
    if(d == "map<int,string>") return k_imap;
    if(d == "pair" || d == "tuple") return k_tuple;
    if(d == "optional") return k_opt;
    if(d == "variant") return k_var;
    if(d == "custom") return k_custom;
    if(d == "tm") return k_tm;
    if(d == "enum") return k_enum;
    return k_other;
}

template <typename Context>
struct pack
{
    using C = typename Context::char_type;
    using S = std::basic_string<C>;
    std::deque<std::shared_ptr<void>> keep;
    papilio::basic_dynamic_format_args<Context, C> args;
    std::string desc;
    std::size_t pos = 0, named = 0;
    shape sh;

    template <typename T>
    T& hold(T v)
    {
        auto p = std::make_shared<T>(std::move(v));
        keep.push_back(p);
        return *p;
    }
    template <typename T>
    void put(bool name, const char* d, T v)
    {
        auto& x = hold(std::move(v));
        put_ref(name, d, x);
    }
    template <typename T>
    void put_ref(bool name, const char* d, T& x)
    {
        if(name && named < names().size())
        {
            auto& n = hold(ref::enc<C>(names()[named]));
            args.emplace(papilio::arg(std::basic_string_view<C>(n), x));
            ++named;
            sh.named.push_back(kind_of(d));
            desc += " named " + std::string(d) + ",";
        }
        else
        {
            args.emplace(x);
            ++pos;
            sh.pos.push_back(kind_of(d));
            desc += " " + std::string(d) + ",";
        }
    }
    static S str(Rng& r, std::size_t n = 6)
    {
        S s = ref::enc<C>(px::any_text(r, n));
        if(hostile && r.chance(1, 3)) break_units(r, s, 3);
        return s;
    }
    static int small(Rng& r) { return static_cast<int>(r.below(100)); }
    // every random decision is the same for every character type
    void add(Rng& r)
    {
        bool nm = r.chance(1, 3);
        switch(r.below(30))
        {
        case 0: put(nm, "int", static_cast<int>(r.range(-300, 300))); break;
        case 1: put(nm, "long long", number(r)); break;
        case 2: put(nm, "unsigned long long", static_cast<unsigned long long>(number(r))); break;
        case 3: put(nm, "unsigned char", static_cast<unsigned char>(r.below(256))); break;
        case 4: put(nm, "short", static_cast<short>(r.range(-500, 500))); break;
        case 5: put(nm, "bool", r.coin()); break;
        case 6: put(nm, "character", hostile && r.coin() ? any_unit<C>(r) : static_cast<C>(r.below(128))); break;
        case 7: put(nm, "codepoint", papilio::utf::codepoint(px::any_cp(r))); break;
        case 8: put(nm, "double", static_cast<double>(r.range(-4000, 4000)) / 8); break;
        case 9: put(nm, "double", r.pick({0.0, -0.0, 1e308, 5e-324, 0.1, 1.0 / 3, static_cast<double>(INFINITY), -static_cast<double>(INFINITY), static_cast<double>(NAN), 1e22, 123456789.0})); break;
        case 10: put(nm, "float", static_cast<float>(r.range(-4000, 4000)) / 8); break;
        case 11: put(nm, "long double", static_cast<long double>(r.range(-4000, 4000)) / 8); break;
        case 12:
        case 13:
        case 14: put(nm, "string", str(r)); break;
        case 15:
        {
            auto& s = hold(str(r));
            put(nm, "string_view", std::basic_string_view<C>(s));
            break;
        }
        case 16:
        {
            auto& s = hold(str(r));
            put(nm, "const char*", s.c_str());
            break;
        }
        case 17: put(nm, "pointer", reinterpret_cast<const void*>(static_cast<std::uintptr_t>(r.chance(1, 4) ? 0 : r.next()))); break;
        case 18:
        {
            std::vector<int> v;
            for(std::size_t i = r.below(5); i > 0; --i) v.push_back(small(r));
            put(nm, "vector<int>", v);
            break;
        }
        case 19:
        {
            std::vector<S> v;
            for(std::size_t i = r.below(4); i > 0; --i) v.push_back(str(r, 4));
            put(nm, "vector<string>", v);
            break;
        }
        case 20:
        {
            std::map<S, int> m;
            for(std::size_t i = r.below(4); i > 0; --i) { S k = ref::enc<C>(U32(1, static_cast<char32_t>(U'a' + r.below(4)))); m[k] = small(r); }
            put(nm, "map<string,int>", m);
            break;
        }
        case 21:
        {
            std::map<int, S> m;
            for(std::size_t i = r.below(4); i > 0; --i) { int k = static_cast<int>(r.range(-2, 4)); m[k] = str(r, 4); }
            put(nm, "map<int,string>", m);
            break;
        }
        case 22: { int a = small(r); put(nm, "pair", std::pair<int, S>(a, str(r))); break; }
        case 23: { int a = small(r); S s = str(r); put(nm, "tuple", std::tuple<int, S, bool>(a, s, r.coin())); break; }
        case 24: put(nm, "optional", r.coin() ? std::optional<S>(str(r)) : std::nullopt); break;
        case 25: put(nm, "variant", r.coin() ? std::variant<std::monostate, int, S>(str(r)) : r.coin() ? std::variant<std::monostate, int, S>(small(r)) : std::variant<std::monostate, int, S>()); break;
        case 26: put(nm, "custom", custom{static_cast<long long>(r.below(1000))}); break;
        case 27:
        {
            std::tm t{};
            t.tm_year = static_cast<int>(r.range(-800, 8000));
            t.tm_mon = static_cast<int>(r.range(0, 11));
            t.tm_mday = static_cast<int>(r.range(1, 31));
            t.tm_hour = static_cast<int>(r.below(24));
            t.tm_wday = static_cast<int>(r.below(7));
            t.tm_yday = static_cast<int>(r.below(366));
            if(hostile && r.coin())
            {
                auto wrong = [&] { return r.coin() ? static_cast<int>(r.range(-20, 500)) : static_cast<int>(r.next()); };
                if(r.coin()) t.tm_mon = wrong();
                if(r.coin()) t.tm_wday = wrong();
                if(r.coin()) t.tm_year = wrong();
                if(r.coin()) t.tm_mday = wrong();
                if(r.coin()) t.tm_hour = wrong();
            }
            put(nm, "tm", t);
            break;
        }
        case 28: put(nm, "enum", static_cast<pet>(r.range(-6, 6))); break;
        default:
            if(r.coin()) put(nm, "path", std::filesystem::path("a/b//c d"));
            else
            {
                std::vector<std::vector<C>> v(r.below(3));
                for(auto& x : v)
                    for(std::size_t i = r.below(4); i > 0; --i) x.push_back(static_cast<C>(r.below(128)));
                put(nm, "vector<vector<char>>", v);
            }
            break;
        }
    }
    void fill(Rng& r)
    {
        for(std::size_t i = static_cast<std::size_t>(r.range(0, 6)); i > 0; --i) add(r);
    }
};

struct grammar
{
    Rng& r;
    const shape& sh;
    bool automatic = r.coin();
    std::size_t next = 0;
    bool strange = r.chance(1, 4); // otherwise mostly things that fit

    U32 id(kind_t& k, std::optional<kind_t> want = {})
    {
        std::size_t named = sh.named.size(), pos = sh.pos.size();
        k = k_other;
        for(int i = 0; i < 4; ++i)
        {
            if(named && r.chance(1, 3))
            {
                std::size_t n = r.below(named);
                k = sh.named[n];
                if(want && k != *want && i < 3) continue;
                return names()[n];
            }
            if(automatic && next < pos)
            {
                k = sh.pos[next];
                if(want && k != *want && i < 3) continue;
                ++next;
                return U"";
            }
            if(automatic && named && !strange) continue;
            if(strange && r.chance(1, 8)) return r.coin() ? r.pick(names()) : ref::ascii(std::to_string(r.below(9)));
            std::size_t n = r.below(pos ? pos : 1);
            if(n < pos) k = sh.pos[n];
            if(want && k != *want && i < 3) continue;
            return automatic && r.chance(1, 4) ? U"" : ref::ascii(std::to_string(n));
        }
        return U"0";
    }
    U32 num(long long a, long long b) { return ref::ascii(std::to_string(r.range(a, b))); }
    U32 any_index()
    {
        switch(r.below(7))
        {
        case 0: return U"[" + num(-5, 5) + U"]";
        case 1: return U"[" + num(-5, 5) + U":" + num(-5, 6) + U"]";
        case 2: return U"[" + num(-5, 5) + U":]";
        case 3: return U"[:" + num(-5, 5) + U"]";
        case 4: return r.pick({U"[:]", U"['a']", U"['b']", U"['it\\'s']", U"['']", U"['文']"});
        default: return U32(U".") + r.pick({U"length", U"first", U"second", U"min", U"max", U"self", U"child", U"list", U"name", U"year", U"month", U"has_value", U"value", U"index", U"nonsense"});
        }
    }
    U32 index(kind_t& k)
    {
        kind_t was = k;
        if(strange && r.coin()) { k = k_other; return any_index(); }
        k = k_other;
        switch(was)
        {
        case k_str:
            if(r.chance(1, 4)) { k = k_int; return U".length"; }
            if(r.chance(1, 3)) { k = k_chr; return U"[" + num(-3, 3) + U"]"; }
            k = k_str;
            return r.pick({U"[:]", U"[1:]", U"[:2]", U"[-2:]", U"[1:3]", U"[:-1]", U"[0:9]"});
        case k_list: return U"[" + num(-2, 2) + U"]";
        case k_smap: k = k_int; return r.pick({U"['a']", U"['b']", U"['c']", U".min", U".max"});
        case k_imap: k = k_str; return r.coin() ? U"[" + num(-2, 4) + U"]" : r.coin() ? U".min" : U".max";
        case k_tuple: k = k_int; return r.coin() ? U"[0]" : U"[-2]";
        case k_custom:
            switch(r.below(5))
            {
            case 0: k = k_str; return r.coin() ? U".name" : U"['文 x']";
            case 1: k = k_list; return U".list";
            case 2: k = k_custom; return U"[" + num(-9, 9) + U"]";
            default: k = k_custom; return r.coin() ? U".self" : U".child";
            }
        case k_tm: k = k_int; return r.pick({U".year", U".month", U".day", U".hour"});
        case k_var: k = k_int; return U".index";
        case k_opt: return r.coin() ? U".has_value" : U".value";
        default: k = was; return strange ? any_index() : U"";
        }
    }
    U32 access(kind_t& k)
    {
        U32 t;
        if(r.chance(2, 3)) return t;
        for(std::size_t i = static_cast<std::size_t>(r.range(1, 3)); i > 0; --i) t += index(k);
        return t;
    }
    U32 count()
    {
        if(r.chance(1, 3))
        {
            kind_t k;
            U32 t = U"{" + id(k, k_int);
            if(k == k_int || strange) return t + access(k) + U"}";
            return t + U"}";
        }
        return num(strange ? 0 : 1, 30);
    }
    U32 spec(kind_t k)
    {
        bool odd = strange && r.coin();
        if(odd) k = static_cast<kind_t>(r.below(k_other + 1));
        switch(k)
        {
        case k_list: return r.pick({U"n", U"", U"n:", U":", U":>5", U"n:>3", U"n:n"});
        case k_smap:
        case k_imap: return r.pick({U"n", U"m", U"n:m", U"m:n", U":n", U"n:n"});
        case k_tuple: return r.pick({U"n", U""});
        case k_opt:
        case k_var: return U"";
        case k_custom: return r.pick({U"<", U"!<", U"<<<", U""});
        case k_tm: return r.pick({U"%Y-%m-%d", U"%A", U">30%H:%M", U"<30", U"*^40%d"});
        default: break;
        }
        U32 t;
        bool number = k == k_int || k == k_flt;
        if(r.chance(1, 3))
        {
            if(r.coin()) t += r.coin() ? px::any_cp(r) : r.pick({U'*', U'0', U'<', U'+', U'-'});
            t += r.pick({U'<', U'>', U'^'});
        }
        if((number || odd) && r.chance(1, 4)) t += r.pick({U'+', U'-', U' '});
        if((k == k_int || odd) && r.chance(1, 5)) t += U'#';
        if((number || odd) && r.chance(1, 5)) t += U'0';
        if(r.coin()) t += count();
        if((k == k_flt || k == k_str || odd) && r.chance(1, 4)) t += U"." + count();
        if(r.coin())
        {
            if(odd) t += r.pick({U'd', U'x', U'X', U'b', U'B', U'o', U'c', U's', U'?', U'f', U'e', U'g', U'a', U'G', U'A', U'p', U'P', U'q'});
            else if(k == k_int) t += r.pick({U'd', U'x', U'X', U'b', U'B', U'o'});
            else if(k == k_flt) t += r.pick({U'f', U'e', U'g', U'a', U'F', U'G', U'E', U'A'});
            else if(k == k_str) t += r.pick({U's', U'?'});
            else if(k == k_chr) t += r.pick({U'c', U'?', U'd', U'x'});
            else if(k == k_bool || k == k_enum) t += r.pick({U's', U'd', U'x', U'b'});
            else if(k == k_ptr) t += r.pick({U'p', U'P'});
        }
        return t;
    }
    U32 replacement(bool with_spec = true)
    {
        kind_t k;
        U32 t = U"{" + id(k);
        t += access(k);
        if(with_spec && r.coin()) t += U":" + spec(k);
        return t + U"}";
    }
    U32 quoted()
    {
        U32 t = U"'";
        for(char32_t c : px::any_text(r, 4))
        {
            if(c == U'\'' || c == U'\\') t += U'\\';
            t += c;
        }
        if(r.chance(1, 4)) t += r.pick({U"\\'", U"\\\\", U"\\n", U"\\x", U"{", U"}", U"{}"});
        return t + U"'";
    }
    U32 ws() { return r.chance(3, 4) ? U" " : r.pick({U"", U"  ", U"\t", U"\n "}); }
    U32 constant(kind_t like)
    {
        if(strange && r.chance(1, 3)) like = static_cast<kind_t>(r.below(4));
        if(like == k_str || like == k_chr) return quoted();
        if(like == k_int || like == k_bool || like == k_enum) return num(-20, 60);
        if(strange) return r.pick({U"1.5", U"-0.125", U"3.", U".5", U"1e3", U"0x10", U"--1", U"1.2.3", U"'"});
        return r.pick({U"1.5", U"-0.125", U"2.25", U".5", U"100"});
    }
    U32 script(bool nested = false)
    {
        U32 t = nested ? U"$" : U"{$";
        t += ws();
        if(r.chance(1, 4)) t += U"!" + ws();
        kind_t k = k_int;
        static const kind_t good[] = {k_int, k_flt, k_str, k_bool};
        auto arg = [&](std::optional<kind_t> want)
        {
            U32 a = U"{" + id(k, want);
            a += access(k);
            return a + U"}";
        };
        if(r.chance(1, 5)) t += constant(k);
        else t += arg(good[r.below(4)]);
        if(t.find(U'!') == U32::npos && r.chance(2, 3))
        {
            t += ws() + (strange ? r.pick({U"=", U"=>", U"&&", U"<", U"!"}) : r.pick({U"==", U"!=", U"<", U">", U"<=", U">="})) + ws();
            if(r.chance(1, 3)) t += arg(k);
            else t += constant(k);
        }
        t += ws() + U"?" + ws() + branch();
        if(r.chance(2, 3)) t += ws() + U":" + ws() + (r.chance(1, 4) ? script(true) : branch());
        return nested ? t : t + ws() + U"}";
    }
    U32 branch() { return r.coin() ? quoted() : replacement(); }
    U32 all()
    {
        U32 t;
        for(std::size_t i = static_cast<std::size_t>(r.range(1, 4)); i > 0; --i)
        {
            switch(r.below(6))
            {
            case 0: t += px::any_text(r, 4); break;
            case 1: t += r.coin() ? U"{{" : U"}}"; break;
            case 2: t += script(); break;
            default: t += replacement(); break;
            }
        }
        return t;
    }
};

inline void mutate(Rng& r, U32& t)
{
    static const U32 special = U"{}{}[]:.?$!'\\<>=+-# 0123456789nmsdxcL%^*_aé文";
    for(std::size_t i = static_cast<std::size_t>(r.range(1, 3)); i > 0; --i)
    {
        std::size_t p = r.below(t.size() + 1);
        switch(r.below(6))
        {
        case 0: t.insert(p, 1, special[r.below(special.size())]); break;
        case 1: t.insert(p, 1, px::any_cp(r)); break;
        case 2: if(p < t.size()) t.erase(p, 1); break;
        case 3: if(p < t.size()) t[p] = special[r.below(special.size())]; break;
        case 4: t.resize(p); break; // cut off
        default:
            if(!t.empty())
            {
                std::size_t q = r.below(t.size());
                U32 s = t.substr(q, r.below(6));
                t.insert(p, s);
            }
        }
    }
}

// the longest run of digits
inline std::size_t digits(const U32& t)
{
    std::size_t n = 0, best = 0;
    for(char32_t c : t)
    {
        n = c >= U'0' && c <= U'9' ? n + 1 : 0;
        best = std::max(best, n);
    }
    return best;
}

inline U32 format_string(Rng& r, const shape& sh)
{
    U32 t = grammar{r, sh}.all();
    if(r.chance(1, 4)) mutate(r, t);
    return t;
}
} // namespace wild
