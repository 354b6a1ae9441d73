#pragma once
// C23: compound values are put together from the text of their parts.
// K<C, T> knows for a type T how to make a random value, how to make a random specification, and what the text is.
#include <array>
#include <cmath>
#include <cstdio>
#include <ctime>
#include <deque>
#include <filesystem>
#include <forward_list>
#include <list>
#include <map>
#include <memory>
#include <optional>
#include <ranges>
#include <set>
#include <span>
#include <sstream>
#include <thread>
#include <tuple>
#include <typeinfo>
#include <unordered_map>
#include <variant>
#include <vector>
#include <version>
#ifdef __cpp_lib_expected
#    include <expected>
#endif
#include "fmt.hpp"
#include <papilio/container.hpp>
#include <papilio/xchar.hpp>
#include <papilio/formatter/chrono.hpp>
#include <papilio/formatter/filesystem.hpp>
#include <papilio/formatter/misc.hpp>
#include <papilio/formatter/tuple.hpp>
#include <papilio/formatter/vocabulary.hpp>
using namespace vh;
using ref::U32;

// ranges whose kind is chosen by the user
namespace { enum class hidden { seen = 1, deep = -5 }; }
namespace c23
{
template <typename C, int K>
struct chosen
{
    std::basic_string<C> s;
    auto begin() const { return s.begin(); }
    auto end() const { return s.end(); }
};
} // namespace c23
template <typename C, int K>
constexpr inline papilio::range_format papilio::format_kind<c23::chosen<C, K>> = static_cast<papilio::range_format>(K);
static_assert(!papilio::formattable<c23::chosen<char, 0>, char>);
namespace c23
{
template <typename T> struct dressed;
template <typename C, typename Base> struct dresser;
template <typename T, typename C>
using formatter_of = std::conditional_t<std::ranges::input_range<T>, papilio::range_formatter<T, C>, papilio::formatter<T, C>>;
} // namespace c23
template <typename T, typename C>
class papilio::formatter<c23::dressed<T>, C> : public c23::dresser<C, c23::formatter_of<T, C>>
{
public:
    template <typename X>
    auto format(const c23::dressed<T>& v, X& ctx) const { return c23::formatter_of<T, C>::format(v.inner, ctx); }
};

namespace c23
{

// brackets and separators chosen by the user, through a formatter that inherits from the one of the library
struct dress
{
    U32 open, close, sep;
    bool set_brackets = false, set_sep = false, debug = false;
    static dress& now() { static dress d; return d; }
    template <typename C>
    struct units
    {
        std::basic_string<C> open, close, sep;
        static units& now() { static units u; return u; }
    };
};
template <typename T>
struct dressed
{
    T inner;
};

// a specification, as text and as meaning
struct es
{
    U32 text;
    ref::Spec sp;
    char32_t kind = 0; // n m s of ranges and tuples
    bool debug = false;
    std::shared_ptr<es> in; // of the elements
    U32 extra; // of a calendar time
};
inline const es& empty_spec()
{
    static const es e;
    return e;
}

template <typename C, typename Base>
struct dresser : Base
{
    dresser()
    {
        auto& d = dress::now();
        auto& u = dress::units<C>::now();
        if(d.set_sep) this->set_separator(u.sep);
        if(d.set_brackets) this->set_brackets(u.open, u.close);
        if constexpr(requires { this->set_debug_format(); }) if(d.debug) this->set_debug_format();
    }
};

template <typename C, typename T>
struct K;

// texts without characters that need an escape by number
inline U32 text(Rng& r, bool ascii)
{
    U32 s;
    for(std::size_t i = r.below(6); i > 0; --i)
        s += !ascii && r.chance(1, 3) ? r.pick({U'é', U'文', U'🦋', U'ß', U'、'}) : r.pick({U'a', U'b', U'Z', U'"', U'\'', U'\\', U'\n', U'\t', U'\r', U' ', U',', U'[', U'{', U'}', U':', U'0'});
    return s;
}
inline U32 escaped(const U32& s)
{
    U32 o;
    for(char32_t c : s) o += ref::escape_cp(c, true);
    return o;
}
inline ref::Spec box(Rng& r) // fill, align and width only
{
    ref::Spec s = px::any_spec(r);
    s.sign = 0;
    s.alt = s.zero = s.L = false;
    if(s.has_width) s.width = s.width % 24 + 1;
    return s;
}
inline es from(ref::Spec s)
{
    es e;
    e.sp = s;
    e.text = s.text();
    e.debug = s.type == U'?';
    return e;
}

template <typename C, typename T>
requires(std::integral<T> && !std::same_as<T, bool> && !papilio::char_like<T>)
struct K<C, T>
{
    static T make(Rng& r) { return r.coin() ? static_cast<T>(r.next()) : static_cast<T>(r.below(100)); }
    static es spec(Rng& r)
    {
        ref::Spec s = px::any_spec(r);
        s.L = false;
        if(s.has_width) s.width = s.width % 24 + 1;
        s.type = r.pick({U'\0', U'd', U'x', U'X', U'b', U'o', U'B'});
        return from(s);
    }
    static U32 show(T v, const es& e) { return ref::integer_of(v, e.sp); }
};
template <typename C>
struct K<C, bool>
{
    static bool make(Rng& r) { return r.coin(); }
    static es spec(Rng& r)
    {
        if(r.coin()) { es e = K<C, int>::spec(r); if(e.sp.type) return e; }
        ref::Spec s = box(r);
        s.type = r.pick({U'\0', U's'});
        return from(s);
    }
    static U32 show(bool v, const es& e)
    {
        if(e.sp.type && e.sp.type != U's') return ref::integer(false, v, e.sp);
        return ref::pad(v ? U"true" : U"false", e.sp, U'<');
    }
};
template <typename C, std::floating_point T>
struct K<C, T>
{
    static T make(Rng& r) { return static_cast<T>(r.range(-4000, 4000)) / 8; }
    static es spec(Rng& r)
    {
        ref::Spec s = px::any_spec(r);
        s.L = s.alt = false;
        if(s.has_width) s.width = s.width % 24 + 1;
        s.type = r.pick({U'\0', U'f', U'e', U'g', U'F', U'E', U'G'});
        if(r.coin()) s.has_prec = true, s.prec = static_cast<std::size_t>(r.range(1, 6));
        return from(s);
    }
    static U32 show(T v, const es& e) { return ref::floating(v, e.sp); }
};
// characters
template <typename C>
struct KC
{
    static es spec(Rng& r)
    {
        if(r.chance(1, 4)) { es e = K<C, int>::spec(r); if(e.sp.type) return e; }
        ref::Spec s = box(r);
        s.type = r.pick({U'\0', U'c', U'?'});
        if(s.type == U'?') { ref::Spec only; only.type = U'?'; s = only; }
        return from(s);
    }
    static U32 show(char32_t v, const es& e)
    {
        if(e.debug) return ref::escape_cp(v, false);
        if(e.sp.type && e.sp.type != U'c') return ref::integer(false, v, e.sp);
        return ref::pad(U32(1, v), e.sp, U'<');
    }
};
template <typename C>
struct K<C, papilio::utf::codepoint> : KC<C>
{
    static papilio::utf::codepoint make(Rng& r)
    {
        U32 t;
        while(t.empty()) t = text(r, false);
        return papilio::utf::codepoint(t[0]);
    }
    static char32_t cp(papilio::utf::codepoint c) { return static_cast<char32_t>(c); }
    static U32 show(papilio::utf::codepoint v, const es& e) { return KC<C>::show(cp(v), e); }
};
template <typename C, papilio::char_like T>
struct K<C, T> : KC<C>
{
    static T make(Rng& r)
    {
        U32 t;
        while(t.empty()) t = text(r, true);
        return static_cast<T>(t[0]);
    }
    static char32_t cp(T c) { return static_cast<char32_t>(c); }
    static U32 show(T v, const es& e) { return KC<C>::show(cp(v), e); }
};
// strings
template <typename C>
struct KS
{
    static es spec(Rng& r)
    {
        ref::Spec s = box(r);
        s.type = r.pick({U'\0', U's', U'?'});
        if(s.type != U'?' && r.chance(1, 3)) s.has_prec = true, s.prec = static_cast<std::size_t>(r.range(1, 6));
        if(s.type == U'?') { ref::Spec only; only.type = U'?'; s = only; }
        return from(s);
    }
    static U32 show(const U32& v, const es& e) { return e.debug ? escaped(v) : ref::string(v, e.sp); }
    // texts that live forever
    static const std::basic_string<C>& pool(Rng& r)
    {
        static const std::vector<std::basic_string<C>> p = []
        {
            std::vector<std::basic_string<C>> v;
            Rng r(77);
            for(int i = 0; i < 64; ++i) v.push_back(ref::enc<C>(text(r, false)));
            return v;
        }();
        return r.pick(p);
    }
};
template <typename C>
struct K<C, std::basic_string<C>> : KS<C>
{
    static std::basic_string<C> make(Rng& r) { return ref::enc<C>(text(r, false)); }
    static U32 show(const std::basic_string<C>& s, const es& e) { return KS<C>::show(*ref::dec<C>(std::basic_string_view<C>(s)), e); }
};
template <typename C>
struct K<C, std::basic_string_view<C>> : KS<C>
{
    static std::basic_string_view<C> make(Rng& r) { return KS<C>::pool(r); }
    static U32 show(std::basic_string_view<C> s, const es& e) { return KS<C>::show(*ref::dec<C>(s), e); }
};
template <typename C>
struct K<C, papilio::utf::basic_string_container<C>> : KS<C>
{
    using T = papilio::utf::basic_string_container<C>;
    static T make(Rng& r)
    {
        if(r.coin()) return T(std::basic_string_view<C>(KS<C>::pool(r)));
        return T(papilio::independent, std::basic_string_view<C>(KS<C>::pool(r)));
    }
    static U32 show(const T& s, const es& e) { return KS<C>::show(*ref::dec<C>(std::basic_string_view<C>(s)), e); }
};
// enumerations
enum class colour : short { red = -3, green = 0, dark_blue = 127, none = -128, far_away = 1000 };
enum level : unsigned { low = 1, high = 100, over = 4000000000u };
enum class flag : bool { off, on };
enum class byte8 : unsigned char { zero, a = 7, top = 255 };
template <typename, typename>
struct holder { enum class inner : long { one = 1, two = 2 }; };
using inner = holder<std::vector<int>, const char*>::inner;
inline U32 name_of(hidden v) { return v == hidden::seen ? U"seen" : v == hidden::deep ? U"deep" : U""; }
inline U32 name_of(inner v) { return v == inner::one ? U"one" : v == inner::two ? U"two" : U""; }
inline U32 name_of(colour v)
{
    switch(v)
    {
    case colour::red: return U"red";
    case colour::green: return U"green";
    case colour::dark_blue: return U"dark_blue";
    case colour::none: return U"none";
    default: return U"";
    }
}
inline U32 name_of(level v) { return v == low ? U"low" : v == high ? U"high" : U""; }
inline U32 name_of(flag v) { return v == flag::on ? U"on" : U"off"; }
inline U32 name_of(byte8 v) { return v == byte8::zero ? U"zero" : v == byte8::a ? U"a" : U""; }
template <typename C, typename T>
requires std::is_enum_v<T>
struct K<C, T>
{
    static T make(Rng& r)
    {
        if constexpr(std::same_as<T, colour>) return r.chance(2, 3) ? r.pick({colour::red, colour::green, colour::dark_blue, colour::none, colour::far_away}) : static_cast<colour>(static_cast<short>(r.range(-140, 140)));
        else if constexpr(std::same_as<T, level>) return r.chance(2, 3) ? r.pick({low, high, over}) : static_cast<level>(r.below(140));
        else if constexpr(std::same_as<T, flag>) return static_cast<flag>(r.coin());
        else if constexpr(std::same_as<T, hidden> || std::same_as<T, inner>) return static_cast<T>(r.range(-6, 4));
        else return static_cast<T>(r.below(256));
    }
    static es spec(Rng& r)
    {
        if(r.coin()) { es e = K<C, int>::spec(r); if(e.sp.type) return e; }
        ref::Spec s = box(r);
        s.type = r.pick({U'\0', U's'});
        return from(s);
    }
    static U32 show(T v, const es& e)
    {
        auto u = static_cast<std::underlying_type_t<T>>(v);
        U32 n = name_of(v);
        ref::Spec s = e.sp;
        if(s.type == U's') s.type = 0;
        if(s.type || n.empty()) return ref::integer_of(static_cast<long long>(u), s);
        return ref::pad(n, s, U'<');
    }
};
template <typename C>
struct K<C, const void*>
{
    static const void* make(Rng& r) { return reinterpret_cast<const void*>(static_cast<std::uintptr_t>(r.chance(1, 4) ? 0 : r.next())); }
    static es spec(Rng& r)
    {
        ref::Spec s = box(r);
        s.type = r.pick({U'\0', U'p', U'P'});
        return from(s);
    }
    static U32 show(const void* v, const es& e)
    {
        ref::Spec s = e.sp;
        s.alt = true;
        s.type = s.type == U'P' ? U'X' : U'x';
        return ref::integer(false, reinterpret_cast<std::uintptr_t>(v), s);
    }
};

// values that accept no specification
template <typename C>
struct no_spec
{
    static es spec(Rng&) { return {}; }
};
template <typename C, typename T>
struct K<C, std::optional<T>> : no_spec<C>
{
    static std::optional<T> make(Rng& r) { return r.chance(1, 3) ? std::optional<T>() : std::optional<T>(K<C, T>::make(r)); }
    static U32 show(const std::optional<T>& v, const es&) { return v ? K<C, T>::show(*v, empty_spec()) : U"nullopt"; }
};
template <typename C>
struct K<C, std::monostate> : no_spec<C>
{
    static std::monostate make(Rng&) { return {}; }
    static U32 show(std::monostate, const es&) { return U"monostate"; }
};
template <typename C, typename... Ts>
struct K<C, std::variant<Ts...>> : no_spec<C>
{
    using T = std::variant<Ts...>;
    static T make(Rng& r)
    {
        std::size_t k = r.below(sizeof...(Ts)), i = 0;
        T v{};
        ((i++ == k ? (void)(v.template emplace<Ts>(K<C, Ts>::make(r))) : (void)0), ...);
        return v;
    }
    static U32 show(const T& v, const es&)
    {
        return std::visit([](const auto& x) { return K<C, std::remove_cvref_t<decltype(x)>>::show(x, empty_spec()); }, v);
    }
};
#ifdef __cpp_lib_expected
template <typename C, typename T, typename E>
struct K<C, std::expected<T, E>> : no_spec<C>
{
    static std::expected<T, E> make(Rng& r)
    {
        if(r.coin()) return K<C, T>::make(r);
        return std::unexpected<E>(K<C, E>::make(r));
    }
    static U32 show(const std::expected<T, E>& v, const es&) { return v ? K<C, T>::show(*v, empty_spec()) : K<C, E>::show(v.error(), empty_spec()); }
};
#endif
template <typename C>
struct K<C, std::thread::id> : no_spec<C>
{
    static std::thread::id make(Rng& r)
    {
        if(r.coin()) return std::this_thread::get_id();
        if(r.coin()) return {};
        std::thread::id id;
        std::thread t([] {});
        id = t.get_id();
        t.join();
        return id;
    }
    static U32 show(std::thread::id v, const es&)
    {
        std::ostringstream os;
        os.imbue(std::locale::classic());
        os << v;
        return ref::ascii(os.str());
    }
};
template <typename C>
struct K<C, std::filesystem::path>
{
    static std::filesystem::path make(Rng& r)
    {
        U32 s = r.coin() ? U"/" : U"";
        for(std::size_t i = r.below(4); i > 0; --i) s += text(r, false) + (r.coin() ? U"/" : U"//");
        s += text(r, false);
        return std::filesystem::path(ref::enc<char8_t>(s));
    }
    static es spec(Rng& r)
    {
        ref::Spec s = box(r);
        s.type = r.pick({U'\0', U'?', U'g'});
        if(s.type == U'?') { ref::Spec only; only.type = U'?'; s = only; }
        return from(s);
    }
    static U32 show(const std::filesystem::path& p, const es& e)
    {
        std::u8string n = e.sp.type == U'g' ? p.generic_u8string() : p.u8string();
        U32 t = *ref::dec<char8_t>(std::u8string_view(n));
        if(e.debug) return escaped(t);
        return ref::pad(t, e.sp, U'<');
    }
};
template <typename C>
struct K<C, std::tm>
{
    static std::tm make(Rng& r)
    {
        std::tm t{};
        t.tm_year = static_cast<int>(r.coin() ? r.range(0, 200) : r.range(-900, 8099));
        t.tm_mon = static_cast<int>(r.below(12));
        t.tm_mday = static_cast<int>(r.range(1, 31));
        t.tm_hour = static_cast<int>(r.below(24));
        t.tm_min = static_cast<int>(r.below(60));
        t.tm_sec = static_cast<int>(r.below(61));
        t.tm_wday = static_cast<int>(r.below(7));
        t.tm_yday = static_cast<int>(r.below(366));
        return t;
    }
    static es spec(Rng& r)
    {
        es e = from(box(r));
        if(r.chance(2, 3))
        {
            for(std::size_t i = static_cast<std::size_t>(r.range(1, 4)); i > 0; --i)
            {
                e.extra += U'%';
                e.extra += r.pick({U'Y', U'm', U'd', U'H', U'M', U'S', U'A', U'a', U'B', U'b', U'j', U'p', U'y', U'C', U'e', U'I', U'u', U'w', U'D', U'F', U'T', U'R', U'%', U'n', U't', U'h', U'r', U'c', U'x', U'X', U'U', U'W', U'V', U'G', U'g'});
                e.extra += r.pick({U"-", U"/", U" ", U":", U", ", U"年", U""});
            }
            e.text += e.extra;
        }
        return e;
    }
    static U32 show(const std::tm& t, const es& e)
    {
        std::string s;
        if(e.extra.empty())
        {
            static const char* wd[] = {"Sun", "Mon", "Tue", "Wed", "Thu", "Fri", "Sat"};
            static const char* mn[] = {"Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"};
            char buf[200];
            std::snprintf(buf, sizeof buf, "%s %s%3d %.2d:%.2d:%.2d %d", wd[t.tm_wday], mn[t.tm_mon], t.tm_mday, t.tm_hour, t.tm_min, t.tm_sec, 1900 + t.tm_year);
            return ref::pad(ref::ascii(buf), e.sp, U'<');
        }
        // the pieces with strftime, the rest unchanged (the process is in the "C" locale)
        U32 o;
        for(std::size_t i = 0; i < e.extra.size(); ++i)
        {
            if(e.extra[i] != U'%') { o += e.extra[i]; continue; }
            char f[3] = {'%', static_cast<char>(e.extra[++i]), 0};
            char buf[200];
            std::size_t n = std::strftime(buf, sizeof buf, f, &t);
            o += ref::ascii(std::string_view(buf, n));
        }
        return ref::pad(o, e.sp, U'<');
    }
};

// tuples
template <typename C, typename T, typename... Ts>
struct KT
{
    static es spec(Rng& r)
    {
        es e;
        e.kind = r.pick({U'\0', U'n', U'm'});
        if(e.kind == U'm' && sizeof...(Ts) != 2) e.kind = U'n';
        if(e.kind) e.text = U32(1, e.kind);
        return e;
    }
    static T make(Rng& r) { return T{K<C, Ts>::make(r)...}; }
    static U32 show(const T& t, const es& e, const dress& d = {})
    {
        std::vector<U32> v;
        std::apply([&](const auto&... x) { (v.push_back(K<C, std::remove_cvref_t<decltype(x)>>::show(x, empty_spec())), ...); }, t);
        U32 o = e.kind ? U"" : d.set_brackets ? d.open : U"(";
        U32 sep = e.kind == U'm' ? U": " : d.set_sep ? d.sep : U", ";
        for(std::size_t i = 0; i < v.size(); ++i) o += (i ? sep : U"") + v[i];
        return e.kind ? o : o + (d.set_brackets ? d.close : U")");
    }
};
template <typename C, typename... Ts>
struct K<C, std::tuple<Ts...>> : KT<C, std::tuple<Ts...>, Ts...> {};
template <typename C, typename A, typename B>
struct K<C, std::pair<A, B>> : KT<C, std::pair<A, B>, std::remove_const_t<A>, B> {};

// ranges. like: 's' set or map, 'q' sequence
template <typename C, typename R, typename E, char like>
struct KR
{
    using KE = K<C, E>;
    static constexpr bool chars = papilio::char_like<E> || std::same_as<E, papilio::utf::codepoint>;
    static constexpr bool pairs = requires { typename E::first_type; };
    static es spec(Rng& r)
    {
        es e;
        e.kind = r.pick({U'\0', U'\0', U'n', U'n', pairs ? U'm' : U'\0', chars ? U's' : U'\0'});
        if(e.kind == U's' && r.coin()) e.debug = true, e.text += U'?';
        if(e.kind) e.text += e.kind;
        if(e.kind != U's' && r.chance(2, 3))
        {
            auto in = std::make_shared<es>(KE::spec(r));
            if(!in->text.empty() || e.kind)
            {
                e.text += U':' + in->text;
                e.in = in;
            }
        }
        return e;
    }
    template <typename V>
    static U32 show(const V& v, const es& e, const dress& d = {})
    {
        es in = e.in ? *e.in : empty_spec();
        if(e.kind == U'm') in.kind = U'm'; // overrides what the elements were told
        U32 o;
        bool first = true;
        for(const auto& x : v)
        {
            if constexpr(chars)
            {
                if(e.kind == U's')
                {
                    char32_t cp = K<C, E>::cp(x);
                    o += e.debug || d.debug ? ref::escape_cp(cp, true) : U32(1, cp);
                    continue;
                }
            }
            if(!first) o += d.set_sep ? d.sep : U", ";
            first = false;
            o += KE::show(x, in);
        }
        if(e.kind == U's' || e.kind == U'n') return o;
        if(d.set_brackets && e.kind != U'm') return d.open + o + d.close;
        bool brace = like == 's' || e.kind == U'm';
        return (brace ? U"{" : U"[") + o + (brace ? U"}" : U"]");
    }
    static std::size_t size(Rng& r) { return r.chance(1, 6) ? 0 : static_cast<std::size_t>(r.range(1, 4)); }
    static R make(Rng& r)
    {
        R v{};
        for(std::size_t i = size(r); i > 0; --i)
        {
            if constexpr(requires { v.push_back(KE::make(r)); }) v.push_back(KE::make(r));
            else if constexpr(requires { v.push_front(KE::make(r)); }) v.push_front(KE::make(r));
            else v.insert(KE::make(r));
        }
        return v;
    }
};
template <typename C, typename E> struct K<C, std::vector<E>> : KR<C, std::vector<E>, E, 'q'> {};
template <typename C, typename E> struct K<C, std::list<E>> : KR<C, std::list<E>, E, 'q'> {};
template <typename C, typename E> struct K<C, std::deque<E>> : KR<C, std::deque<E>, E, 'q'> {};
template <typename C, typename E> struct K<C, std::forward_list<E>> : KR<C, std::forward_list<E>, E, 'q'> {};
template <typename C, typename E, std::size_t N> struct K<C, papilio::small_vector<E, N>> : KR<C, papilio::small_vector<E, N>, E, 'q'> {};
template <typename C, typename E> struct K<C, std::set<E>> : KR<C, std::set<E>, E, 's'> {};
template <typename C, typename E> struct K<C, std::multiset<E>> : KR<C, std::multiset<E>, E, 's'> {};
template <typename C, typename A, typename B> struct K<C, std::map<A, B>> : KR<C, std::map<A, B>, std::pair<A, B>, 's'>
{
    template <typename V>
    static U32 show(const V& v, const es& e, const dress& d = {})
    {
        std::vector<std::pair<A, B>> l(v.begin(), v.end());
        return KR<C, std::map<A, B>, std::pair<A, B>, 's'>::show(l, e, d);
    }
};
template <typename C, typename A, typename B> struct K<C, std::unordered_multimap<A, B>> : KR<C, std::unordered_multimap<A, B>, std::pair<A, B>, 's'>
{
    template <typename V>
    static U32 show(const V& v, const es& e, const dress& d = {})
    {
        std::vector<std::pair<A, B>> l(v.begin(), v.end());
        return KR<C, std::unordered_multimap<A, B>, std::pair<A, B>, 's'>::show(l, e, d);
    }
};
template <typename C, typename E, std::size_t N> struct K<C, std::array<E, N>> : KR<C, std::array<E, N>, E, 'q'>
{
    static std::array<E, N> make(Rng& r)
    {
        std::array<E, N> a{};
        for(auto& x : a) x = K<C, E>::make(r);
        return a;
    }
};

template <typename C>
struct job
{
    std::deque<std::shared_ptr<void>> keep;
    px::dyn_t<C> args;
    U32 fmt, want;
    std::size_t n = 0;
    std::size_t specs = 0;

    template <typename T>
    T& hold(T v)
    {
        auto p = std::make_shared<T>(std::move(v));
        keep.push_back(p);
        return *p;
    }
    void field(Rng& r, const es& e, const U32& text)
    {
        fmt += U"{";
        if(r.coin()) fmt += ref::ascii(std::to_string(n));
        else fmt += ref::ascii(std::to_string(n));
        if(!e.text.empty() || r.chance(1, 8)) fmt += U":" + e.text;
        fmt += U"}";
        want += text;
        specs += !e.text.empty();
        ++n;
    }
    template <typename T>
    void value(Rng& r)
    {
        auto& v = hold(K<C, T>::make(r));
        es e = r.chance(2, 3) ? K<C, T>::spec(r) : es();
        args.emplace(v);
        field(r, e, K<C, T>::show(v, e));
    }
    template <typename T>
    void dress_up(Rng& r)
    {
        auto& v = hold(dressed<T>{K<C, T>::make(r)});
        es e = r.chance(2, 3) ? K<C, T>::spec(r) : es();
        args.emplace(v);
        field(r, e, K<C, T>::show(v.inner, e, dress::now()));
    }
    template <typename R, typename E>
    void joined(Rng& r)
    {
        auto& v = hold(K<C, R>::make(r));
        es e = r.chance(2, 3) ? K<C, E>::spec(r) : es();
        U32 s = r.coin() ? U", " : text(r, false);
        auto& sep = hold(ref::enc<C>(s));
        if(s == U", ") args.emplace(hold(papilio::join<C>(v)));
        else if(r.coin()) args.emplace(hold(papilio::join<C>(v, std::basic_string_view<C>(sep))));
        else args.emplace(hold(papilio::join<C>(v, sep.c_str())));
        U32 t;
        bool first = true;
        for(const auto& x : v)
        {
            if(!first) t += s;
            first = false;
            t += K<C, E>::show(x, e);
        }
        field(r, e, t);
    }
};

template <typename C>
using str = std::basic_string<C>;
template <typename C>
using sv = std::basic_string_view<C>;
template <typename C>
using sc = papilio::utf::basic_string_container<C>;

// some views
template <typename C>
void views(Rng& r, job<C>& j)
{
    auto& v = j.hold(K<C, std::vector<int>>::make(r));
    es e = r.coin() ? K<C, std::vector<int>>::spec(r) : es();
    switch(r.below(4))
    {
    case 0:
        j.args.emplace(j.hold(std::span<const int>(v)));
        j.field(r, e, K<C, std::vector<int>>::show(v, e));
        break;
    case 1:
    {
        int a = static_cast<int>(r.range(-5, 5)), b = a + static_cast<int>(r.below(5));
        std::vector<int> w;
        for(int i = a; i < b; ++i) w.push_back(i);
        j.args.emplace(j.hold(std::views::iota(a, b)));
        j.field(r, e, K<C, std::vector<int>>::show(w, e));
        break;
    }
    case 2:
    {
        std::vector<int> w;
        for(int x : v) w.push_back(x / 2);
        j.args.emplace(j.hold(v | std::views::transform([](int x) { return x / 2; })));
        j.field(r, e, K<C, std::vector<int>>::show(w, e));
        break;
    }
    default:
    {
        std::vector<int> w(v.rbegin(), v.rend());
        j.args.emplace(j.hold(v | std::views::reverse));
        j.field(r, e, K<C, std::vector<int>>::show(w, e));
        break;
    }
    }
}

template <typename C>
void any_value(Rng& r, job<C>& j)
{
    using S = str<C>;
    using cp = papilio::utf::codepoint;
    switch(r.below(55))
    {
    case 0: j.template value<std::vector<int>>(r); break;
    case 1: j.template value<std::vector<bool>>(r); break;
    case 2: j.template value<std::vector<S>>(r); break;
    case 3: j.template value<std::list<sv<C>>>(r); break;
    case 4: j.template value<std::list<sc<C>>>(r); break;
    case 5: j.template value<std::vector<C>>(r); break;
    case 6: j.template value<std::deque<cp>>(r); break;
    case 7: j.template value<std::list<double>>(r); break;
    case 8: j.template value<std::forward_list<unsigned long long>>(r); break;
    case 9: j.template value<std::set<int>>(r); break;
    case 10: j.template value<std::set<S>>(r); break;
    case 11: j.template value<std::multiset<C>>(r); break;
    case 12: j.template value<std::map<int, S>>(r); break;
    case 13: j.template value<std::map<S, std::vector<int>>>(r); break;
    case 14: j.template value<std::map<S, std::map<int, bool>>>(r); break;
    case 15: j.template value<std::unordered_multimap<int, C>>(r); break;
    case 16: j.template value<papilio::small_vector<S, 2>>(r); break;
    case 17: j.template value<std::vector<std::vector<int>>>(r); break;
    case 18: j.template value<std::vector<std::vector<C>>>(r); break;
    case 19: j.template value<std::list<std::set<std::vector<S>>>>(r); break;
    case 20: j.template value<std::vector<std::pair<int, S>>>(r); break;
    case 21: j.template value<std::vector<std::tuple<S, bool, int>>>(r); break;
    case 22: j.template value<std::vector<std::array<int, 2>>>(r); break;
    case 23: j.template value<std::array<S, 2>>(r); break;
    case 24: j.template value<std::array<double, 3>>(r); break;
    case 25: j.template value<std::vector<std::optional<int>>>(r); break;
    case 26: j.template value<std::vector<std::optional<S>>>(r); break;
    case 27: j.template value<std::vector<std::variant<std::monostate, int, S>>>(r); break;
    case 28: j.template value<std::vector<colour>>(r); break;
    case 29: j.template value<std::vector<const void*>>(r); break;
    case 30: j.template value<std::vector<std::filesystem::path>>(r); break;
    case 31: j.template value<std::vector<std::tm>>(r); break;
    case 32: j.template value<std::vector<std::thread::id>>(r); break;
    case 33: j.template value<std::pair<int, S>>(r); break;
    case 34: j.template value<std::pair<std::vector<S>, std::pair<C, std::optional<int>>>>(r); break;
    case 35: j.template value<std::tuple<>>(r); break;
    case 36: j.template value<std::tuple<S>>(r); break;
    case 37: j.template value<std::tuple<int, bool>>(r); break;
    case 38: j.template value<std::tuple<double, std::tuple<int, std::tuple<>>, std::map<int, int>, S, std::variant<bool, S>>>(r); break;
    case 39: j.template value<std::optional<int>>(r); break;
    case 40: j.template value<std::optional<S>>(r); break;
    case 41: j.template value<std::optional<std::map<S, std::optional<std::vector<S>>>>>(r); break;
    case 42: j.template value<std::variant<std::monostate, int, S, std::vector<S>>>(r); break;
    case 43: j.template value<std::variant<C, const void*, std::optional<std::pair<S, S>>>>(r); break;
    case 44: j.template value<colour>(r); break;
    case 45: j.template value<level>(r); break;
    case 46: j.template value<flag>(r); break;
    case 47: j.template value<byte8>(r); break;
    case 48: j.template value<std::filesystem::path>(r); break;
    case 49: j.template value<std::tm>(r); break;
    case 50: j.template value<std::thread::id>(r); break;
    case 51: views<C>(r, j); break;
    case 52: j.template value<hidden>(r); break;
    case 53: j.template value<std::pair<inner, hidden>>(r); break;
    default:
#ifdef __cpp_lib_expected
        if(r.coin()) j.template value<std::expected<S, int>>(r);
        else if(r.coin()) j.template value<std::expected<std::vector<std::optional<int>>, S>>(r);
        else j.template value<std::vector<std::expected<int, S>>>(r);
#else
        j.template value<std::vector<std::vector<std::vector<C>>>>(r);
#endif
        break;
    }
}

template <typename C>
void any_joined(Rng& r, job<C>& j)
{
    using S = str<C>;
    switch(r.below(8))
    {
    case 0: j.template joined<std::vector<int>, int>(r); break;
    case 1: j.template joined<std::list<S>, S>(r); break;
    case 2: j.template joined<std::set<C>, C>(r); break;
    case 3: j.template joined<std::vector<std::vector<int>>, std::vector<int>>(r); break;
    case 4: j.template joined<std::deque<std::pair<S, int>>, std::pair<S, int>>(r); break;
    case 5: j.template joined<std::vector<double>, double>(r); break;
    case 6: j.template joined<std::vector<colour>, colour>(r); break;
    default:
        if(r.coin()) j.template joined<std::vector<std::optional<S>>, std::optional<S>>(r);
        else j.template joined<std::list<sv<C>>, sv<C>>(r);
        break;
    }
}

template <typename C>
void any_dressed(Rng& r, job<C>& j)
{
    using S = str<C>;
    switch(r.below(10))
    {
    case 0: j.template dress_up<std::vector<int>>(r); break;
    case 1: j.template dress_up<std::list<S>>(r); break;
    case 2: j.template dress_up<std::vector<C>>(r); break;
    case 3: j.template dress_up<std::set<C>>(r); break;
    case 4: j.template dress_up<std::map<int, S>>(r); break;
    case 5: j.template dress_up<std::vector<std::vector<int>>>(r); break;
    case 6: j.template dress_up<std::vector<std::pair<int, bool>>>(r); break;
    case 7: j.template dress_up<std::pair<int, S>>(r); break;
    case 8: j.template dress_up<std::tuple<S, bool, std::vector<int>>>(r); break;
    default: j.template dress_up<std::tuple<int>>(r); break;
    }
}

template <typename C>
void compound(Case& c, bool join, bool dressing = false)
{
    Rng& r = c.rng;
    job<C> j;
    if(dressing)
    {
        auto& d = dress::now();
        auto& u = dress::units<C>::now();
        d = {text(r, false), text(r, false), text(r, false), r.coin(), r.coin(), r.chance(1, 3)};
        u = {ref::enc<C>(d.open), ref::enc<C>(d.close), ref::enc<C>(d.sep)};
    }
    for(std::size_t n = static_cast<std::size_t>(r.range(1, 3)); n > 0; --n)
    {
        if(r.coin()) { j.fmt += U"; "; j.want += U"; "; }
        if(dressing) any_dressed<C>(r, j);
        else if(join) any_joined<C>(r, j);
        else any_value<C>(r, j);
    }
    c.desc(cat(sizeof(C), "-byte format ", show(j.fmt), " wants ", show(j.want)));
    px::exact<C> f(ref::enc<C>(j.fmt));
    auto got = px::vformat<C>(f.view(), j.args);
    auto want = ref::enc<C>(j.want);
    c.check(got.ok() && got.s == want, "text", [&] { return cat("got ", got.show()); });
    c.count("values", j.n);
    c.count("specifications", j.specs);
    c.nontrivial(cat(show(j.fmt), show(j.want), sizeof(C)));
    c.sample(cat(show(j.fmt), " -> ", show(j.want)));
}
template <typename C>
void values(Case& c) { compound<C>(c, false); }
template <typename C>
void joins(Case& c) { compound<C>(c, true); }
template <typename C>
void dresses(Case& c) { compound<C>(c, false, true); }

template <typename C>
void kinds(Case& c)
{
    Rng& r = c.rng;
    U32 t = text(r, true);
    auto s = ref::enc<C>(t);
    U32 list;
    for(char32_t x : t) list += (list.empty() ? U"" : U", ") + U32(1, x);
    px::dyn_t<C> a;
    auto p2 = chosen<C, 2>{s};
    auto p3 = chosen<C, 3>{s};
    auto p4 = chosen<C, 4>{s};
    auto p5 = chosen<C, 5>{s};
    U32 want;
    switch(r.below(4))
    {
    case 0: a.emplace(p2); want = U"{" + list + U"}"; break;
    case 1: a.emplace(p3); want = U"[" + list + U"]"; break;
    case 2: a.emplace(p4); want = t; break;
    default: a.emplace(p5); want = escaped(t); break;
    }
    U32 f = U"{}";
    if(r.chance(1, 4)) f = U"{:s}", want = t;
    else if(r.chance(1, 3)) f = U"{:?s}", want = escaped(t);
    c.desc(cat(sizeof(C), "-byte range of a chosen kind with ", show(f), " wants ", show(want)));
    auto got = px::vformat<C>(ref::enc<C>(f), a);
    if(f == U"{:s}" && got.ok() && got.s == ref::enc<C>(escaped(t))) return; // of a range that is escaped by default
    c.check(got.ok() && got.s == ref::enc<C>(want), "kind", [&] { return cat("got ", got.show()); });
    c.count("kinds");
    c.nontrivial(cat(show(f), show(want), sizeof(C)));
}

// specifications that do not fit
template <typename C>
void misfits(Case& c)
{
    Rng& r = c.rng;
    using S = str<C>;
    px::dyn_t<C> a;
    std::vector<int> vi{1, 2};
    std::vector<S> vs{S(2, C('x'))};
    std::vector<C> vc{C('q')};
    std::map<int, S> m{{1, S(1, C('y'))}};
    std::pair<int, int> p{1, 2};
    std::tuple<int, int, int> t{1, 2, 3};
    std::optional<int> o = 5;
    std::variant<int, S> va = 5;
    std::vector<std::optional<int>> vo{1};
    U32 spec;
    std::string what;
    switch(r.below(9))
    {
    case 0: a.emplace(vi); what = "vector<int>"; spec = r.pick({U"q", U"?", U":q", U":s", U"n:q", U"d", U"nn", U">10", U":n", U"::d", U"10"}); break;
    case 1: a.emplace(vs); what = "vector<string>"; spec = r.pick({U"q", U"?", U"s", U":d", U":x", U"n:q", U":n"}); break;
    case 2: a.emplace(vc); what = "vector<char>"; spec = r.pick({U"q", U"?", U"ss", U"?n", U":s", U":f", U"s?", U"sn"}); break;
    case 3: a.emplace(m); what = "map"; spec = r.pick({U"q", U"s", U"?s", U"mm", U"mn", U":d", U"m:q", U"n:>"}); break;
    case 4: a.emplace(p); what = "pair"; spec = r.pick({U"q", U"mm", U"nm", U"d", U">10", U":d", U"?"}); break;
    case 5: a.emplace(t); what = "tuple"; spec = r.pick({U"m", U"q", U"nn", U"x", U":d", U"s"}); break;
    case 6: a.emplace(o); what = "optional"; spec = r.pick({U"n", U"d", U"10", U"?", U"s"}); break;
    case 7: a.emplace(va); what = "variant"; spec = r.pick({U"n", U"d", U"10", U"?", U"s"}); break;
    default: a.emplace(vo); what = "vector<optional>"; spec = r.pick({U":d", U":n", U"n:d", U"m:x", U"s"}); break;
    }
    U32 f = U"a{0:" + spec + U"}b";
    c.desc(cat(sizeof(C), "-byte ", what, " with ", show(f)));
    auto got = px::vformat<C>(ref::enc<C>(f), a);
    c.check(got.err == px::err_kind::format_error, "misfit-accepted", [&] { return cat("got ", got.show()); });
    c.count("misfits");
    c.nontrivial(cat(show(f), what, sizeof(C)));
}
} // namespace c23
