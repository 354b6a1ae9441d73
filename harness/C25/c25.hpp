#pragma once
// C25: what a formatter of the user's own is built from. Parsers, contexts and the formatters of the library as parts.
#include <algorithm>
#include <cstring>
#include <deque>
#include <list>
#include <map>
#include <memory>
#include <optional>
#include <string>
#include <vector>
#include "fmt.hpp"
using namespace vh;
using ref::Spec;
using ref::U32;
#define CK(cond, key, ...) c.check((cond), key, [&] { return cat(__VA_ARGS__); })

namespace c25
{
using papilio::format_context_traits;

template <typename C>
std::basic_string<C> lit(std::string_view s) { return std::basic_string<C>(s.begin(), s.end()); }

// ---- values whose formatter is a parser of the library ----
template <bool Precision>
struct by_std { int id; };
template <bool Locale>
struct by_simple { int id; };

// What the formatters of the running case are told and what they saw
struct seen_t
{
    int id;
    papilio::std_formatter_data data;
    papilio::simple_formatter_data simple;
    bool at_end; // the parser stopped at the brace and the context stands there
};
inline std::u32string types;
inline std::vector<seen_t> seen;

// ---- values whose formatter runs a list of operations on the context ----
struct op
{
    int kind = 0;
    U32 text;
    std::u32string raw; // units, for operations on units
    char32_t cp = 0;
    std::size_t n = 1;
    long long num = 0;
    std::size_t child = 0;
};
struct writer { std::size_t list; };
inline std::vector<std::vector<op>> lists; // [writer]

template <typename C>
std::basic_string<C> units(const std::u32string& raw)
{
    std::basic_string<C> s;
    for(char32_t u : raw) s += static_cast<C>(u);
    return s;
}
inline U32 escaped(char32_t ch, bool in_str)
{
    if(ch < 0x20 && ch != U'\t' && ch != U'\n' && ch != U'\r')
    {
        char b[16];
        std::snprintf(b, sizeof b, "\\u{%x}", static_cast<unsigned>(ch));
        return ref::ascii(b);
    }
    return ref::escape_cp(ch, in_str);
}
// the text an operation stands for
template <typename C>
std::basic_string<C> meant(const op& o)
{
    auto times = [&](const std::basic_string<C>& s)
    {
        std::basic_string<C> r;
        for(std::size_t i = 0; i < o.n; ++i) r += s;
        return r;
    };
    switch(o.kind)
    {
    case 0:
    case 1:
    case 13: return units<C>(o.raw);
    case 2: return times(std::basic_string<C>(1, static_cast<C>(o.cp)));
    case 3:
    case 4:
    case 5:
    case 6: return times(ref::enc<C>(U32(1, o.cp)));
    case 7: return times(ref::enc<C>(escaped(o.cp, false)));
    case 8:
    {
        U32 t;
        for(char32_t ch : o.text) t += escaped(ch, true);
        return ref::enc<C>(t);
    }
    case 9:
    {
        Spec s;
        s.has_width = true;
        s.width = o.n;
        s.align = U'>';
        return ref::enc<C>(ref::ascii("<" + std::to_string(o.num) + "|") + ref::string(o.text, s) + U">");
    }
    case 10: return ref::enc<C>(o.text + ref::ascii("{" + std::to_string(o.num) + "}") + o.text);
    case 11: return std::basic_string<C>(o.n, static_cast<C>('.')) + static_cast<C>('!');
    default:
    {
        std::basic_string<C> r;
        for(const op& k : lists[o.child]) r += meant<C>(k);
        if(o.n == 2) r = lit<C>("[") + r + lit<C>("]");
        return r;
    }
    }
}
template <typename X>
void perform(const op& o, X& ctx)
{
    using C = typename X::char_type;
    using tr = format_context_traits<X>;
    switch(o.kind)
    {
    case 0:
    {
        auto s = units<C>(o.raw);
        px::exact<C> e(s);
        tr::append(ctx, e.view());
        break;
    }
    case 1:
    {
        auto s = units<C>(o.raw);
        std::list<C> l(s.begin(), s.end());
        tr::append(ctx, l.begin(), l.end());
        break;
    }
    case 2:
        if(o.n == 1) tr::append(ctx, static_cast<C>(o.cp));
        else tr::append(ctx, static_cast<C>(o.cp), o.n);
        break;
    case 3: tr::append(ctx, o.cp, o.n); break;                         // char32_t
    case 4: tr::append(ctx, static_cast<char16_t>(o.cp), o.n); break;  // one unit is enough
    case 5: tr::append(ctx, static_cast<char>(o.cp), o.n); break;      // ASCII
    case 6: tr::append(ctx, papilio::utf::codepoint(o.cp), o.n); break;
    case 7: tr::append_escaped(ctx, papilio::utf::codepoint(o.cp), o.n); break;
    case 8:
    {
        auto s = ref::enc<C>(o.text);
        px::exact<C> e(s);
        tr::append_escaped(ctx, e.view());
        break;
    }
    case 9:
    {
        static const auto f = lit<C>("<{}|{:>{}}>");
        auto s = ref::enc<C>(o.text);
        tr::format_to(ctx, std::basic_string_view<C>(f), o.num, std::basic_string_view<C>(s), o.n);
        break;
    }
    case 10:
    {
        auto f = ref::enc<C>(U"{1}{{{0}}}{1}");
        auto s = ref::enc<C>(o.text);
        auto args = papilio::make_format_args<X>(o.num, std::basic_string_view<C>(s));
        tr::vformat_to(ctx, std::basic_string_view<C>(f), args);
        break;
    }
    case 11:
    {
        auto it = tr::out(ctx);
        for(std::size_t i = 0; i < o.n; ++i) *it++ = static_cast<C>('.');
        tr::advance_to(ctx, it);
        auto again = ctx.out();
        *again = static_cast<C>('!');
        ++again;
        ctx.advance_to(again);
        break;
    }
    case 13:
    {
        auto s = units<C>(o.raw);
        ctx.advance_to(std::copy(s.begin(), s.end(), ctx.out()));
        break;
    }
    default:
        if(o.n == 2)
        {
            static const auto f = lit<C>("[{}]");
            tr::format_to(ctx, std::basic_string_view<C>(f), writer{o.child});
        }
        else for(const op& k : lists[o.child]) perform(k, ctx);
        break;
    }
}

// ---- formatters that leave the work to one of the library ----
template <typename T, int How>
struct boxed { T v; };
enum { inherited, member, traits, as_argument, base_parts, simple_parts };

// ---- a formatter that uses the parse context by itself ----
struct asker
{
    std::size_t what; // index into asks
};
struct ask
{
    std::vector<std::pair<int, std::size_t>> steps; // (operation, argument)
    U32 spec;
};
inline std::vector<ask> asks;
template <typename C>
std::vector<std::basic_string<C>> known_names;
inline std::vector<std::string> log;
} // namespace c25

namespace papilio
{
template <bool P, typename C>
class formatter<c25::by_std<P>, C>
{
public:
    template <typename X>
    auto parse(X& ctx) -> typename X::iterator
    {
        std_formatter_parser<X, P> p;
        auto [d, it] = p.parse(ctx, c25::types);
        m_data = d;
        m_at = it != ctx.end() && *it == U'}' && ctx.begin() == it;
        return it;
    }
    template <typename X>
    auto format(const c25::by_std<P>& v, X& ctx) const -> typename X::iterator
    {
        c25::seen.push_back({v.id, m_data, {}, m_at});
        format_context_traits<X>::append(ctx, U'@');
        return ctx.out();
    }
private:
    std_formatter_data m_data;
    bool m_at = false;
};
template <bool L, typename C>
class formatter<c25::by_simple<L>, C>
{
public:
    template <typename X>
    auto parse(X& ctx) -> typename X::iterator
    {
        simple_formatter_parser<X, L> p;
        auto [d, it] = p.parse(ctx);
        m_data = d;
        m_at = it != ctx.end() && *it == U'}' && ctx.begin() == it;
        return it;
    }
    template <typename X>
    auto format(const c25::by_simple<L>& v, X& ctx) const -> typename X::iterator
    {
        c25::seen.push_back({v.id, m_data, m_data, m_at});
        format_context_traits<X>::append(ctx, U'@');
        return ctx.out();
    }
private:
    simple_formatter_data m_data;
    bool m_at = false;
};
template <typename C>
class formatter<c25::writer, C>
{
public:
    template <typename X>
    auto parse(X& ctx) -> typename X::iterator { return ctx.begin(); }
    template <typename X>
    auto format(const c25::writer& v, X& ctx) const -> typename X::iterator
    {
        for(const c25::op& o : c25::lists[v.list]) c25::perform(o, ctx);
        return ctx.out();
    }
};

template <typename T, typename C>
class formatter<c25::boxed<T, c25::inherited>, C> : public formatter<T, C>
{
public:
    template <typename X>
    auto format(const c25::boxed<T, c25::inherited>& b, X& ctx) const -> typename X::iterator
    {
        return formatter<T, C>::format(b.v, ctx);
    }
};
template <typename T, typename C>
class formatter<c25::boxed<T, c25::member>, C>
{
public:
    template <typename X>
    auto parse(X& ctx) -> typename X::iterator { return m_f.parse(ctx); }
    template <typename X>
    auto format(const c25::boxed<T, c25::member>& b, X& ctx) const -> typename X::iterator
    {
        auto copy = m_f;
        return copy.format(b.v, ctx);
    }
private:
    formatter<T, C> m_f;
};
template <typename T, typename C>
class formatter<c25::boxed<T, c25::traits>, C>
{
public:
    template <typename P, typename X>
    auto format(const c25::boxed<T, c25::traits>& b, P& pctx, X& ctx) const -> typename X::iterator
    {
        formatter_traits<formatter<T, C>>::format(b.v, pctx, ctx);
        return ctx.out();
    }
};
template <typename T, typename C>
class formatter<c25::boxed<T, c25::as_argument>, C>
{
public:
    template <typename P, typename X>
    auto format(const c25::boxed<T, c25::as_argument>& b, P& pctx, X& ctx) const -> typename X::iterator
    {
        basic_format_arg<X>(b.v).format(pctx, ctx);
        return ctx.out();
    }
};
// the base formatters with the standard specification
template <typename T, typename C>
class formatter<c25::boxed<T, c25::base_parts>, C>
{
public:
    static constexpr bool text = std::is_same_v<T, std::basic_string<C>> || std::is_same_v<T, std::basic_string_view<C>>;
    static constexpr bool prec = text || std::is_floating_point_v<T>;
    template <typename X>
    auto parse(X& ctx) -> typename X::iterator
    {
        std_formatter_parser<X, prec> p;
        typename X::iterator it{};
        std::u32string_view t = U"XxBbod";
        if constexpr(text) t = U"s?";
        else if constexpr(std::is_floating_point_v<T>) t = U"fFgGeEaA";
        else if constexpr(std::is_same_v<T, utf::codepoint>) t = U"c?";
        std::tie(m_data, it) = p.parse(ctx, t);
        return it;
    }
    template <typename X>
    auto format(const c25::boxed<T, c25::base_parts>& b, X& ctx) const -> typename X::iterator
    {
        if constexpr(text)
        {
            string_formatter<C> f;
            f.set_data(m_data);
            return f.format(b.v, ctx);
        }
        else if constexpr(std::is_floating_point_v<T>)
        {
            float_formatter<T, C> f;
            f.set_data(m_data);
            return f.format(b.v, ctx);
        }
        else if constexpr(std::is_same_v<T, utf::codepoint>)
        {
            codepoint_formatter f;
            f.set_data(m_data);
            return f.format(b.v, ctx);
        }
        else
        {
            int_formatter<T, C> f;
            f.set_data(m_data);
            return f.format(b.v, ctx);
        }
    }
private:
    std_formatter_data m_data;
};
// the base formatters with the simple specification
template <typename T, typename C>
class formatter<c25::boxed<T, c25::simple_parts>, C>
{
public:
    template <typename X>
    auto parse(X& ctx) -> typename X::iterator
    {
        simple_formatter_parser<X, true> p;
        typename X::iterator it{};
        std::tie(m_data, it) = p.parse(ctx);
        return it;
    }
    template <typename X>
    auto format(const c25::boxed<T, c25::simple_parts>& b, X& ctx) const -> typename X::iterator
    {
        if constexpr(std::is_same_v<T, utf::codepoint>)
        {
            codepoint_formatter f;
            f.set_data(m_data);
            return f.format(b.v, ctx);
        }
        else
        {
            string_formatter<C> f;
            f.set_data(m_data);
            return f.format(b.v, ctx);
        }
    }
private:
    simple_formatter_data m_data;
};

template <typename C>
class formatter<c25::asker, C>
{
public:
    template <typename P, typename X>
    auto format(const c25::asker& v, P& pctx, X& ctx) const -> typename X::iterator
    {
        const c25::ask& a = c25::asks[v.what];
        const auto start = pctx.begin();
        for(auto [what, arg] : a.steps)
        {
            std::string r;
            try
            {
                switch(what)
                {
                case 0: r = "current " + std::to_string(pctx.current_arg_id()); break;
                case 1:
                    r = "next " + std::to_string(pctx.next_arg_id());
                    break;
                case 2: pctx.check_arg_id(arg); r = "there"; break;
                case 3: pctx.check_arg_id(std::basic_string_view<C>(c25::known_names<C>[arg])); r = "named"; break;
                case 4: r = pctx.manual_indexing() ? "manual" : "automatic"; break;
                case 5: r = "sizes " + std::to_string(pctx.get_args().indexed_size()) + " " + std::to_string(pctx.get_args().named_size()); break;
                case 6: r = std::string("contains ") + (pctx.get_args().contains(arg) ? "yes" : "no"); break;
                default: r = pctx.begin() == start ? "same place" : "moved"; break;
                }
            }
            catch(const format_error&)
            {
                r = "refused";
            }
            c25::log.push_back(r);
        }
        // the specification, character by character
        U32 got;
        if(v.what % 2)
        {
            std::size_t depth = 0;
            auto it = pctx.begin();
            for(; it != pctx.end(); ++it)
            {
                char32_t ch = *it;
                if(ch == U'{') ++depth;
                if(ch == U'}' && depth-- == 0) break;
                got += ch;
            }
            pctx.advance_to(it);
        }
        else
        {
            auto it = pctx.begin();
            pctx.skip_spec();
            for(; it != pctx.begin(); ++it) got += *it;
        }
        c25::log.push_back(ref::u8(got));
        c25::log.push_back(pctx.begin() != pctx.end() && *pctx.begin() == U'}' ? "at the brace" : "elsewhere");
        format_context_traits<X>::append(ctx, U'%');
        return ctx.out();
    }
};
} // namespace papilio

namespace c25
{
// ---------------- parsers ----------------
inline bool plain_type(char32_t ch)
{
    return ch != 0 && U32(U"0123456789.{}#+- <>^L").find(ch) == U32::npos && !(ch >= 0xD800 && ch < 0xE000);
}
inline papilio::format_align align_of(char32_t a)
{
    using A = papilio::format_align;
    return a == U'<' ? A::left : a == U'>' ? A::right : a == U'^' ? A::middle : A::default_align;
}
inline papilio::format_sign sign_of(char32_t s)
{
    using S = papilio::format_sign;
    return s == U'+' ? S::positive : s == U'-' ? S::negative : s == U' ' ? S::space : S::default_sign;
}

template <typename C>
void parsed(Case& c)
{
    Rng& r = c.rng;
    types.clear();
    for(std::size_t i = r.below(5); i > 0; --i)
    {
        char32_t ch = r.coin() ? static_cast<char32_t>(r.range('A', 'z')) : px::any_cp(r);
        if(plain_type(ch)) types += ch;
    }
    const int kind = static_cast<int>(r.below(4)); // std, std with precision, simple, simple with locale
    const bool std_kind = kind < 2;
    // one to three fields, then one number, so that the numbering behind a field is seen, too
    px::arg_builder<C> ab;
    U32 f, expect;
    std::vector<Spec> want;
    bool manual = r.chance(1, 3);
    const bool named = r.chance(1, 4);
    std::string wrong; // what makes the format invalid
    std::deque<std::basic_string<C>> texts;
    std::size_t named_count = 0;
    const std::size_t fields = 1 + r.below(3);
    auto reference = [&](std::size_t id, const std::basic_string<C>& name) -> U32
    {
        if(!name.empty()) return U"{" + *ref::dec<C>(std::basic_string_view<C>(name)) + U"}";
        return manual ? U"{" + ref::ascii(std::to_string(id)) + U"}" : U"{}";
    };
    auto dynamic = [&](std::size_t& k, bool precision) -> U32
    {
        std::basic_string<C> name;
        auto bad = [&](auto v, const char* d)
        {
            wrong = std::string(precision ? "precision" : "width") + " of " + d;
            return ab.push(v, d);
        };
        std::size_t id = ab.n;
        if(wrong.empty() && r.chance(1, 12))
        {
            switch(r.below(8))
            {
            case 0: id = bad(-1 - static_cast<int>(r.below(1000)), "negative"); break;
            case 1: id = bad(2147483648LL + r.range(0, 100000), "long long"); break;
            case 2: id = bad(2.5, "double"); break;
            case 3: id = bad(true, "bool"); break;
            case 4: texts.push_back(lit<C>("5")); id = bad(std::basic_string_view<C>(texts.back()), "text"); break;
            case 5: id = bad(std::numeric_limits<unsigned long long>::max() - r.below(3), "unsigned long long"); break;
            case 6: id = bad(std::numeric_limits<long long>::min() + r.range(0, 3), "most negative"); break;
            default:
                if(precision) { id = bad(-2147483648LL, "INT_MIN"); break; }
                id = bad(0, "zero");
                break;
            }
            return reference(id, {});
        }
        if(named && r.coin())
        {
            name = lit<C>("n" + std::to_string(named_count++));
            int value = static_cast<int>(k);
            ab.args.emplace(papilio::basic_named_arg<C, int>(std::basic_string_view<C>(texts.emplace_back(name)), value));
            ab.desc += " n" + std::to_string(named_count - 1) + "=" + std::to_string(k);
        }
        else
            id = k < 30000 ? ab.push_int(r, k) : r.coin() ? ab.push(static_cast<int>(k), "int " + std::to_string(k)) : ab.push(static_cast<unsigned long long>(k), "unsigned long long " + std::to_string(k));
        return reference(id, name);
    };
    for(std::size_t i = 0; i < fields; ++i)
    {
        Spec s = px::any_spec(r);
        if(s.has_fill && s.fill == 0) s.has_fill = false;
        s.L = r.chance(1, 3);
        if(!std_kind)
        {
            s.sign = 0;
            s.alt = s.zero = false;
            if(kind == 2) s.L = false;
        }
        else
        {
            if(kind == 1 && r.coin()) { s.has_prec = true; s.prec = r.chance(1, 4) ? 0 : r.below(r.chance(1, 8) ? 2147483647 : 300); }
            if(!types.empty() && r.coin()) s.type = r.pick(std::vector<char32_t>(types.begin(), types.end()));
        }
        if(s.has_width && r.chance(1, 10)) s.width = static_cast<std::size_t>(r.range(2147483000, 2147483647));
        // the field itself
        std::size_t id = ab.n;
        int mark = static_cast<int>(want.size());
        switch(kind)
        {
        case 0: ab.push(by_std<false>{mark}, "by_std<false>"); break;
        case 1: ab.push(by_std<true>{mark}, "by_std<true>"); break;
        case 2: ab.push(by_simple<false>{mark}, "by_simple<false>"); break;
        default: ab.push(by_simple<true>{mark}, "by_simple<true>"); break;
        }
        f += U"{" + (manual ? ref::ascii(std::to_string(id)) : U32());
        if(s.has_width && r.chance(2, 5)) s.width_text = dynamic(s.width, false);
        if(s.has_prec && r.chance(2, 5)) s.prec_text = dynamic(s.prec, true);
        U32 t = s.text();
        if(wrong.empty() && r.chance(1, 10))
        {
            // one definite mistake
            switch(r.below(9))
            {
            case 0: if(s.type) { t += s.type; wrong = "something behind the type"; } break;
            case 1:
            {
                char32_t ch = r.pick({U'q', U'é', U'!', U'文', U'🦋', U']', U'"', U'\x1'});
                if(!s.type && types.find(ch) == U32::npos) { t += ch; wrong = "an unknown type"; }
                break;
            }
            case 2: if(s.L && !s.type) { t += U"L"; if(types.find(U'L') == U32::npos) wrong = "the locale flag twice"; } break;
            case 3:
                if(!s.has_width && !s.has_prec && !s.L && !s.type) { t += ref::ascii(std::to_string(r.range(2147483648LL, 99999999999LL))); wrong = "a width that is too large"; }
                break;
            case 4:
                if(!s.has_prec && !s.L && !s.type) { t += U"."; wrong = "a precision without digits"; }
                break;
            case 5:
                if(kind != 1 && !s.L && !s.type) { t += U".5"; wrong = "a precision where there is none"; }
                break;
            case 6:
                if(!std_kind && !s.has_width && !s.L) { t += r.pick(std::vector<U32>{U"#", U"+", U"-", U" ", U"05", U"0"}); wrong = "more than a simple specification"; }
                break;
            case 7:
                if(kind == 1 && !s.has_prec && !s.L && !s.type) { t += U"." + ref::ascii(std::to_string(r.range(2147483648LL, 99999999999LL))); wrong = "a precision that is too large"; }
                break;
            default:
                if(kind == 2 && !t.empty()) { t += U"L"; wrong = "a locale flag where there is none"; }
                break;
            }
        }
        if(!t.empty() || r.chance(1, 4)) f += U":" + t;
        f += U"}";
        expect += U"@";
        U32 between = r.coin() ? U32() : px::any_text(r, 4);
        for(char32_t ch : between)
        {
            if(ch == U'{' || ch == U'}') f += ch;
            f += ch;
            expect += ch;
        }
        want.push_back(s);
    }
    std::size_t last = ab.push(4711, "4711");
    f += manual ? U"{" + ref::ascii(std::to_string(last)) + U"}" : U"{}";
    expect += U"4711";
    seen.clear();
    c.desc(cat(px::char_name(sizeof(C)), " kind ", kind, " types ", show(types), " format ", show(f), ab.desc, " wrong: ", wrong));
    auto text = ref::enc<C>(f);
    px::exact<C> e(text);
    auto got = px::vformat<C>(e.view(), ab.args);
    c.count("parsed_formats");
    if(!wrong.empty())
    {
        CK(!got.ok(), "ill-formed-accepted", wrong, " is accepted: ", got.show());
        c.count("refused_formats");
        c.nontrivial(cat("refused ", wrong));
        return;
    }
    CK(got.ok(), "well-formed-refused", got.show());
    if(!got.ok()) return;
    CK(got.s == ref::enc<C>(expect), "text-around", got.show(), " expected ", show(expect));
    CK(seen.size() == want.size(), "calls", seen.size(), " calls of format() for ", want.size(), " fields");
    for(std::size_t i = 0; i < want.size() && i < seen.size(); ++i)
    {
        const Spec& s = want[i];
        const auto& d = seen[i].data;
        CK(seen[i].id == static_cast<int>(i), "order", "field ", i, " got the value of ", seen[i].id);
        CK(seen[i].at_end, "position", "field ", i, ": the parser does not stop at the brace");
        CK(d.width == (s.has_width ? s.width : 0), "width", "field ", i, ": ", d.width, " expected ", s.has_width ? s.width : 0);
        CK(d.precision == (s.has_prec ? s.prec : 0), "precision", "field ", i, ": ", d.precision, " expected ", s.has_prec ? s.prec : 0);
        if(std_kind) CK(d.has_precision == s.has_prec, "has-precision", "field ", i, ": ", d.has_precision);
        CK(static_cast<char32_t>(d.fill) == (s.has_fill ? s.fill : U'\0'), "fill", "field ", i, ": ", static_cast<unsigned>(static_cast<char32_t>(d.fill)));
        CK(static_cast<char32_t>(d.fill_or(U'~')) == (s.has_fill ? s.fill : U'~'), "fill-or", "field ", i);
        CK(d.align == align_of(s.align), "align", "field ", i, ": ", static_cast<int>(d.align));
        CK(d.sign == sign_of(s.sign), "sign", "field ", i, ": ", static_cast<int>(d.sign));
        CK(d.alternate_form == s.alt, "alternate-form", "field ", i);
        CK(d.fill_zero == s.zero, "zero-flag", "field ", i);
        CK(d.use_locale == s.L, "locale-flag", "field ", i);
        CK(d.type == s.type, "type", "field ", i, ": ", static_cast<unsigned>(d.type), " expected ", static_cast<unsigned>(s.type));
        CK(d.type_or(U'Q') == (s.type ? s.type : U'Q'), "type-or", "field ", i);
        CK(d.contains_type(types), "contains-type", "field ", i);
        CK(d.contains_type(U'@') == (s.type == 0 || s.type == U'@'), "contains-type", "field ", i);
        if(!std_kind)
        {
            const auto& q = seen[i].simple;
            CK(q.has_fill() == s.has_fill && static_cast<char32_t>(q.fill_or(U'~')) == (s.has_fill ? s.fill : U'~'), "simple-fill", "field ", i);
        }
        c.count("parsed_fields");
        c.nontrivial(cat(kind, ' ', ref::u8(s.text())));
    }
}

// ---------------- writing ----------------
template <typename C>
std::u32string raw_units(Rng& r)
{
    std::u32string s;
    for(std::size_t i = r.below(7); i > 0; --i)
        s += r.coin() ? static_cast<char32_t>(r.range(0x20, 0x7e)) : static_cast<char32_t>(r.below(sizeof(C) == 1 ? 256 : sizeof(C) == 2 ? 65536 : 0x110000));
    return s;
}
inline char32_t one_of_all(Rng& r)
{
    return r.chance(1, 4) ? static_cast<char32_t>(r.pick({0, 1, 9, 10, 13, 0x1b, 0x1f, 0x22, 0x27, 0x5c, 0x7f})) : px::any_cp(r);
}
template <typename C>
std::size_t make_list(Rng& r, int depth)
{
    std::vector<op> l;
    for(std::size_t i = r.below(depth == 0 ? 7 : 4); i > 0; --i)
    {
        op o;
        o.kind = static_cast<int>(r.below(depth < 3 ? 16 : 14));
        if(o.kind == 12 || o.kind == 14 || o.kind == 15)
        {
            if(depth >= 3) o.kind = 6;
            else
            {
                o.kind = 12;
                o.n = 1 + r.below(2);
                o.child = make_list<C>(r, depth + 1);
                l.push_back(o);
                continue;
            }
        }
        o.n = r.chance(1, 3) ? 1 : r.chance(1, 10) ? r.below(200) : r.below(5);
        o.raw = raw_units<C>(r);
        o.num = r.range(-1000, 100000);
        for(std::size_t k = r.below(6); k > 0; --k) o.text += one_of_all(r);
        o.cp = one_of_all(r);
        switch(o.kind)
        {
        case 2: o.cp = static_cast<char32_t>(r.below(sizeof(C) == 1 ? 256 : sizeof(C) == 2 ? 65536 : 0x110000)); break;
        case 4: while(o.cp > 0xFFFF) o.cp = one_of_all(r); break;
        case 5: o.cp = static_cast<char32_t>(r.below(128)); break;
        case 9: o.n = 1 + r.below(12); break;
        default: break;
        }
        l.push_back(o);
    }
    lists.push_back(l);
    return lists.size() - 1;
}
template <typename C>
std::string shown_list(std::size_t i)
{
    std::string s = "(";
    for(const op& o : lists[i])
    {
        s += " " + std::to_string(o.kind);
        switch(o.kind)
        {
        case 0: case 1: case 13: s += show(units<C>(o.raw)); break;
        case 8: case 9: case 10: s += show(o.text) + "," + std::to_string(o.num) + "," + std::to_string(o.n); break;
        case 12: s += "x" + std::to_string(o.n) + shown_list<C>(o.child); break;
        default: s += ":" + std::to_string(static_cast<unsigned>(o.cp)) + "*" + std::to_string(o.n); break;
        }
    }
    return s + ")";
}
// output iterators of their own kind
template <typename C>
struct into
{
    using difference_type = std::ptrdiff_t;
    using iterator_category = std::output_iterator_tag;
    using value_type = void;
    using pointer = void;
    using reference = void;
    std::basic_string<C>* s;
    into& operator*() { return *this; }
    into& operator=(C ch) { s->push_back(ch); return *this; }
    into& operator++() { return *this; }
    into operator++(int) { return *this; }
};

template <typename C>
void written(Case& c)
{
    Rng& r = c.rng;
    lists.clear();
    std::size_t a = make_list<C>(r, 0), b = make_list<C>(r, 0);
    static const auto two = lit<C>("{}-{}");
    c.desc(cat(px::char_name(sizeof(C)), " ", shown_list<C>(a), " ", shown_list<C>(b)));
    std::basic_string<C> want;
    for(const op& o : lists[a]) want += meant<C>(o);
    want += static_cast<C>('-');
    for(const op& o : lists[b]) want += meant<C>(o);
    auto sv = std::basic_string_view<C>(two);
    auto judge = [&](const char* how, const std::basic_string<C>& got)
    {
        CK(got == want, how, how, ": ", show(std::basic_string_view<C>(got)), " expected ", show(std::basic_string_view<C>(want)));
        c.count("written_texts");
    };
    writer x{a}, y{b};
    judge("format", papilio::format(sv, x, y));
    switch(r.below(4))
    {
    case 0:
    {
        std::basic_string<C> s;
        papilio::format_to(into<C>{&s}, sv, x, y);
        judge("format_to", s);
        break;
    }
    case 1:
    {
        std::unique_ptr<C[]> p(new C[want.size()]);
        // the text fits exactly
        C* end = papilio::format_to(p.get(), sv, x, y);
        judge("format_to a block", std::basic_string<C>(p.get(), end));
        break;
    }
    case 2:
        CK(papilio::formatted_size(sv, x, y) == want.size(), "formatted_size", papilio::formatted_size(sv, x, y), " expected ", want.size());
        c.count("written_texts");
        break;
    default:
    {
        std::size_t n = r.below(want.size() + 2);
        std::basic_string<C> s;
        auto res = papilio::format_to_n(into<C>{&s}, static_cast<std::ptrdiff_t>(n), sv, x, y);
        CK(s == want.substr(0, n), "format_to_n", n, ": ", show(std::basic_string_view<C>(s)), " expected ", show(std::basic_string_view<C>(want)));
        CK(res.size == static_cast<std::ptrdiff_t>(s.size()), "format_to_n-size", res.size);
        c.count("written_texts");
        break;
    }
    }
    c.count("operations", lists[a].size() + lists[b].size());
    c.count("units_written", want.size());
    c.nontrivial(shown_list<C>(a));
}

// ---------------- delegating ----------------
enum class mood : short { calm = 3, wild = -4, odd = 77 };

template <typename C, typename T, int How>
void same_as_plain(Case& c, const T& v, const U32& spec, const std::string& what)
{
    auto f = ref::enc<C>(spec.empty() ? U32(U"{}|{}") : U"{:" + spec + U"}|{}");
    px::exact<C> e(f);
    c.desc(cat(px::char_name(sizeof(C)), " ", what, " spec ", show(spec), " delegated in way ", How));
    auto plain = px::capture<C>([&] { return papilio::format(e.view(), v, 7); });
    boxed<T, How> b{v};
    auto got = px::capture<C>([&] { return papilio::format(e.view(), b, 7); });
    CK(got.ok() == plain.ok(), "outcome", "plain ", plain.show(), " delegated ", got.show());
    if(plain.ok() && got.ok()) CK(got.s == plain.s, "text", "plain ", plain.show(), " delegated ", got.show());
    c.count("delegated_calls");
    if(plain.ok()) c.count("delegated_texts");
    c.nontrivial(cat(what, ' ', How, ' ', show(spec), ' ', plain.ok()));
}
template <typename C, typename T>
void ways(Case& c, const T& v, const U32& spec, const std::string& what, bool parsable_alone)
{
    Rng& r = c.rng;
    (void)parsable_alone;
    using F = papilio::formatter<T, C>;
    constexpr bool alone = papilio::formatter_traits<F>::template parsable<papilio::basic_format_parse_context<px::ctx_t<C>>>();
    if constexpr(alone)
    {
        switch(r.below(4))
        {
        case 0: same_as_plain<C, T, inherited>(c, v, spec, what); break;
        case 1: same_as_plain<C, T, member>(c, v, spec, what); break;
        case 2: same_as_plain<C, T, traits>(c, v, spec, what); break;
        default: same_as_plain<C, T, as_argument>(c, v, spec, what); break;
        }
    }
    else
    {
        if(r.coin()) same_as_plain<C, T, traits>(c, v, spec, what);
        else same_as_plain<C, T, as_argument>(c, v, spec, what);
    }
}
template <typename C>
void delegated(Case& c)
{
    Rng& r = c.rng;
    Spec s = px::any_spec(r);
    s.L = false;
    if(s.has_width && s.width > 100) s.width = 33;
    auto typed = [&](const char32_t* t, bool prec)
    {
        if(r.chance(2, 3)) { s.type = t[r.below(std::char_traits<char32_t>::length(t))]; }
        if(prec && r.coin()) { s.has_prec = true; s.prec = r.below(20); }
        if(r.chance(1, 10)) s.type = r.pick({U'q', U'd', U's', U'?', U'x', U'f', U'c'});
        return s.text();
    };
    auto txt = [&] { return ref::enc<C>(px::any_text(r, 6)); };
    const bool base = r.chance(1, 3);
    auto num = [&]<typename T>(T v, const char* what)
    {
        if(base)
        {
            typed(U"XxBbod", false);
            if(s.type == U'c') s.type = 0; // handled outside the base formatter
            same_as_plain<C, T, base_parts>(c, v, s.text(), what);
        }
        else ways<C, T>(c, v, typed(U"XxBbodc", false), what, true);
    };
    switch(r.below(16))
    {
    case 0: num(static_cast<int>(r.coin() ? r.range(-70, 300) : static_cast<int>(r.next())), "int"); break;
    case 1: num(static_cast<unsigned char>(r.below(256)), "unsigned char"); break;
    case 2: num(static_cast<long long>(r.coin() ? r.range(-5, 5) : static_cast<long long>(r.next())), "long long"); break;
    case 3: num(static_cast<unsigned long long>(r.next()), "unsigned long long"); break;
    case 4:
    {
        double v = r.chance(1, 6) ? std::numeric_limits<double>::infinity() : static_cast<double>(r.range(-100000, 100000)) / 64 * (r.coin() ? 1 : 1e30);
        typed(U"fFgGeEaA", true);
        if(base) same_as_plain<C, double, base_parts>(c, v, s.text(), "double");
        else ways<C, double>(c, v, s.text(), "double", true);
        break;
    }
    case 5:
    {
        float v = static_cast<float>(r.range(-100000, 100000)) / 64;
        typed(U"fFgGeEaA", true);
        if(base) same_as_plain<C, float, base_parts>(c, v, s.text(), "float");
        else ways<C, float>(c, v, s.text(), "float", true);
        break;
    }
    case 6:
    case 7:
    {
        using S = std::basic_string<C>;
        S v = txt();
        if(base && r.coin())
        {
            Spec q;
            q.has_fill = s.has_fill; q.fill = s.fill; q.align = s.align; q.has_width = s.has_width; q.width = s.width;
            same_as_plain<C, S, simple_parts>(c, v, q.text(), "string, simple");
        }
        else
        {
            typed(U"s?", true);
            if(base) same_as_plain<C, S, base_parts>(c, v, s.text(), "string");
            else ways<C, S>(c, v, s.text(), "string", true);
        }
        break;
    }
    case 8:
    {
        using V = std::basic_string_view<C>;
        auto v = txt();
        typed(U"s?", true);
        if(base) same_as_plain<C, V, base_parts>(c, V(v), s.text(), "view");
        else ways<C, V>(c, V(v), s.text(), "view", true);
        break;
    }
    case 9:
    {
        papilio::utf::codepoint v(px::any_cp(r));
        if(base && r.coin())
        {
            Spec q;
            q.has_fill = s.has_fill; q.fill = s.fill; q.align = s.align; q.has_width = s.has_width; q.width = s.width;
            same_as_plain<C, papilio::utf::codepoint, simple_parts>(c, v, q.text(), "code point, simple");
        }
        else if(base)
        {
            typed(U"c?", false);
            if(s.type != 0 && s.type != U'c' && s.type != U'?') s.type = U'c';
            same_as_plain<C, papilio::utf::codepoint, base_parts>(c, v, s.text(), "code point");
        }
        else ways<C, papilio::utf::codepoint>(c, v, typed(U"XxBbodc?", false), "code point", true);
        break;
    }
    case 10: ways<C, C>(c, static_cast<C>(r.range(1, 126)), typed(U"XxBbodc?", false), "character", true); break;
    case 11: ways<C, bool>(c, r.coin(), typed(U"XxBbods", false), "bool", true); break;
    case 12: ways<C, mood>(c, r.pick({mood::calm, mood::wild, mood::odd, static_cast<mood>(5)}), typed(U"sBbXxod", false), "enum", true); break;
    case 13:
    {
        std::vector<int> v;
        for(std::size_t i = r.below(4); i > 0; --i) v.push_back(static_cast<int>(r.range(-20, 900)));
        U32 sp = r.coin() ? U32() : r.coin() ? U":" + typed(U"XxBbod", false) : U"n:" + typed(U"XxBbod", false);
        ways<C, std::vector<int>>(c, v, sp, "vector", true);
        break;
    }
    case 14:
    {
        std::pair<int, std::basic_string<C>> v(static_cast<int>(r.range(-9, 99)), txt());
        ways<C, std::pair<int, std::basic_string<C>>>(c, v, r.pick(std::vector<U32>{U"", U"m", U"n", U"x"}), "pair", true);
        break;
    }
    default:
    {
        std::optional<int> v;
        if(r.coin()) v = static_cast<int>(r.range(-9, 99));
        ways<C, std::optional<int>>(c, v, r.pick(std::vector<U32>{U"", U"", U"x"}), "optional", true);
        break;
    }
    }
}

// ---------------- the parse context ----------------
template <typename C>
void asked(Case& c)
{
    Rng& r = c.rng;
    asks.clear();
    log.clear();
    known_names<C> = {lit<C>("size"), lit<C>("x1"), lit<C>("nobody"), lit<C>("siz"), std::basic_string<C>()};
    px::arg_builder<C> ab;
    std::size_t count = 1 + r.below(5);
    for(std::size_t i = 0; i < count; ++i) ab.push(asker{i}, "asker");
    const bool has_size = r.coin(), has_x1 = r.coin();
    int five = 5;
    auto n_size = known_names<C>[0], n_x1 = known_names<C>[1];
    if(has_size) ab.args.emplace(papilio::basic_named_arg<C, int>(std::basic_string_view<C>(n_size), five));
    if(has_x1) ab.args.emplace(papilio::basic_named_arg<C, int>(std::basic_string_view<C>(n_x1), five));
    const std::size_t named = static_cast<std::size_t>(has_size) + has_x1;
    // the model: where automatic numbering stands
    std::size_t counter = 0;
    bool manual = false;
    std::vector<std::string> want;
    U32 f, out;
    bool refused = false;
    asks.resize(count);
    std::vector<bool> used(count, false);
    for(std::size_t i = 0; i < count && !refused; ++i)
    {
        U32 text = px::any_text(r, 3, true);
        for(char32_t ch : text)
        {
            if(ch == U'{' || ch == U'}') f += ch;
            f += ch;
            out += ch;
        }
        bool explicit_id = manual ? !r.chance(1, 10) : r.chance(1, 5);
        std::size_t id = explicit_id ? r.below(count + (r.chance(1, 12) ? 2 : 0)) : counter;
        if(id < count && used[id] && explicit_id) continue; // each value once, because its questions are its own
        f += U"{";
        if(explicit_id)
        {
            f += ref::ascii(std::to_string(id));
            manual = true;
        }
        else
        {
            if(manual) refused = true;
            ++counter;
        }
        U32 spec;
        if(r.chance(2, 3))
        {
            // any characters, braces in pairs
            int depth = 0;
            for(std::size_t k = r.below(8); k > 0; --k)
            {
                char32_t ch = px::any_cp(r);
                if(r.chance(1, 4)) ch = U'{';
                if(r.chance(1, 4)) ch = U'}';
                if(ch == U'}') { if(depth == 0) continue; --depth; }
                if(ch == U'{') ++depth;
                spec += ch;
            }
            while(depth-- > 0) spec += U'}';
            f += U":" + spec;
        }
        f += U"}";
        if(id >= count || (!explicit_id && used[id])) { refused = true; break; }
        if(refused) break;
        used[id] = true;
        ask& a = asks[id];
        a.spec = spec;
        for(std::size_t k = r.below(6); k > 0; --k)
        {
            int what = static_cast<int>(r.below(8));
            std::size_t arg = what == 3 ? r.below(5) : r.below(count + 2);
            if(what == 1 && !r.chance(1, 3)) what = 0;
            if(what == 2 && !r.chance(1, 3)) what = 6;
            a.steps.emplace_back(what, arg);
            switch(what)
            {
            case 0: want.push_back(manual ? "refused" : "current " + std::to_string(counter)); break;
            case 1:
                if(manual) want.push_back("refused");
                else want.push_back("next " + std::to_string(++counter));
                break;
            case 2:
                manual = true;
                want.push_back(arg < count ? "there" : "refused");
                break;
            case 3: want.push_back((arg == 0 && has_size) || (arg == 1 && has_x1) ? "named" : "refused"); break;
            case 4: want.push_back(manual ? "manual" : "automatic"); break;
            case 5: want.push_back("sizes " + std::to_string(count) + " " + std::to_string(named)); break;
            case 6: want.push_back(std::string("contains ") + (arg < count ? "yes" : "no")); break;
            default: want.push_back("same place"); break;
            }
        }
        want.push_back(ref::u8(spec));
        want.push_back("at the brace");
        out += U'%';
    }
    std::string steps;
    for(const ask& a : asks)
    {
        steps += " (";
        for(auto [w, x] : a.steps) steps += std::to_string(w) + ":" + std::to_string(x) + " ";
        steps += ")";
    }
    c.desc(cat(px::char_name(sizeof(C)), " ", show(f), " ", count, " askers", steps, has_size ? " size" : "", has_x1 ? " x1" : ""));
    auto text = ref::enc<C>(f);
    px::exact<C> e(text);
    auto got = px::vformat<C>(e.view(), ab.args);
    c.count("asked_formats");
    CK(got.ok() == !refused, "outcome", got.show(), refused ? " but it had to be refused" : "");
    if(got.ok() && !refused) CK(got.s == ref::enc<C>(out), "text", got.show(), " expected ", show(out));
    const std::size_t n = std::min(want.size(), log.size());
    CK(want.size() == log.size(), "answers", log.size(), " answers, expected ", want.size());
    for(std::size_t i = 0; i < n; ++i) CK(log[i] == want[i], "answer", "answer ", i, ": ", log[i], " expected ", want[i]);
    c.count("answers", n);
    c.nontrivial(steps + ref::u8(f));
}
} // namespace c25
