#pragma once
// C22: what a locale may and may not influence
#include <clocale>
#include <cstdio>
#include <ctime>
#include <deque>
#include <filesystem>
#include <locale>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <sstream>
#include <thread>
#include <typeinfo>
#include <variant>
#include "gen.hpp"
#include <papilio/xchar.hpp>
#include <papilio/print.hpp>
#include <papilio/formatter/chrono.hpp>
#include <papilio/formatter/filesystem.hpp>
#include <papilio/formatter/misc.hpp>
#include <papilio/formatter/tuple.hpp>
#include <papilio/formatter/vocabulary.hpp>
#include <papilio/accessor/ranges.hpp>
using namespace vh;
using ref::U32;

namespace c22
{
// facets that change everything they can
template <typename C>
struct odd_punct : std::numpunct<C>
{
    std::basic_string<C> t, f;
    odd_punct(const char* yes, const char* no)
        : t(ref::enc<C>(ref::ascii(yes))), f(ref::enc<C>(ref::ascii(no))) {}
    C do_decimal_point() const override { return static_cast<C>(';'); }
    C do_thousands_sep() const override { return static_cast<C>('_'); }
    std::string do_grouping() const override { return "\1\2"; }
    std::basic_string<C> do_truename() const override { return t; }
    std::basic_string<C> do_falsename() const override { return f; }
};
template <typename C>
struct odd_time : std::time_put<C>
{
    using it = typename std::time_put<C>::iter_type;
    C mark;
    explicit odd_time(char m) : mark(static_cast<C>(m)) {}
    it do_put(it o, std::ios_base&, C, const std::tm*, char f, char) const override
    {
        *o++ = mark;
        *o++ = static_cast<C>(f);
        return o;
    }
};
struct odd_ctype : std::ctype<char>
{
    static const mask* table()
    {
        static mask t[table_size] = {}; // nothing is a digit, nothing is a space
        return t;
    }
    odd_ctype() : std::ctype<char>(table()) {}
    char do_toupper(char c) const override { return static_cast<char>(c ^ 1); }
    char do_tolower(char c) const override { return static_cast<char>(c ^ 1); }
    char do_widen(char c) const override { return c; }
};
struct odd_num : std::num_put<char>
{
    iter_type do_put(iter_type o, std::ios_base&, char, long) const override { return std::copy_n("L?", 2, o); }
    iter_type do_put(iter_type o, std::ios_base&, char, unsigned long) const override { return std::copy_n("U?", 2, o); }
    iter_type do_put(iter_type o, std::ios_base&, char, long long) const override { return std::copy_n("l?", 2, o); }
    iter_type do_put(iter_type o, std::ios_base&, char, unsigned long long) const override { return std::copy_n("u?", 2, o); }
    iter_type do_put(iter_type o, std::ios_base&, char, double) const override { return std::copy_n("d?", 2, o); }
    iter_type do_put(iter_type o, std::ios_base&, char, const void*) const override { return std::copy_n("p?", 2, o); }
    iter_type do_put(iter_type o, std::ios_base&, char, bool) const override { return std::copy_n("b?", 2, o); }
};
inline std::locale odd_locale(const char* yes, const char* no, char mark)
{
    std::locale l = std::locale::classic();
    l = std::locale(l, new odd_punct<char>(yes, no));
    l = std::locale(l, new odd_punct<wchar_t>(yes, no));
    l = std::locale(l, new odd_time<char>(mark));
    l = std::locale(l, new odd_time<wchar_t>(mark));
    return l;
}
inline std::locale odder_locale(const char* yes, const char* no, char mark)
{
    std::locale l = odd_locale(yes, no, mark);
    l = std::locale(l, new odd_ctype());
    l = std::locale(l, new odd_num());
    return l;
}

// locales of the system, made for this run
struct system_locales
{
    std::string dir;
    std::vector<std::string> names;
    system_locales();
    ~system_locales();
};
extern system_locales sys;

// a type with a stream operator that shows everything a locale can do to it
struct streamed { long n; double d; bool b; };
template <typename C>
std::basic_ostream<C>& operator<<(std::basic_ostream<C>& os, const streamed& s)
{
    static const C sep[] = {' ', 0};
    return os << s.n << sep << s.d << sep << std::boolalpha << s.b;
}
enum class fruit { apple = 1000000, pear = 1 };

// types whose text is the locale their formatter sees
struct probe { friend auto operator<=>(const probe&, const probe&) = default; }; // with a specification
struct bare_probe { friend auto operator<=>(const bare_probe&, const bare_probe&) = default; }; // without
struct outer { probe p; int way; };
inline const std::locale*& passed_locale() { static thread_local const std::locale* l = nullptr; return l; }
inline char32_t seen_locale(const std::locale& l)
{
    const std::locale* p = passed_locale();
    if(p && l == *p) return U'P';
    return l == std::locale::classic() ? U'c' : U'?';
}
} // namespace c22
template <typename C>
class papilio::formatter<c22::probe, C>
{
public:
    template <typename P>
    auto parse(P& ctx)
    {
        auto it = ctx.begin();
        if(it != ctx.end() && *it == U'w') wide = true, ++it;
        return it;
    }
    template <typename X>
    auto format(c22::probe, X& ctx) const
    {
        papilio::format_context_traits<X>::append(ctx, papilio::utf::codepoint(c22::seen_locale(ctx.getloc())));
        if(wide) papilio::format_context_traits<X>::append(ctx, papilio::utf::codepoint(U'w'));
        return ctx.out();
    }
    bool wide = false;
};
template <typename C>
class papilio::formatter<c22::bare_probe, C>
{
public:
    template <typename P, typename X>
    auto format(c22::bare_probe, P&, X& ctx) const
    {
        papilio::format_context_traits<X>::append(ctx, papilio::utf::codepoint(c22::seen_locale(ctx.getloc())));
        return ctx.out();
    }
};
template <typename C>
class papilio::formatter<c22::outer, C>
{
public:
    template <typename P>
    auto parse(P& ctx) { return ctx.begin(); }
    template <typename X>
    auto format(const c22::outer& o, X& ctx) const
    {
        using traits = papilio::format_context_traits<X>;
        if(o.way == 0) traits::format_to(ctx, PAPILIO_TSTRING_VIEW(C, "{:w}"), o.p);
        else if(o.way == 1) traits::format_to(ctx, PAPILIO_TSTRING_VIEW(C, "{0}{0:w}"), std::vector<c22::probe>{o.p});
        else
        {
            papilio::formatter<c22::probe, C> f;
            f.wide = true;
            traits::advance_to(ctx, f.format(o.p, ctx));
        }
        return ctx.out();
    }
};
namespace c22
{
template <typename C>
struct job
{
    std::vector<gen::value> pos, named;
    std::deque<std::shared_ptr<void>> keep;
    gen::pack<C> p;
    U32 fmt;
    std::string desc;

    template <typename T>
    void add(const char* name, T v)
    {
        auto x = std::make_shared<T>(std::move(v));
        auto n = std::make_shared<std::basic_string<C>>(ref::enc<C>(ref::ascii(name)));
        keep.push_back(x);
        keep.push_back(n);
        p.args.emplace(papilio::arg(std::basic_string_view<C>(*n), *x));
    }
    void field(const char* name, std::string spec)
    {
        fmt += ref::ascii(cat("{", name, spec.empty() ? "" : ":", spec, "}"));
    }
};

inline std::tm any_tm(Rng& r)
{
    std::tm t{};
    t.tm_year = static_cast<int>(r.range(-100, 9000));
    t.tm_mon = static_cast<int>(r.below(12));
    t.tm_mday = static_cast<int>(r.range(1, 31));
    t.tm_hour = static_cast<int>(r.below(24));
    t.tm_min = static_cast<int>(r.below(60));
    t.tm_sec = static_cast<int>(r.below(61));
    t.tm_wday = static_cast<int>(r.below(7));
    t.tm_yday = static_cast<int>(r.below(366));
    return t;
}

// a format string without any L, over every kind of argument
template <typename C>
void fill(Rng& r, job<C>& j)
{
    std::size_t np = r.range(1, 5);
    for(std::size_t i = 0; i < np; ++i)
    {
        j.pos.push_back(gen::random_value(r, r.chance(1, 3) ? gen::value::k_float : -1));
        j.p.add(j.pos.back());
    }
    gen::model m{r, j.pos, j.named};
    std::size_t n = r.below(4);
    m.manual = true;
    for(std::size_t i = 0; i < n; ++i) { m.literal(); m.field(false); }
    j.fmt = m.fmt;
    std::size_t extra = r.range(1, 3);
    for(std::size_t i = 0; i < extra; ++i)
    {
        auto name = cat("x", i);
        const char* nm = name.c_str();
        switch(r.below(17))
        {
        case 0: j.add(nm, std::this_thread::get_id()); j.field(nm, ""); break;
        case 1: j.add(nm, any_tm(r)); j.field(nm, ""); break;
        case 2: j.add(nm, any_tm(r)); j.field(nm, r.pick({"%A %B", "%a", "%b %d", "%c", "%x", "%X", "%p", "%r", "%Y-%m-%d", ">30%c", "*^40%A"})); break;
        case 3: j.add(nm, std::filesystem::path("/a b/ümlaut/x")); j.field(nm, r.pick({"", "?", "g", ">20"})); break;
        case 4: j.add(nm, std::vector<double>{1.5, 12345.75, -0.25}); j.field(nm, r.pick({"", "n", ":.2f", ":010"})); break;
        case 5: j.add(nm, std::map<int, bool>{{1, true}, {123456, false}}); j.field(nm, r.pick({"", "n", "m"})); break;
        case 6: j.add(nm, std::optional<bool>(r.coin())); j.field(nm, ""); break;
        case 7: j.add(nm, std::tuple<double, bool, int>(1234.5, true, 7654321)); j.field(nm, r.pick({"", "n"})); break;
        case 8: j.add(nm, streamed{1234567, 1.5, true}); j.field(nm, r.pick({"", ">40", "*^40"})); break;
        case 9: j.add(nm, reinterpret_cast<const void*>(0xABCDEF0123ull)); j.field(nm, r.pick({"", "p", "P", "020"})); break;
        case 10: j.add(nm, fruit::apple); j.field(nm, r.pick({"", "d", "x", "s"})); break;
        case 11: j.add(nm, true); j.field(nm, r.pick({"", "s", "d", ">9"})); break;
        case 12:
        {
            double d = static_cast<double>(r.range(-1000000, 1000000)) * 1000 / 7;
            int k = static_cast<int>(r.below(3));
            if(k == 0) j.add(nm, d);
            else if(k == 1) j.add(nm, static_cast<float>(d));
            else j.add(nm, static_cast<long double>(d) / 3);
            j.field(nm, r.pick({"", "f", "e", "g", "a", "G", ".3f", "+.1e", "020.4", "#g", "A"}));
            break;
        }
        case 13: j.add(nm, static_cast<long long>(r.next())); j.field(nm, r.pick({"", "x", "#X", "b", "o", "030", "+"})); break;
        case 14:
        {
            // numbers inside a script
            double d = r.pick({1.5, 2.25, 1.25, 1000.5});
            j.add(nm, d);
            j.fmt += ref::ascii(cat("{$ {", nm, "} ", r.pick({">", "<", "==", "!=", ">=", "<="}), " ", r.pick({"1.5", "2.25", "1000.5", "0.125", "-1.5"}), " ? 'yes' : {", nm, ":.2f}}"));
            break;
        }
        case 15: j.add(nm, streamed{12, 0.5, false}); j.fmt += ref::ascii(cat("{$ {0} ? {", nm, ":.>30} : {", nm, "}}")); break;
        default: j.add(nm, std::vector<std::vector<int>>{{1000, 2000}, {}, {3}}); j.field(nm, r.pick({"", "n", "::d", "::+"})); break;
        }
        if(r.coin()) j.fmt += U" | ";
    }
    j.desc = gen::describe(j.pos, j.named);
}

// both global locales, put back at the end
struct globals
{
    std::locale cpp;
    std::string c;
    globals() : c(std::setlocale(LC_ALL, nullptr)) {}
    ~globals()
    {
        std::locale::global(cpp);
        std::setlocale(LC_ALL, c.c_str());
    }
};
inline std::string hostile_globals(Rng& r)
{
    std::string d;
    if(!sys.names.empty() && r.chance(2, 3))
    {
        auto& n = r.pick(sys.names);
        if(r.coin()) { std::locale::global(std::locale(n.c_str())); d += " global " + n; }
        else { std::setlocale(LC_ALL, n.c_str()); d += " setlocale " + n; }
    }
    if(d.empty() || d[1] == 's' || r.coin())
    {
        // an unnamed locale leaves the C locale alone
        if(r.coin()) { std::locale::global(odd_locale("G-YES", "G-NO", '!')); d += " odd global"; }
        else { std::locale::global(odder_locale("G-YES", "G-NO", '!')); d += " odder global"; }
    }
    return d;
}

template <typename C>
std::basic_string<C> call(int how, const std::locale* loc, std::basic_string_view<C> fmt, const px::args_ref_t<C>& args)
{
    if constexpr(std::same_as<C, char> || std::same_as<C, wchar_t>)
    {
        if(how == 0) return loc ? papilio::vformat(*loc, fmt, args) : papilio::vformat(fmt, args);
        std::basic_string<C> s;
        if(loc) papilio::vformat_to(std::back_inserter(s), *loc, fmt, args);
        else papilio::vformat_to(std::back_inserter(s), fmt, args);
        return s;
    }
    else
    {
        if(!loc) return papilio::vformat(fmt, args);
        // these character types have no entry point with a locale: hand it to the context
        std::basic_string<C> s;
        papilio::detail::vformat_to_impl<C, papilio::format_iterator_for<C>, px::ctx_t<C>>(papilio::format_iterator_for<C>(std::back_inserter(s)), *loc, fmt, args);
        return s;
    }
}

template <typename C>
void insensitive(Case& c)
{
    Rng& r = c.rng;
    job<C> j;
    fill(r, j);
    c.desc(cat(sizeof(C), "-byte format ", show(j.fmt), " with", j.desc));
    px::exact<C> f(ref::enc<C>(j.fmt));
    int how = static_cast<int>(r.below(2));
    auto base = px::capture<C>([&] { return call<C>(how, nullptr, f.view(), j.p.args); });
    px::result<C> got;
    std::string env;
    bool same = true;
    bool passed = r.coin();
    {
        globals g;
        bool gl = !passed || r.coin();
        if(gl) env = hostile_globals(r);
        if(passed) env += " and passed";
        std::locale mine = r.coin() ? odd_locale("P-YES", "P-NO", '#') : odder_locale("P-YES", "P-NO", '#');
        std::locale before;
        std::string cbefore = std::setlocale(LC_ALL, nullptr);
        got = px::capture<C>([&] { return call<C>(how, passed ? &mine : nullptr, f.view(), j.p.args); });
        same = before == std::locale() && cbefore == std::setlocale(LC_ALL, nullptr);
    }
    c.check(got.err == base.err && got.s == base.s, "influenced", [&] { return cat("under", env, ": ", got.show(), " instead of ", base.show()); });
    c.check(same, "locale-changed", [&] { return cat("after formatting under", env); });
    c.count(base.ok() ? "compared" : "compared_refusals");
    c.count(passed ? "locale_passed" : "locale_global");
    if(env.find("_") != env.npos) c.count("system_locales");
    c.nontrivial(cat(show(j.fmt), j.desc, env, sizeof(C)));
    c.sample(cat(show(j.fmt), " under", env, " -> ", got.show()));
}

// fields with the flag
template <typename C>
void flagged(Case& c)
{
    Rng& r = c.rng;
    using S = std::basic_string<C>;
    constexpr bool narrow = std::same_as<C, char> || std::same_as<C, wchar_t>;
    auto name = [&](const char* p) { std::string s = p; for(std::size_t i = r.below(6); i > 0; --i) s += static_cast<char>(r.range('a', 'z')); return s; };
    std::string yes = name("P-YES"), no = name("no");
    std::locale mine = odd_locale(yes.c_str(), no.c_str(), '#');
    static_assert(narrow); // the library has no such facets for the other types
    bool pass = !narrow || r.coin();
    if(!pass) yes = "true", no = "false"; // the classic names
    px::dyn_t<C> args;
    U32 fmt, want;
    std::string desc;
    std::size_t n = r.range(1, 4);
    std::deque<streamed> ss;
    std::deque<std::tm> tms;
    std::vector<int> vi{1000, -2000000};
    bool v;
    for(std::size_t i = 0; i < n; ++i)
    {
        auto id = ref::ascii(std::to_string(i));
        bool flag = r.chance(2, 3);
        ref::Spec sp = px::any_spec(r);
        sp.sign = 0; sp.alt = sp.zero = false;
        sp.L = flag;
        fmt += U"{" + id;
        U32 body;
        switch(narrow ? r.below(4) : r.below(2))
        {
        case 0:
        case 1:
            v = r.coin();
            args.emplace(v);
            sp.type = r.pick({U'\0', U's'});
            body = ref::ascii(v ? flag ? yes : "true" : flag ? no : "false");
            fmt += U":" + sp.text();
            break;
        case 2:
        {
            ss.push_back({static_cast<long>(r.range(-100000, 10000000)), 2.5, r.coin()});
            args.emplace(ss.back());
            std::basic_ostringstream<char> os;
            os.imbue(flag && pass ? mine : std::locale::classic());
            os << ss.back();
            body = ref::ascii(os.str());
            fmt += U":" + sp.text();
            break;
        }
        default:
        {
            tms.push_back(any_tm(r));
            args.emplace(tms.back());
            std::string f = r.pick({"%A", "%d %b", "%Y", "%c"});
            std::basic_ostringstream<char> os;
            os.imbue(flag && pass ? mine : std::locale::classic());
            os << std::put_time(&tms.back(), f.c_str());
            body = ref::ascii(os.str());
            fmt += U":" + sp.text() + ref::ascii(f);
            break;
        }
        }
        fmt += U"}|";
        want += ref::pad(body, sp, U'<') + U"|";
    }
    c.desc(cat(sizeof(C), "-byte format ", show(fmt), pass ? " with a locale of \"" + yes + "\" and \"" + no + "\"" : std::string(" without a locale")));
    px::exact<C> f(ref::enc<C>(fmt));
    px::result<C> got;
    bool same;
    {
        globals g;
        std::string env;
        if(r.coin()) env = hostile_globals(r);
        c.more(env);
        std::locale before;
        std::string cbefore = std::setlocale(LC_ALL, nullptr);
        got = px::capture<C>([&] { return call<C>(static_cast<int>(r.below(2)), pass ? &mine : nullptr, f.view(), args); });
        same = before == std::locale() && cbefore == std::setlocale(LC_ALL, nullptr);
        if constexpr(std::same_as<C, char>)
        {
            // the locale of a stream
            std::ostringstream os;
            os.imbue(pass ? mine : std::locale::classic());
            bool v1 = r.coin();
            papilio::print(os, "{:L}|{}|{:d}", v1, v1, 1234567);
            std::string w = cat(v1 ? yes : no, "|", v1 ? "true" : "false", "|1234567");
            c.check(os.str() == w, "stream-locale", [&] { return cat("printed ", show(os.str()), " want ", show(w)); });
            c.count("streams");
            c.check(os.getloc() == (pass ? mine : std::locale::classic()), "locale-changed", "the stream has another locale");
            std::string s = pass ? papilio::format(mine, "{:L}|{}", v1, v1) : papilio::format("{:L}|{}", v1, v1);
            c.check(s == w.substr(0, w.size() - 8), "format", [&] { return cat("format: ", show(s)); });
            auto size = pass ? papilio::formatted_size(mine, "{:L}|{}", v1, v1) : papilio::formatted_size("{:L}|{}", v1, v1);
            c.check(size == s.size(), "formatted_size", [&] { return cat("formatted_size: ", size, " want ", s.size()); });
            std::string t;
            if(pass) papilio::format_to_n(std::back_inserter(t), 100, mine, "{:L}|{}", v1, v1);
            else papilio::format_to_n(std::back_inserter(t), 100, "{:L}|{}", v1, v1);
            c.check(t == s, "format_to_n", [&] { return cat("format_to_n: ", show(t), " want ", show(s)); });
        }
    }
    auto w = ref::enc<C>(want);
    c.check(got.ok() && got.s == w, "flag", [&] { return cat("got ", got.show(), " want ", show(std::basic_string_view<C>(w))); });
    c.check(same, "locale-changed", "after formatting with the flag");
    c.count(pass ? "flag_with_locale" : "flag_without_locale");
    c.nontrivial(cat("f", show(fmt), sizeof(C), yes, no));
    c.sample(cat(show(fmt), " -> ", got.show()));
}

// the locale given to a call is what formatters see at any depth, and elements with the flag use it
template <typename C>
void handed(Case& c)
{
    Rng& r = c.rng;
    constexpr bool narrow = std::same_as<C, char> || std::same_as<C, wchar_t>;
    using S = std::basic_string<C>;
    bool pass = r.coin();
    std::locale mine = odd_locale("P-YES", "P-NO", '#');
    U32 yes = pass ? U"P-YES" : U"true", no = pass ? U"P-NO" : U"false", l = pass ? U"P" : U"c";
    px::dyn_t<C> args;
    std::deque<std::shared_ptr<void>> keep;
    auto hold = [&](auto v) -> auto&
    {
        auto p = std::make_shared<decltype(v)>(std::move(v));
        keep.push_back(p);
        return *p;
    };
    U32 fmt, want;
    std::size_t n = r.range(1, 4);
    for(std::size_t i = 0; i < n; ++i)
    {
        auto id = ref::ascii(std::to_string(i));
        auto put = [&](const char* spec, const U32& text)
        {
            fmt += U"{" + id + ref::ascii(spec) + U"}|";
            want += text + U"|";
        };
        bool b1 = r.coin(), b2 = r.coin();
        U32 n1 = b1 ? yes : no, n2 = b2 ? yes : no, c1 = b1 ? U"true" : U"false", c2 = b2 ? U"true" : U"false";
        int kind = static_cast<int>(r.below(narrow ? 20 : 16));
        switch(kind)
        {
        case 0: args.emplace(hold(probe())); put(":w", l + U"w"); break;
        case 1: args.emplace(hold(bare_probe())); put("", l); break;
        case 2: args.emplace(hold(std::vector<probe>(2))); put("::w", U"[" + l + U"w, " + l + U"w]"); break;
        case 3: args.emplace(hold(std::vector<bare_probe>(2))); put("", U"[" + l + U", " + l + U"]"); break;
        case 4: args.emplace(hold(std::optional<probe>(probe()))); put("", l); break;
        case 5: args.emplace(hold(std::optional<bare_probe>(bare_probe()))); put("", l); break;
        case 6: args.emplace(hold(std::variant<int, probe, std::vector<bare_probe>>(std::vector<bare_probe>(1)))); put("", U"[" + l + U"]"); break;
        case 7: args.emplace(hold(std::tuple<probe, bare_probe, std::pair<int, probe>>())); put("", U"(" + l + U", " + l + U", (0, " + l + U"))"); break;
        case 8: args.emplace(hold(std::map<int, bare_probe>{{1, {}}, {2, {}}})); put("", U"{(1, " + l + U"), (2, " + l + U")}"); break;
        case 9: args.emplace(hold(std::map<int, std::vector<probe>>{{1, std::vector<probe>(2)}})); put("", U"{(1, [" + l + U", " + l + U"])}"); break;
        case 10: { auto& v = hold(std::vector<probe>(3)); args.emplace(hold(papilio::join<C>(v))); put(":w", l + U"w, " + l + U"w, " + l + U"w"); break; }
        case 11: { auto& v = hold(std::vector<bare_probe>(2)); args.emplace(hold(papilio::join<C>(v))); put("", l + U", " + l); break; }
        case 12: { auto& v = hold(std::vector<std::optional<probe>>(2)); v[1].emplace(); args.emplace(hold(papilio::join<C>(v))); put("", U"nullopt, " + l); break; }
        case 13: args.emplace(hold(outer{{}, 0})); put("", l + U"w"); break;
        case 14: args.emplace(hold(outer{{}, 2})); put("", l + U"w"); break;
        case 15:
            args.emplace(hold(probe()));
            fmt += U"{$ 1 ? {" + id + U":w} : 'x'}{$ 'a' ? 'y' : {" + id + U"}}|";
            want += l + U"wy|";
            break;
        case 16: args.emplace(hold(std::vector<bool>{b1, b2})); put("::L", U"[" + n1 + U", " + n2 + U"]"); break;
        case 17: args.emplace(hold(std::deque<bool>{b1, b2})); put("", U"[" + c1 + U", " + c2 + U"]"); break;
        case 18: { auto& v = hold(std::deque<bool>{b1, b2}); args.emplace(hold(papilio::join<C>(v))); put(":*^7L", ref::pad(n1, [] { ref::Spec q; q.has_fill = true; q.fill = U'*'; q.align = U'^'; q.has_width = true; q.width = 7; return q; }(), U'<') + U", " + ref::pad(n2, [] { ref::Spec q; q.has_fill = true; q.fill = U'*'; q.align = U'^'; q.has_width = true; q.width = 7; return q; }(), U'<')); break; }
        default: args.emplace(hold(std::vector<std::vector<bool>>{{b1}, {b2}})); put(":::L", U"[[" + n1 + U"], [" + n2 + U"]]"); break;
        }
    }
    c.desc(cat(sizeof(C), "-byte format ", show(fmt), pass ? " with a locale" : " without a locale"));
    px::exact<C> f(ref::enc<C>(fmt));
    px::result<C> got;
    {
        globals g;
        if(r.coin()) c.more(hostile_globals(r));
        passed_locale() = pass ? &mine : nullptr;
        got = px::capture<C>([&] { return call<C>(static_cast<int>(r.below(2)), pass ? &mine : nullptr, f.view(), args); });
        passed_locale() = nullptr;
    }
    S w = ref::enc<C>(want);
    c.check(got.ok() && got.s == w, "locale of a formatter", [&] { return cat("got ", got.show(), " want ", show(std::basic_string_view<C>(w))); });
    c.count("handed_down", n);
    c.nontrivial(cat("h", show(fmt), sizeof(C), pass));
}
} // namespace c22
