#pragma once
// C17: which mechanism prints a user-defined type, what it is handed, how often it runs
#include <algorithm>
#include <deque>
#include <locale>
#include <map>
#include <optional>
#include <ostream>
#include <sstream>
#include <tuple>
#include <typeinfo>
#include "fmt.hpp"
#include <papilio/accessor/ranges.hpp>
#include <papilio/accessor/tuple.hpp>
using namespace vh;
using ref::Spec;
using ref::U32;

namespace c17
{
enum : int { FMT = 1, CMB = 2, SIMPLE = 4, COMPLEX = 8, STREAM = 16, DISABLED = 32 };
constexpr int chosen(int m)
{
    if(m & DISABLED) return DISABLED;
    for(int b : {FMT, CMB, SIMPLE, COMPLEX, STREAM})
        if(m & b) return b;
    return 0;
}

struct event
{
    int mech;  // FMT parse: FMT | 64
    int id;
    std::optional<U32> spec;
    bool locale_ok = true;
    bool operator==(const event& o) const { return mech == o.mech && id == o.id && spec == o.spec && locale_ok == o.locale_ok; }
};
struct oops { int id; };
struct world
{
    std::vector<event> log;
    std::map<int, U32> text;  // what a value writes
    int style = 0;            // how it is written
    int throw_at = -1;        // this value throws
    bool throw_parse = false; // the next parse throws
    const std::locale* want_loc = nullptr;
    std::string want_locale_name;
    bool leave_one = false; // a parse leaves the last character of the specification
};
inline world w;

struct classy : std::numpunct<char>
{
    int tag;
    explicit classy(int t) : tag(t) {}
};
inline int tag_of(const std::locale& l)
{
    if(!std::has_facet<std::numpunct<char>>(l)) return -1;
    auto* p = dynamic_cast<const classy*>(&std::use_facet<std::numpunct<char>>(l));
    return p ? p->tag : 0;
}
inline int want_tag = 0; // what an operator<< must see

template <int M, int Size>
struct T
{
    int id;
    unsigned char more[Size];
    explicit T(int i) : id(i) { std::memset(more, 1, sizeof more); }
    T(const T&) = default;
};
template <int M>
struct T<M, 0> // cannot be copied
{
    int id;
    explicit T(int i) : id(i) {}
    T(const T&) = delete;
    T(T&& o) noexcept : id(o.id) { o.id = -99; }
    T& operator=(const T&) = delete;
};
// converts to what the library prints on its own
template <int M>
struct T<M, 1>
{
    int id;
    explicit T(int i) : id(i) {}
    operator int() const { return 4711; }
    operator std::string() const { return "converted"; }
    operator bool() const { return true; }
};

// whatever a mechanism writes
template <typename Ctx>
auto put(int id, Ctx& ctx)
{
    using C = typename Ctx::char_type;
    using traits = papilio::format_context_traits<Ctx>;
    if(id == w.throw_at) throw oops{id};
    auto s = ref::enc<C>(w.text.at(id));
    switch(w.style)
    {
    case 0: traits::append(ctx, std::basic_string_view<C>(s)); break;
    case 1:
        for(C ch : s) traits::append(ctx, ch, 1);
        break;
    case 2:
    {
        auto it = ctx.out();
        for(C ch : s) { *it = ch; ++it; }
        return it;
    }
    case 3: traits::append(ctx, s.begin(), s.end()); break;
    case 4:
        for(char32_t cp : w.text.at(id)) traits::append(ctx, papilio::utf::codepoint(cp), 1);
        break;
    default:
    {
        static const C f[] = {'{', '}', 0};
        traits::format_to(ctx, std::basic_string_view<C>(f, 2), std::basic_string_view<C>(s));
        break;
    }
    }
    return traits::out(ctx);
}
template <typename P>
U32 read_spec(P& pctx)
{
    U32 spec;
    auto it = pctx.begin();
    int depth = 0;
    for(; it != pctx.end(); ++it)
    {
        char32_t ch = *it;
        if(ch == U'{') ++depth;
        if(ch == U'}' && depth-- == 0) break;
        if(w.leave_one)
        {
            auto nx = std::next(it);
            if(nx == pctx.end() || char32_t(*nx) == U'}') break;
        }
        spec += ch;
    }
    pctx.advance_to(it);
    return spec;
}

template <int M, int Size, typename Ctx>
requires((M & SIMPLE) != 0)
typename Ctx::iterator format(const T<M, Size>& v, Ctx& ctx)
{
    w.log.push_back({SIMPLE, v.id, std::nullopt});
    return put(v.id, ctx);
}
template <int M, int Size, typename P, typename Ctx>
requires((M & COMPLEX) != 0)
typename Ctx::iterator format(const T<M, Size>& v, P& pctx, Ctx& ctx)
{
    w.log.push_back({COMPLEX, v.id, read_spec(pctx)});
    return put(v.id, ctx);
}
template <int M, int Size, typename C>
requires((M & STREAM) != 0)
std::basic_ostream<C>& operator<<(std::basic_ostream<C>& os, const T<M, Size>& v)
{
    w.log.push_back({STREAM, v.id, std::nullopt, tag_of(os.getloc()) == want_tag});
    if(v.id == w.throw_at) throw oops{v.id};
    auto s = ref::enc<C>(w.text.at(v.id));
    if(w.style % 2) os.write(s.data(), static_cast<std::streamsize>(s.size()));
    else
        for(C ch : s) os.put(ch);
    return os;
}
} // namespace c17

template <int M, int Size, typename C>
requires((M & c17::FMT) != 0)
class papilio::formatter<c17::T<M, Size>, C>
{
public:
    template <typename P>
    auto parse(P& pctx)
    {
        spec = c17::read_spec(pctx);
        c17::w.log.push_back({c17::FMT | 64, 0, spec});
        if(c17::w.throw_parse) throw c17::oops{-5};
        return pctx.begin();
    }
    template <typename Ctx>
    auto format(const c17::T<M, Size>& v, Ctx& ctx) const
    {
        c17::w.log.push_back({c17::FMT, v.id, spec});
        return c17::put(v.id, ctx);
    }
    ref::U32 spec = U"never parsed";
};
template <int M, int Size, typename C>
requires((M & c17::FMT) == 0 && (M & c17::CMB) != 0)
class papilio::formatter<c17::T<M, Size>, C>
{
public:
    template <typename P, typename Ctx>
    auto format(const c17::T<M, Size>& v, P& pctx, Ctx& ctx) const
    {
        c17::w.log.push_back({c17::CMB, v.id, c17::read_spec(pctx)});
        return c17::put(v.id, ctx);
    }
};
template <int M, int Size, typename C>
requires((M & c17::DISABLED) != 0)
class papilio::formatter<c17::T<M, Size>, C> : public papilio::disabled_formatter
{};

namespace c17
{
template <int... Ms>
struct list {};
using all_mechs = list<0, FMT, CMB, SIMPLE, COMPLEX, STREAM, FMT | SIMPLE | STREAM, FMT | COMPLEX, CMB | SIMPLE, CMB | STREAM, CMB | COMPLEX | STREAM, SIMPLE | STREAM, COMPLEX | STREAM, FMT | STREAM, DISABLED, DISABLED | SIMPLE | STREAM, DISABLED | COMPLEX, DISABLED | STREAM>;
constexpr int n_mechs = 18;
template <typename F>
void with_mech(int k, F&& f)
{
    [&]<int... Ms>(list<Ms...>)
    {
        int i = 0;
        ((i++ == k ? (f(std::integral_constant<int, Ms>()), 0) : 0), ...);
    }(all_mechs());
}

struct item
{
    int m = 0, size = 0, id = 0, elems = 1; // elems > 1: a vector, < 0: a tuple
    U32 name;
};
inline std::string show_item(const item& i)
{
    return cat(i.name.empty() ? "" : show(i.name) + "=", "T<", i.m, ",", i.size, ">(", i.id, i.elems > 1 ? cat(" x", i.elems) : i.elems < 0 ? std::string(" in tuple") : std::string(), ")");
}

// one field of the format string, and what it must do
struct builder
{
    Rng& r;
    U32 fmt, out;
    std::vector<event> log;
    bool fails = false;
    bool maybe_oops = false;
    std::size_t fields = 0, taken = 0, skipped = 0, specs = 0;

    U32 literal()
    {
        U32 t = px::any_text(r, 4), f;
        for(char32_t ch : t)
        {
            f += ch;
            if(ch == U'{' || ch == U'}') f += ch;
        }
        fmt += f;
        return t;
    }
    U32 any_user_spec()
    {
        U32 s;
        std::size_t n = r.below(8);
        for(std::size_t i = 0; i < n; ++i)
        {
            char32_t ch = r.chance(1, 4) ? r.pick({U':', U'\'', U'$', U'?', U' ', U'0', U'.', U'\\', U'[', U'?', U'\n', U'=', U'\t'}) : px::any_cp(r);
            if(ch == U'{' || ch == U'}') ch = U'!';
            s += ch;
        }
        if(!w.leave_one && r.chance(1, 8)) s.insert(r.below(s.size() + 1), r.coin() ? U"{}" : U"{x:{y}z}");
        return s;
    }
    // "ref" is what stands before the colon
    void field(const U32& ref, int m, int id, bool is_taken)
    {
        ++fields;
        ++(is_taken ? taken : skipped);
        int how = chosen(m);
        U32 spec;
        Spec sp;
        switch(how)
        {
        case FMT: case CMB: case COMPLEX: spec = r.chance(1, 3) ? U32() : any_user_spec(); break;
        case SIMPLE: if(r.chance(1, 25)) spec = U"x"; break;
        case STREAM:
            if(r.coin())
            {
                sp = px::any_spec(r);
                sp.sign = 0; sp.alt = sp.zero = false;
                sp.L = r.chance(1, 3);
                spec = sp.text();
            }
            break;
        default: break;
        }
        fmt += U"{" + ref;
        if(!spec.empty() || r.chance(1, 4)) fmt += U":" + spec;
        fmt += U"}";
        if(!spec.empty()) ++specs;
        if(fails) return;
        U32 seen = spec;
        if(w.leave_one && !spec.empty() && (how == FMT || (is_taken && (how == CMB || how == COMPLEX)))) { seen.pop_back(); fails = true; }
        if(how == FMT)
        {
            log.push_back({FMT | 64, 0, seen});
            if(w.throw_parse) { fails = maybe_oops = true; return; }
        }
        if(!is_taken)
        {
            if(how == 0 || how == DISABLED) fails = true;
            if(how == SIMPLE && spec.empty() == false) {} // skipped as a whole
            return;
        }
        switch(how)
        {
        case 0: case DISABLED: fails = true; return;
        case FMT: log.push_back({FMT, id, seen}); break;
        case CMB: log.push_back({CMB, id, seen}); break;
        case COMPLEX: log.push_back({COMPLEX, id, seen}); break;
        case SIMPLE:
            log.push_back({SIMPLE, id, std::nullopt});
            if(!spec.empty()) fails = true;
            break;
        case STREAM: log.push_back({STREAM, id, std::nullopt}); stream_L.push_back(sp.L); break;
        }
        if(id == w.throw_at) { fails = maybe_oops = true; return; }
        out += how == STREAM ? ref::pad(w.text.at(id), sp, U'<') : w.text.at(id);
    }
    std::vector<bool> stream_L;
};

inline std::string show_log(const std::vector<event>& l)
{
    std::string s;
    for(auto& e : l) s += cat(" ", e.mech, "#", e.id, e.spec ? ":" + show(*e.spec) : "", e.locale_ok ? "" : " wrong locale");
    return s;
}

inline U32 fresh_text(Rng& r)
{
    U32 t = px::any_text(r, r.chance(1, 20) ? 60 : 7);
    std::replace(t.begin(), t.end(), U'\uFFFF', U'f'); // libstdc++ streams of char16_t turn it into U+FFFD
    if(r.chance(1, 5)) t += r.pick({U"{}", U"{{", U"}", U"{0}", U"{$", U"%d"});
    return t;
}

// the fields of a whole format string over items that can be reached; numbers in front drive the conditions
inline void build(builder& b, const std::vector<item>& pos, const std::vector<item>& named, std::size_t first)
{
    Rng& r = b.r;
    std::size_t n = r.range(1, 5);
    std::size_t autos = first;
    bool manual = first != 0;
    b.out += b.literal();
    auto pick = [&](U32& ref) -> std::pair<int, int>
    {
        const item* it;
        if(!named.empty() && (pos.empty() || r.chance(1, 3)))
        {
            it = &named[r.below(named.size())];
            ref = it->name;
        }
        else if(!manual && autos < pos.size() && pos[autos].elems == 1 && r.coin())
        {
            it = &pos[autos++];
            ref = U"";
        }
        else
        {
            manual = true;
            std::size_t i = r.below(pos.size());
            it = &pos[i];
            ref = ref::ascii(std::to_string(i + first));
        }
        int id = it->id;
        if(it->elems != 1)
        {
            int k = static_cast<int>(r.below(static_cast<unsigned>(std::abs(it->elems))));
            bool neg = r.chance(1, 4);
            ref += U"[" + ref::ascii(std::to_string(neg ? k - std::abs(it->elems) : k)) + U"]";
            id += k;
        }
        return {it->m, id};
    };
    for(std::size_t i = 0; i < n; ++i)
    {
        if(first && r.chance(1, 3))
        {
            // {$ c : A : B : … } with only one branch taken
            U32 ref;
            b.fmt += U"{$";
            std::size_t nb = r.range(1, 3);
            bool done = false;
            for(std::size_t k = 0; k < nb; ++k)
            {
                bool neg = r.coin();
                bool truth = r.coin();
                b.fmt += U" ";
                if(k) b.fmt += U"$ ";
                if(neg) b.fmt += U"!";
                // argument 0 is 0, argument 1 is 7
                b.fmt += (truth != neg) ? U"{1}" : U"{0}";
                b.fmt += U" ? ";
                manual = true;
                bool is_taken = !done && truth;
                if(r.chance(1, 4))
                {
                    b.fmt += U"'lit'";
                    if(is_taken && !b.fails) b.out += U"lit";
                }
                else
                {
                    auto [m, id] = pick(ref);
                    b.field(ref, m, id, is_taken);
                }
                done = done || truth;
                if(k + 1 < nb) b.fmt += U" :";
            }
            if(r.coin())
            {
                b.fmt += U" : ";
                auto [m, id] = pick(ref);
                b.field(ref, m, id, !done);
            }
            b.fmt += U"}";
        }
        else
        {
            U32 ref;
            auto [m, id] = pick(ref);
            b.field(ref, m, id, true);
        }
        U32 t = b.literal();
        if(!b.fails) b.out += t;
    }
}

template <typename C, typename F>
void run_and_judge(Case& c, builder& b, const char* route, F&& f, bool bounded = false)
{
    w.log.clear();
    bool got_oops = false;
    std::basic_string<C> got;
    bool ok = false;
    std::string what;
    try
    {
        got = f();
        ok = true;
    }
    catch(const oops&) { got_oops = true; }
    catch(const std::exception& e) { what = e.what(); }
    auto want = ref::enc<C>(b.out);
    c.check(w.log == b.log || bounded, "calls", [&] { return cat(route, ": called", show_log(w.log), " instead of", show_log(b.log)); });
    c.count("events", w.log.size());
    if(b.fails)
    {
        c.count(b.maybe_oops ? "user_exceptions" : "refusals");
        c.check(!ok && got_oops == b.maybe_oops, b.maybe_oops ? "user-exception-lost" : "not-refused", [&] { return cat(route, ": got ", ok ? show(std::basic_string_view<C>(got)) : what, got_oops ? " (the user's exception)" : ""); });
    }
    else
    {
        c.count("printed");
        c.check(ok && got == want, "text", [&] { return cat(route, ": got ", ok ? show(std::basic_string_view<C>(got)) : got_oops ? "the user's exception" : "exception " + what, " want ", show(std::basic_string_view<C>(want))); });
    }
}

template <typename C, int M, int Size>
void check_traits(Case& c)
{
    using X = T<M, Size>;
    bool yes = chosen(M) != 0 && chosen(M) != DISABLED;
    c.check(papilio::formattable<X, C> == yes, "formattable-concept", [&] { return cat("T<", M, "> formattable=", papilio::formattable<X, C>); });
    X x(1);
    papilio::basic_format_arg<px::ctx_t<C>> a(x);
    c.check(a.is_formattable() == yes, "is-formattable", [&] { return cat("T<", M, ">"); });
}
} // namespace c17
using namespace c17;

namespace
{
void reset(Rng& r)
{
    w = world();
    w.style = static_cast<int>(r.below(6));
    want_tag = 0;
}
void pick_fault(Rng& r, const std::vector<int>& ids)
{
    switch(r.below(12))
    {
    case 0: w.throw_at = ids[r.below(ids.size())]; break;
    case 1: if(r.coin()) w.throw_parse = true; break;
    case 2: if(r.coin()) w.leave_one = true; break;
    }
}
template <typename C>
void tally(Case& c, const builder& b)
{
    c.count("taken_fields", b.taken);
    c.count("skipped_fields", b.skipped);
    c.count("specifications", b.specs);
    c.nontrivial(cat(show(b.fmt), sizeof(C), w.style));
    c.sample(cat(show(b.fmt), " ->", show_log(b.log)));
}
} // namespace

// any mechanisms in a dynamic pack: alone, in vectors and tuples, copied, borrowed, named
template <typename C>
void dynamic_case(Case& c)
{
        Rng& r = c.rng;
        reset(r);
        std::vector<item> pos, named;
        std::deque<std::shared_ptr<void>> keep;
        std::deque<std::basic_string<C>> names;
        px::dyn_t<C> args;
        std::vector<int> ids;
        int next = 1;
        std::size_t first = r.coin() ? 2 : 0;
        if(first) args.emplace(0), args.emplace(7);
        std::size_t n = r.range(1, 5);
        int safe = r.chance(1, 3); // otherwise fields that cannot be printed would end most cases early
        for(std::size_t i = 0; i < n; ++i)
        {
            item it;
            int k = static_cast<int>(r.below(n_mechs));
            if(!safe && (k == 0 || k >= 14)) k = static_cast<int>(r.range(1, 13));
            with_mech(k, [&](auto m)
            {
                constexpr int M = decltype(m)::value;
                it.m = M;
                it.id = next;
                bool is_named = r.chance(1, 4);
                if(is_named)
                {
                    it.name = U"n" + ref::ascii(std::to_string(i));
                    names.push_back(ref::enc<C>(it.name));
                }
                auto add = [&](auto&& v)
                {
                    if(is_named) args.emplace(papilio::arg(std::basic_string_view<C>(names.back()), std::forward<decltype(v)>(v)));
                    else args.emplace(std::forward<decltype(v)>(v));
                };
                switch(r.below(7))
                {
                case 0: // small enough to be kept inside
                case 1:
                {
                    it.size = 2;
                    check_traits<C, M, 2>(c);
                    if(r.coin()) add(T<M, 2>(next));
                    else
                    {
                        auto p = std::make_shared<T<M, 2>>(next);
                        keep.push_back(p);
                        add(*p);
                    }
                    break;
                }
                case 2:
                {
                    it.size = 100;
                    check_traits<C, M, 100>(c);
                    auto p = std::make_shared<T<M, 100>>(next);
                    keep.push_back(p);
                    if(r.coin()) add(*p);
                    else add(std::as_const(*p));
                    break;
                }
                case 3: // cannot be copied
                {
                    it.size = 0;
                    check_traits<C, M, 0>(c);
                    auto p = std::make_shared<T<M, 0>>(next);
                    keep.push_back(p);
                    if(r.coin()) add(*p);
                    else add(std::as_const(*p));
                    break;
                }
                case 4: // converts
                {
                    it.size = 1;
                    check_traits<C, M, 1>(c);
                    auto p = std::make_shared<T<M, 1>>(next);
                    keep.push_back(p);
                    add(*p);
                    break;
                }
                case 5:
                {
                    it.size = 2;
                    it.elems = static_cast<int>(r.range(2, 5));
                    auto p = std::make_shared<std::vector<T<M, 2>>>();
                    for(int j = 0; j < it.elems; ++j) p->emplace_back(next + j);
                    keep.push_back(p);
                    add(*p);
                    break;
                }
                default:
                {
                    it.size = 2;
                    it.elems = -3;
                    auto p = std::make_shared<std::tuple<T<M, 2>, T<M, 100>, T<M, 0>>>(T<M, 2>(next), T<M, 100>(next + 1), T<M, 0>(next + 2));
                    keep.push_back(p);
                    add(*p);
                    break;
                }
                }
            });
            for(int j = 0; j < std::abs(it.elems); ++j)
            {
                w.text[next] = fresh_text(r);
                ids.push_back(next++);
            }
            if(it.name.empty()) pos.push_back(it);
            else named.push_back(it);
        }
        pick_fault(r, ids);
        builder b{r, {}, {}, {}};
        build(b, pos, named, first);
        std::string d;
        for(auto& i : pos) d += " " + show_item(i);
        for(auto& i : named) d += " " + show_item(i);
        c.desc(cat(sizeof(C), "-byte format ", show(b.fmt), " style ", w.style, w.throw_parse ? " parse throws" : "", w.leave_one ? " parse stops early" : "", " throws at ", w.throw_at, " args", d));
        px::exact<C> f(ref::enc<C>(b.fmt));
        // the locale: only L may show it
        std::locale mine(std::locale::classic(), new classy(42));
        bool same_L = std::all_of(b.stream_L.begin(), b.stream_L.end(), [&](bool x) { return x == (b.stream_L.empty() ? x : b.stream_L[0]); });
        bool pass = r.coin() && same_L;
        want_tag = pass && !b.stream_L.empty() && b.stream_L[0] ? 42 : 0;
        if(pass && !b.stream_L.empty()) c.count("locale_passed");
        constexpr bool narrow = std::same_as<C, char> || std::same_as<C, wchar_t>; // the others take no locale
        if((narrow || !pass) && r.coin())
            run_and_judge<C>(c, b, "vformat", [&]
            {
                if constexpr(narrow)
                    if(pass) return papilio::vformat(mine, f.view(), args);
                return papilio::vformat(f.view(), args);
            });
        else
            run_and_judge<C>(c, b, "vformat_to", [&]
            {
                std::basic_string<C> s;
                // through another kind of output iterator
                auto it = papilio::format_iterator_for<C>(std::back_inserter(s));
                papilio::detail::vformat_to_impl<C, papilio::format_iterator_for<C>, px::ctx_t<C>>(it, pass ? papilio::locale_ref(mine) : papilio::locale_ref(nullptr), f.view(), args);
                return s;
            });
        tally<C>(c, b);
}

// every static entry point: the same calls, the same text
template <typename C>
void static_case(Case& c)
{
    Rng& r = c.rng;
    reset(r);
    auto go = [&](auto list_)
    {
        [&]<int A, int B, int D>(list<A, B, D>)
        {
            std::vector<item> pos{{A, 2, 1, 1, {}}, {B, 100, 2, 1, {}}}, named{{D, 0, 3, 1, U"late"}};
            for(int i = 1; i <= 3; ++i) w.text[i] = fresh_text(r);
            std::vector<int> ids{1, 2, 3};
            pick_fault(r, ids);
            builder b{r, {}, {}, {}};
            build(b, pos, named, 2);
            for(bool l : b.stream_L) if(l) { want_tag = 0; break; }
            auto text = ref::enc<C>(b.fmt);
            px::exact<C> f(text);
            auto nm = ref::enc<C>(U"late");
            T<A, 2> a(1);
            T<B, 100> bb(2);
            T<D, 0> d(3);
            auto dn = papilio::arg(std::basic_string_view<C>(nm), d);
            int how = static_cast<int>(r.below(std::same_as<C, char> || std::same_as<C, wchar_t> ? 6 : 1));
            c.desc(cat(sizeof(C), "-byte format ", show(b.fmt), " style ", w.style, " route ", how, w.throw_parse ? " parse throws" : "", w.leave_one ? " parse stops early" : "", " throws at ", w.throw_at, " T<", A, ",2>(1) T<", B, ",100>(2) late=T<", D, ",0>(3)"));
            static const char* const routes[] = {"vformat", "format_to", "format_to_n", "formatted_size", "format", "context format_to"};
            if constexpr(std::same_as<C, char> || std::same_as<C, wchar_t>)
            {
                std::basic_string_view<C> fv = f.view();
                std::size_t total = ref::enc<C>(b.out).size();
                if(how == 3)
                {
                    std::size_t n = 0;
                    bool ok = false;
                    run_and_judge<C>(c, b, routes[3], [&]
                    {
                        n = papilio::formatted_size(fv, 0, 7, a, bb, dn);
                        ok = true;
                        return ref::enc<C>(b.out);
                    });
                    if(ok && !b.fails) c.check(n == total, "size", [&] { return cat("formatted_size ", n, " want ", total); });
                }
                else
                    run_and_judge<C>(c, b, routes[how], [&]
                    {
                        std::basic_string<C> s;
                        switch(how)
                        {
                        case 1: papilio::format_to(std::back_inserter(s), fv, 0, 7, a, bb, dn); break;
                        case 2: papilio::format_to_n(std::back_inserter(s), static_cast<std::ptrdiff_t>(total + 50), fv, 0, 7, a, bb, dn); break;
                        case 4: s = papilio::format(fv, 0, 7, a, bb, dn); break;
                        case 5:
                        {
                            auto pack = papilio::make_format_args<px::ctx_t<C>>(0, 7, a, bb, dn);
                            s = papilio::vformat(fv, pack);
                            break;
                        }
                        default: s = papilio::vformat(fv, papilio::make_format_args<px::ctx_t<C>>(0, 7, a, bb, dn)); break;
                        }
                        return s;
                    });
            }
            else
                run_and_judge<C>(c, b, routes[0], [&] { return papilio::vformat(f.view(), papilio::make_format_args<px::ctx_t<C>>(0, 7, a, bb, dn)); });
            c.count(routes[how]);
            tally<C>(c, b);
        }(list_);
    };
    switch(r.below(5))
    {
    case 0: go(list<FMT | SIMPLE | STREAM, CMB | COMPLEX | STREAM, SIMPLE | STREAM>()); break;
    case 1: go(list<SIMPLE, COMPLEX, STREAM>()); break;
    case 2: go(list<COMPLEX | STREAM, STREAM, FMT>()); break;
    case 3: go(list<STREAM, FMT | COMPLEX, CMB>()); break;
    default: go(list<CMB, SIMPLE, DISABLED | SIMPLE | STREAM>()); break;
    }
}
