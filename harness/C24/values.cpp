#include <unordered_map>
#include "c24.hpp"
using namespace c24;

// ---- visits of tuples
namespace
{
struct tracked
{
    int v = 0;
    static inline int copies = 0;
    static inline int moves = 0;
    tracked() = default;
    explicit tracked(int x) : v(x) {}
    tracked(const tracked& o) : v(o.v) { ++copies; }
    tracked(tracked&& o) noexcept : v(std::exchange(o.v, -1)) { ++moves; }
    tracked& operator=(const tracked& o) { v = o.v; ++copies; return *this; }
    tracked& operator=(tracked&& o) noexcept { v = std::exchange(o.v, -1); ++moves; return *this; }
};
struct empty_a { friend bool operator==(empty_a, empty_a) { return true; } };
struct empty_b {};

// a tuple of the user, found by argument-dependent lookup; counts how often each element is asked for
struct triple
{
    int a = 0;
    std::string b;
    std::unique_ptr<int> d;
    mutable std::array<int, 3> asked{};
};
template <std::size_t I, typename T>
requires std::same_as<std::remove_cvref_t<T>, triple>
decltype(auto) get(T&& t)
{
    ++t.asked[I];
    if constexpr(I == 0) return (std::forward<T>(t).a);
    else if constexpr(I == 1) return (std::forward<T>(t).b);
    else return (std::forward<T>(t).d);
}
} // namespace
namespace std
{
template <> struct tuple_size<triple> : integral_constant<size_t, 3> {};
template <> struct tuple_element<0, triple> { using type = int; };
template <> struct tuple_element<1, triple> { using type = string; };
template <> struct tuple_element<2, triple> { using type = unique_ptr<int>; };
template <> struct tuple_element<0, const triple> { using type = const int; };
template <> struct tuple_element<1, const triple> { using type = const string; };
template <> struct tuple_element<2, const triple> { using type = const unique_ptr<int>; };
} // namespace std

namespace
{
std::string brief(int v) { return cat("i", v); }
std::string brief(long long v) { return cat("l", v); }
std::string brief(bool v) { return cat("b", v); }
std::string brief(char v) { return cat("c", static_cast<int>(v)); }
std::string brief(double v) { return cat("d", v); }
std::string brief(const std::string& v) { return cat("s", v); }
std::string brief(const tracked& v) { return cat("t", v.v); }
std::string brief(const std::unique_ptr<int>& v) { return v ? cat("u", *v) : "null"; }
std::string brief(empty_a) { return "A"; }
std::string brief(empty_b) { return "B"; }

// what a visitor saw: the element and how it was handed over
struct seen
{
    std::vector<std::string> log;
    long stop = -1; // throws at this visit
    int uses = 0;
    template <typename T>
    void operator()(T&& v)
    {
        ++uses;
        if(stop-- == 0) throw boom();
        constexpr char how = std::is_lvalue_reference_v<T> ? (std::is_const_v<std::remove_reference_t<T>> ? 'k' : 'l') : (std::is_const_v<T> ? 'q' : 'r');
        log.push_back(cat(std::string(1, how), brief(v)));
        if constexpr(how == 'r')
        {
            std::remove_cvref_t<T> taken = std::forward<T>(v);
            (void)taken;
        }
    }
};
template <typename Tuple>
void visit_all(Case& c, Rng& r, Tuple tp, std::vector<std::string> parts, const char* name)
{
    long stop = r.chance(1, 4) ? static_cast<long>(r.below(parts.size() + 1)) : -1;
    int how = static_cast<int>(r.below(3));
    c.desc(cat("visit of ", name, " as ", how == 0 ? "lvalue" : how == 1 ? "const lvalue" : "rvalue", ", visit ", stop, " throws"));
    seen s;
    s.stop = stop;
    bool threw = false;
    tracked::copies = 0;
    try
    {
        if(how == 0) papilio::tuple_for_each(tp, s);
        else if(how == 1) papilio::tuple_for_each(std::as_const(tp), s);
        else papilio::tuple_for_each(std::move(tp), s);
    }
    catch(const boom&) { threw = true; }
    std::size_t n = stop < 0 ? parts.size() : std::min<std::size_t>(parts.size(), static_cast<std::size_t>(stop));
    CK(threw == (stop >= 0 && static_cast<std::size_t>(stop) < parts.size()), "exception of a visitor", threw);
    CK(s.log.size() == n, "number of visits", s.log.size(), " want ", n);
    CK(tracked::copies == 0, "an element was copied for the visit", tracked::copies);
    for(std::size_t i = 0; i < std::min(n, s.log.size()); ++i)
    {
        CK(s.log[i].substr(1) == parts[i], "visited element", i, ": ", s.log[i], " want ", parts[i]);
        CK(s.log[i][0] == (how == 0 ? 'l' : how == 1 ? 'k' : 'r') || (std::string_view(name) == "compressed pair" && how == 2), "value category of a visited element", i, ": ", s.log[i]);
    }
    if constexpr(std::same_as<Tuple, triple>)
        for(int k : tp.asked)
            CK(k <= 1, "element asked for more than once", k);
    c.count("visits", n);
    c.nontrivial(hash_str(name, static_cast<std::uint64_t>(how * 64 + stop + 1)));
}
} // namespace

VH_STREAM(visits, 20000, 1000000)
{
    Rng& r = c.rng;
    auto num = [&] { return static_cast<int>(r.range(-1000, 1000)); };
    int a = num(), b = num(), d = num();
    switch(r.below(10))
    {
    case 0: visit_all(c, r, std::tuple<>(), {}, "empty tuple"); break;
    case 1: visit_all(c, r, std::tuple<int, std::string, bool, double>(a, cat(b), d > 0, d / 4.0), {cat("i", a), cat("s", b), cat("b", d > 0), cat("d", d / 4.0)}, "tuple"); break;
    case 2: visit_all(c, r, std::pair<int, tracked>(a, tracked(b)), {cat("i", a), cat("t", b)}, "pair"); break;
    case 3: visit_all(c, r, std::array<tracked, 3>{tracked(a), tracked(b), tracked(d)}, {cat("t", a), cat("t", b), cat("t", d)}, "array"); break;
    case 4:
        visit_all(c, r, std::make_tuple(std::make_unique<int>(a), tracked(b), std::unique_ptr<int>()), {cat("u", a), cat("t", b), "null"}, "move-only tuple");
        break;
    case 5: visit_all(c, r, papilio::compressed_pair<int, std::string>(a, cat(b)), {cat("i", a), cat("s", b)}, "compressed pair"); break;
    case 6: visit_all(c, r, papilio::compressed_pair<empty_a, int>(empty_a{}, a), {"A", cat("i", a)}, "compressed pair"); break;
    case 7: visit_all(c, r, papilio::compressed_pair<int, empty_b>(a, empty_b{}), {cat("i", a), "B"}, "compressed pair"); break;
    case 8: visit_all(c, r, papilio::compressed_pair<empty_a, empty_b>(), {"A", "B"}, "compressed pair"); break;
    default: visit_all(c, r, triple{a, cat(b), std::make_unique<int>(d), {}}, {cat("i", a), cat("s", b), cat("u", d)}, "tuple of the user"); break;
    }
}

// changes made by a visitor reach the tuple, and a visitor given as a temporary keeps its state between elements
VH_STREAM(changes, 5000, 200000)
{
    Rng& r = c.rng;
    int a = static_cast<int>(r.range(-100, 100)), k = static_cast<int>(r.range(-5, 5));
    std::tuple<int, long long, int> t(a, a * 2, a * 3);
    int place = 0;
    c.desc(cat("changing visit ", a, " ", k));
    papilio::tuple_for_each(t, [&](auto& v) { v = v * k + place++; });
    CK(t == std::make_tuple(a * k, static_cast<long long>(a * 2 * k + 1), a * 3 * k + 2), "changes of a visitor", "");
    long long sum = 0;
    papilio::tuple_for_each(std::as_const(t), [&sum, n = 1](auto v) mutable { sum += v * n; n *= 10; });
    CK(sum == std::get<0>(t) + 10 * std::get<1>(t) + 100 * std::get<2>(t), "state of a visitor", sum);
    c.nontrivial(static_cast<std::uint64_t>(a * 100 + k));
}

// ---- index ranges
VH_STREAM(ranges, 30000, 1000000)
{
    Rng& r = c.rng;
    using papilio::index_range;
    using papilio::ssize_t;
    constexpr ssize_t big = index_range::npos;
    auto pos = [&]() -> ssize_t
    {
        switch(r.below(5))
        {
        case 0: return r.pick({ssize_t(0), ssize_t(-1), ssize_t(1), big - 1, -big, big});
        case 1: return static_cast<ssize_t>(r.next()) / 4;
        default: return r.range(-12, 12);
        }
    };
    ssize_t a = pos(), b = pos(), a2 = r.coin() ? a : pos(), b2 = r.coin() ? b : pos();
    std::size_t len = r.chance(1, 5) ? static_cast<std::size_t>(r.next() >> 2) : r.below(14);
    c.desc(cat("index range ", a, " ", b, " of ", len));
    index_range x(a, b), y(a2, b2), open(a);
    CK(x.begin() == a && x.end() == b && x.first == a && x.second == b, "ends of a range", "");
    CK(open.begin() == a && open.end() == big, "ends of an open range", "");
    CK(index_range().begin() == 0 && index_range().end() == big, "default range", "");
    CK((x == y) == (a == a2 && b == b2) && (x != y) == !(a == a2 && b == b2), "comparison of ranges", "");
    auto slen = static_cast<ssize_t>(len);
    // lengths and positions whose sum cannot be represented are the caller's business
    auto where = [&](ssize_t p) { return p < 0 ? slen + p : p; };
    ssize_t wa = where(a), wb = b == big ? slen : where(b);
    index_range n = x.normalize(len);
    CK(n.begin() == wa && n.end() == wb, "normalized range", n.begin(), " ", n.end());
    CK(x.begin() == a && x.end() == b, "normalize() changed the range", "");
    if(a != big)
    {
        auto o = open.normalize(len);
        CK(o.begin() == wa && o.end() == slen, "normalized open range", "");
        if(wa >= 0 && wa <= slen) CK(o.length() == len - static_cast<std::size_t>(wa), "length of an open range", "");
    }
    index_range m = y;
    m = x;
    m.normalize(std::in_place, len);
    CK(m == n, "normalization in place", "");
    if(wa >= 0 && wb >= wa && wb != big) CK(n.length() == static_cast<std::size_t>(wb - wa), "length of a range", n.length());
    if(wa >= 0 && wb >= 0 && wa != big && wb != big) CK(n.normalize(r.below(100)) == n, "a normalized range is changed by normalizing", "");
    c.count("index_ranges");
    c.nontrivial(hash_str(cat(a, ",", b, ",", len)));
}

// ---- names of attributes, index values
namespace
{
template <typename C>
void names(Case& c)
{
    Rng& r = c.rng;
    using S = std::basic_string<C>;
    using SV = std::basic_string_view<C>;
    using SC = papilio::utf::basic_string_container<C>;
    using name_t = papilio::basic_attribute_name<C>;
    using value_t = papilio::basic_indexing_value<C>;
    auto word = [&](std::size_t most)
    {
        S s;
        for(std::size_t i = 0, n = r.below(most); i < n; ++i) s += static_cast<C>('a' + r.below(2));
        if(r.chance(1, 8)) s += C(0);
        if(r.chance(1, 6)) s += S(20, C('x'));
        return s;
    };
    auto base = word(5);
    S a = base, b = r.coin() ? base : word(5);
    if(r.chance(1, 6)) b = base.substr(0, base.size() / 2);
    c.desc(cat("names ", show(SV(a)), " and ", show(SV(b))));
    auto make = [&](const S& s) -> name_t
    {
        switch(r.below(5))
        {
        case 0: return name_t(s);
        case 1: return name_t(SV(s));
        case 2: return name_t(papilio::independent, SV(s));
        case 3: return name_t(std::in_place, s.data(), s.size());
        default: return name_t(S(s));
        }
    };
    name_t x = make(a), y = make(b);
    bool same = a == b;
    CK((x == y) == same && (y == x) == same && (x != y) == !same, "comparison of two names", "");
    CK((x == b) == same && (b == x) == same && (x != b) == !same && (b != x) == !same, "comparison of a name and a string", "");
    CK((x == SV(b)) == same && (SV(b) == x) == same && (x != SV(b)) == !same, "comparison of a name and a view", "");
    const C* z = b.c_str();
    if constexpr(requires { x == z; z == x; x != z; })
        CK((x == z) == (a == z) && (z == x) == (a == z) && (x != z) == (a != z), "comparison of a name and a null-terminated text", "");
    else CK(false, "a name cannot be compared with a null-terminated text", sizeof(C));
    CK(SV(x) == a && SV(x.name()) == a && static_cast<SV>(y) == b, "text of a name", show(SV(x)));
    {
        S s = a;
        name_t own(papilio::independent, s);
        auto first = std::make_unique<papilio::basic_invalid_attribute<C>>(name_t(s));
        auto second = std::make_unique<papilio::basic_invalid_attribute<C>>(*first);
        auto third = std::make_unique<papilio::basic_invalid_attribute<C>>(std::move(*first));
        first.reset();
        papilio::basic_invalid_attribute<C> fourth = *second;
        second.reset();
        std::fill(s.begin(), s.end(), C('~'));
        CK(SV(own) == a, "a name that should not depend on its source does", show(SV(own)));
        CK(SV(third->name()) == a && SV(fourth.name()) == a, "name in a copied exception", show(SV(fourth.name())));
        try { papilio::throw_invalid_attribute(y); CK(false, "no exception", ""); }
        catch(const papilio::basic_invalid_attribute<C>& e) { CK(SV(e.name()) == b && std::string_view(e.what()) == "invalid attribute", "name in an exception", ""); }
    }
    auto copy = x;
    auto moved = std::move(copy);
    CK(moved == x, "copied name", "");

    papilio::ssize_t n = static_cast<papilio::ssize_t>(r.next());
    papilio::index_range rg(r.range(-9, 9), r.coin() ? papilio::index_range::npos : r.range(-9, 9));
    int kind = static_cast<int>(r.below(6));
    auto val = [&]() -> value_t
    {
        switch(kind)
        {
        case 0: return value_t(n);
        case 1: return value_t(rg);
        case 2: return value_t(SC(SV(a)));
        case 3: return value_t(a);
        case 4: { S s = a; value_t v(papilio::independent, s); std::fill(s.begin(), s.end(), C('~')); return v; }
        default: return value_t(SV(a));
        }
    }();
    auto look = [&](const value_t& v, const char* what)
    {
        CK(v.holds_index() == (kind == 0) && v.holds_range() == (kind == 1) && v.holds_string() == (kind > 1), "kind of an index value", what);
        CK(v.template holds<typename value_t::index_type>() == (kind == 0) && v.template holds<SC>() == (kind > 1), "kind of an index value", what);
        if(kind == 0) CK(v.as_index() == n, "index", what);
        else if(kind == 1) CK(v.as_range() == rg, "range", what);
        else CK(SV(v.as_string()) == a, "key", what, show(SV(v.as_string())));
        auto got = v.visit([&](const auto& u) -> std::pair<int, bool>
        {
            using T = std::remove_cvref_t<decltype(u)>;
            if constexpr(std::same_as<T, papilio::ssize_t>) return {0, u == n};
            else if constexpr(std::same_as<T, papilio::index_range>) return {1, u == rg};
            else return {2, SV(u) == a};
        });
        CK(got.first == std::min(kind, 2) && got.second, "visited index value", what, got.first);
    };
    look(val, "made");
    value_t second = val;
    look(second, "copied");
    value_t third = std::move(second);
    look(third, "moved");
    look(val, "after copying");

    // named arguments
    {
        int number = static_cast<int>(n);
        auto arg = papilio::arg(SV(a), number);
        static_assert(!decltype(arg)::is_temporary && papilio::is_named_arg_v<decltype(arg)>);
        CK(arg.name == a && &arg.value == &number && &arg.get() == &number, "named argument", "");
        auto brg = papilio::arg(b.c_str(), std::as_const(number));
        CK(brg.name == b.c_str() && &brg.get() == &number, "named argument", "");
        auto tmp = papilio::arg(SV(a), S(b));
        static_assert(decltype(tmp)::is_temporary);
        (void)tmp;
    }
    c.count("names");
    c.nontrivial(hash_str(show(SV(a)), hash_str(show(SV(b)), static_cast<std::uint64_t>(kind))));
}
} // namespace
VH_STREAM(names_char, 15000, 500000) { names<char>(c); }
VH_STREAM(names_wchar, 15000, 500000) { names<wchar_t>(c); }
VH_STREAM(names_u8, 5000, 200000) { names<char8_t>(c); }
VH_STREAM(names_u16, 5000, 200000) { names<char16_t>(c); }
VH_STREAM(names_u32, 5000, 200000) { names<char32_t>(c); }

// ---- addresses of pointer-like objects, references to locales, names of script errors
VH_STREAM(handles, 5000, 100000)
{
    Rng& r = c.rng;
    c.desc("pointers, locales, script errors");
    int value = static_cast<int>(r.next());
    auto u = std::make_unique<int>(value);
    std::shared_ptr<int> s = std::make_shared<int>(value), none;
    std::vector<int> v(3);
    int* raw = r.coin() ? &value : nullptr;
    CK(papilio::ptr(raw) == raw && papilio::ptr(u) == u.get() && papilio::ptr(s) == s.get() && papilio::ptr(none) == nullptr, "address of a pointer-like object", "");

    struct punct : std::numpunct<char> { char do_decimal_point() const override { return ';'; } };
    static const std::locale other(std::locale::classic(), new punct), third(std::locale::classic(), new std::numpunct<char>);
    const std::locale* model = nullptr;
    papilio::locale_ref ref;
    for(int i = 0; i < 8; ++i)
    {
        const std::locale* next = r.pick({static_cast<const std::locale*>(nullptr), &other, &third, &std::locale::classic()});
        switch(r.below(4))
        {
        case 0:
            if(next) ref = *next;
            else ref = nullptr;
            break;
        case 1:
            if(next) ref = papilio::locale_ref(*next);
            else ref = papilio::locale_ref(nullptr);
            break;
        case 2: { papilio::locale_ref l; if(next) l = *next; ref = l; break; }
        default: { papilio::locale_ref l = next ? papilio::locale_ref(*next) : papilio::locale_ref(); ref = std::as_const(l); break; }
        }
        model = next;
        CK(ref.empty() == (model == nullptr), "emptiness of a reference to a locale", "");
        CK(ref.get() == (model ? *model : std::locale::classic()) && static_cast<std::locale>(ref) == ref.get(), "referenced locale", "");
    }
    auto code = static_cast<papilio::script_error_code>(r.range(-3, 12));
    std::string name = to_string(code);
    std::wstring wide = to_wstring(code);
    std::ostringstream os;
    std::wostringstream wos;
    os << code;
    wos << code;
    CK(!name.empty() && os.str() == name && wos.str() == wide, "name of a script error in a stream", name, " ", os.str());
    CK(wide == std::wstring(name.begin(), name.end()), "wide name of a script error", name);
    CK(papilio::script_base::error(code).what() == "script error: " + name || std::string_view(papilio::script_base::error(code).what()).find(name) != std::string_view::npos, "message of a script error", papilio::script_base::error(code).what());
    CK(papilio::script_base::error(code).error_code() == code, "code of a script error", name);
    for(int k = 0; k < 9; ++k)
    {
        auto o = static_cast<papilio::script_error_code>(k);
        if(o != code && static_cast<int>(code) >= 0 && static_cast<int>(code) < 9) CK(to_string(o) != name, "two script errors of one name", name);
    }
    c.nontrivial(static_cast<std::uint64_t>(value));
}
