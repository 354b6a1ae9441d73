// C21: styles around values and around whole prints
#include <deque>
#include <fcntl.h>
#include <map>
#include <optional>
#include <ostream>
#include <set>
#include <sys/mman.h>
#include <typeinfo>
#include <unistd.h>
#include <variant>
#include "fmt.hpp"
#include <papilio/color.hpp>
#include <papilio/formatter/tuple.hpp>
#include <papilio/formatter/vocabulary.hpp>
#include <papilio/print.hpp>
using namespace vh;
using papilio::color;
using papilio::style;
using papilio::text_style;

namespace c21
{
struct by_adl { int v; };
template <typename Ctx>
typename Ctx::iterator format(const by_adl& x, Ctx& ctx)
{
    papilio::format_context_traits<Ctx>::append(ctx, "adl" + std::to_string(x.v));
    return ctx.out();
}
struct by_stream { int v; };
inline std::ostream& operator<<(std::ostream& os, const by_stream& x) { return os << "<" << x.v << ">"; }
struct thrower {};
template <typename Ctx>
typename Ctx::iterator format(const thrower&, Ctx& ctx)
{
    papilio::format_context_traits<Ctx>::append(ctx, "partial");
    throw std::runtime_error("thrower");
}
} // namespace c21

namespace
{
// the style that was asked for
struct want_t
{
    int fg = 0, bg = 0;
    unsigned st = 0;
    bool empty() const { return !fg && !bg && !st; }
    std::multiset<int> codes() const
    {
        std::multiset<int> s;
        for(int i = 0; i < 4; ++i) if(st >> i & 1) s.insert(i + 1);
        if(fg) s.insert(fg);
        if(bg) s.insert(bg + 10);
        return s;
    }
    std::string show() const { return cat("fg ", fg, " bg ", bg, " style ", st); }
};
// documented numbers of the colours, by name
struct named_color { color c; int code; };
const named_color colors[] = {{color::none, 0}, {color::black, 30}, {color::red, 31}, {color::green, 32}, {color::yellow, 33}, {color::blue, 34}, {color::purple, 35}, {color::cyan, 36}, {color::white, 37}};
struct named_style { style s; int bit; };
const named_style styles[] = {{style::bold, 0}, {style::faint, 1}, {style::italic, 2}, {style::underline, 3}};

// build the style by combining parts in any order
text_style build(Rng& r, const want_t& w, std::string& how)
{
    std::vector<int> parts;
    if(w.fg || r.chance(1, 4)) parts.push_back(100);
    if(w.bg || r.chance(1, 4)) parts.push_back(101);
    for(int i = 0; i < 4; ++i)
        if(w.st >> i & 1)
        {
            parts.push_back(i);
            if(r.chance(1, 6)) parts.push_back(i);
        }
    if(r.chance(1, 6)) parts.push_back(102);
    for(std::size_t i = parts.size(); i > 1; --i) std::swap(parts[i - 1], parts[r.below(i)]);
    text_style t;
    bool started = false;
    for(int p : parts)
    {
        auto col = [&](int code) { for(auto& c : colors) if(c.code == code) return c.c; return color::none; };
        how += cat(" ", p);
        if(p >= 100)
        {
            text_style x = p == 100 ? papilio::fg(col(w.fg)) : p == 101 ? papilio::bg(col(w.bg)) : text_style();
            if(!started && r.coin()) t = x;
            else if(r.coin()) t |= x;
            else t = r.coin() ? t | x : x | t;
        }
        else
        {
            style s = styles[p].s;
            if(!started && r.coin()) t = text_style(s);
            else if(r.coin()) t |= s;
            else t = r.coin() ? t | s : t | text_style(s);
        }
        started = true;
    }
    return t;
}
want_t any_style(Rng& r)
{
    want_t w;
    if(r.chance(1, 8)) return w;
    if(r.coin()) w.fg = colors[r.below(9)].code;
    if(r.coin()) w.bg = colors[r.below(9)].code;
    if(r.chance(2, 3)) w.st = static_cast<unsigned>(r.below(16));
    return w;
}
// one SGR sequence at the front of s
bool sgr(std::string_view& s, std::multiset<int>& codes)
{
    if(s.size() < 3 || s[0] != '\033' || s[1] != '[') return false;
    std::size_t i = 2;
    std::vector<int> v;
    int cur = -1;
    for(; i < s.size(); ++i)
    {
        if(s[i] >= '0' && s[i] <= '9') cur = (cur < 0 ? 0 : cur * 10) + (s[i] - '0');
        else if(s[i] == ';' || s[i] == 'm')
        {
            v.push_back(cur < 0 ? 0 : cur);
            cur = -1;
            if(s[i] == 'm') break;
        }
        else return false;
        if(cur > 1000) return false;
    }
    if(i >= s.size()) return false;
    for(int c : v) codes.insert(c);
    s.remove_prefix(i + 1);
    return true;
}
// style, payload and reset at the front of s
bool eat(std::string_view& s, const want_t& w, std::string_view payload)
{
    if(w.empty())
    {
        if(!s.starts_with(payload)) return false;
        s.remove_prefix(payload.size());
        return true;
    }
    auto want = w.codes();
    std::multiset<int> got;
    std::string_view x = s;
    while(sgr(x, got))
    {
        if(got != want) continue;
        std::string_view y = x;
        if(!y.starts_with(payload)) continue;
        y.remove_prefix(payload.size());
        std::multiset<int> rs;
        if(!sgr(y, rs) || rs != std::multiset<int>{0}) continue;
        s = y;
        return true;
    }
    return false;
}

struct field
{
    want_t w;
    want_t outer; // a style around the style
    bool nested = false;
    bool styled = false;
    std::string plain;
    bool fails = false;
};

// a value of any type, and the specification to print it with
struct any_arg
{
    std::string desc, spec;
    std::function<void(px::dyn_t<char>&)> add, add_plain;
};

template <typename T>
any_arg make(Rng& r, std::deque<std::shared_ptr<void>>& keep, const text_style& st, const text_style* outer, T v, std::string spec, std::string desc)
{
    auto p = std::make_shared<T>(std::move(v));
    keep.push_back(p);
    any_arg a;
    a.desc = desc;
    a.spec = spec;
    a.add_plain = [p](px::dyn_t<char>& args) { args.emplace(*p); };
    auto inner = std::make_shared<decltype(papilio::styled(st, *p))>(papilio::styled(st, *p));
    keep.push_back(inner);
    if(outer)
    {
        auto o = std::make_shared<decltype(papilio::styled(*outer, *inner))>(papilio::styled(*outer, *inner));
        keep.push_back(o);
        a.add = [o](px::dyn_t<char>& args) { args.emplace(*o); };
    }
    else a.add = [inner](px::dyn_t<char>& args) { args.emplace(*inner); };
    (void)r;
    return a;
}
std::string spec_of(Rng& r, int kind)
{
    if(r.coin()) return "";
    ref::Spec s = px::any_spec(r);
    s.L = false;
    if(s.has_fill) s.fill = r.pick({U'*', U'0', U'é', U'文', U'\033'});
    if(kind == 1) s.type = r.pick({U'\0', U'd', U'x', U'X', U'b', U'o'});
    if(kind == 2)
    {
        s.type = r.pick({U'\0', U'f', U'e', U'g', U'a'});
        if(r.coin()) s.has_prec = true, s.prec = r.below(8);
    }
    if(kind == 3)
    {
        s.sign = 0; s.alt = s.zero = false;
        if(r.coin()) s.has_prec = true, s.prec = r.below(8);
    }
    if(kind == 4) s.sign = 0, s.alt = s.zero = false;
    return ref::enc<char>(s.text());
}
any_arg any_value(Rng& r, std::deque<std::shared_ptr<void>>& keep, const text_style& st, const text_style* outer)
{
    auto text = [&]
    {
        std::string s = ref::enc<char>(px::any_text(r, 6));
        if(r.chance(1, 5)) s.insert(0, r.pick({"\033[1m", "\033[0m", "\033[31m", "m", "\033", "0m"}));
        if(r.chance(1, 6)) s += r.pick({"\033[0m", "\033", "\033["});
        return s;
    };
    auto mk = [&](auto v, std::string spec, std::string d) { return make(r, keep, st, outer, std::move(v), spec, d); };
    switch(r.below(19))
    {
    case 0: { int v = static_cast<int>(r.next()); return mk(v, spec_of(r, 1), cat("int ", v)); }
    case 1: { unsigned long long v = r.next(); return mk(v, spec_of(r, 1), cat("ull ", v)); }
    case 2: { double v = static_cast<double>(r.range(-1000, 1000)) / 16; return mk(v, spec_of(r, 2), cat("double ", v)); }
    case 3: { float v = static_cast<float>(r.range(-1000, 1000)) / 16; return mk(v, spec_of(r, 2), cat("float ", v)); }
    case 4: { auto s = text(); return mk(s, spec_of(r, 3), "string " + show(s)); }
    case 5:
    {
        auto p = std::make_shared<std::string>(text());
        keep.push_back(p);
        return mk(std::string_view(*p), spec_of(r, 3), "string_view " + show(*p));
    }
    case 6:
    {
        auto p = std::make_shared<std::string>(text());
        keep.push_back(p);
        return mk(static_cast<const char*>(p->c_str()), spec_of(r, 3), "char* " + show(*p));
    }
    case 7: { char v = static_cast<char>(r.range(0x20, 0x7e)); return mk(v, spec_of(r, 4), cat("char ", static_cast<int>(v))); }
    case 8: { bool v = r.coin(); return mk(v, spec_of(r, 4), cat("bool ", v)); }
    case 9: { std::vector<int> v(r.below(4), static_cast<int>(r.below(100))); return mk(v, r.pick({"", "n", ":x", ":04", "n:#x"}), cat("vector of ", v.size())); }
    case 10: { std::vector<std::string> v(r.below(3), ref::enc<char>(px::any_text(r, 6, true))); /* printed unit by unit */ return mk(v, r.pick({"", "n", ":>6"}), cat("vector<string> of ", v.size())); }
    case 11: { std::optional<int> v; if(r.coin()) v = 5; return mk(v, "", cat("optional ", v.has_value())); }
    case 12: { std::tuple<int, std::string> v(3, text()); return mk(v, r.pick({"", "n", "m"}), "tuple"); }
    case 13: { c21::by_adl v{static_cast<int>(r.below(100))}; return mk(v, "", cat("by_adl ", v.v)); }
    case 14: { c21::by_stream v{static_cast<int>(r.below(100))}; return mk(v, r.pick({"", "10", "*^9"}), cat("by_stream ", v.v)); }
    case 15: { papilio::utf::string_container v(text()); return mk(std::move(v), spec_of(r, 3), "string_container"); }
    case 16: { papilio::utf::codepoint v(px::any_cp(r)); return mk(v, spec_of(r, 4), "codepoint"); }
    case 17: { color v = colors[r.below(9)].c; return mk(v, r.pick({"", "d", "x", ">10"}), "enum"); }
    default: { const void* v = reinterpret_cast<const void*>(r.next()); return mk(v, spec_of(r, 4), "pointer"); }
    }
}

struct composed
{
    std::string fmt;
    std::vector<std::pair<std::string, int>> parts; // literal, then a field (or -1)
    std::deque<field> fields;
    px::dyn_t<char> args, plain_args;
    std::deque<std::shared_ptr<void>> keep;
    std::string desc;
    bool fails = false;
};

std::string literal(Rng& r, std::string& fmt)
{
    std::string s;
    if(r.coin()) s = ref::enc<char>(px::any_text(r, 3));
    if(r.chance(1, 8)) s += "\033[0m";
    std::string t;
    for(char c : s)
    {
        t += c;
        if(c == '{' || c == '}') t += c;
    }
    fmt += t;
    return s;
}

void compose(Rng& r, composed& x, bool may_fail)
{
    std::size_t n = r.range(1, 4);
    for(std::size_t i = 0; i < n; ++i)
    {
        auto lit = literal(r, x.fmt);
        x.fields.emplace_back();
        field& f = x.fields.back();
        f.styled = r.chance(5, 6);
        f.w = any_style(r);
        std::string how;
        text_style st = build(r, f.w, how);
        f.nested = r.chance(1, 6);
        text_style outer;
        if(f.nested) f.outer = any_style(r), outer = build(r, f.outer, how);
        any_arg a = any_value(r, x.keep, st, f.nested ? &outer : nullptr);
        if(may_fail && r.chance(1, 10)) a.spec = r.pick({"Q", "{", "99999999999999999999", "y}"});
        if(f.styled) a.add(x.args);
        else a.add_plain(x.args);
        a.add_plain(x.plain_args);
        auto p = px::capture<char>([&]
        {
            px::dyn_t<char> one;
            a.add_plain(one);
            return papilio::vformat("{:" + a.spec + "}", one);
        });
        f.fails = !p.ok();
        if(f.fails) x.fails = true;
        f.plain = p.s;
        x.fmt += cat("{", i, a.spec.empty() && r.coin() ? "" : ":" + a.spec, "}");
        x.parts.push_back({lit, static_cast<int>(i)});
        x.desc += cat(" [", i, "]=", f.styled ? cat("(", f.w.show(), f.nested ? " inside " + f.outer.show() : "", ") ") : "", a.desc);
    }
    x.parts.push_back({literal(r, x.fmt), -1});
}
bool matches(const composed& x, std::string_view& s)
{
    for(auto& [lit, i] : x.parts)
    {
        if(!s.starts_with(lit)) return false;
        s.remove_prefix(lit.size());
        if(i < 0) continue;
        const field& f = x.fields[static_cast<std::size_t>(i)];
        if(!f.styled)
        {
            if(!s.starts_with(f.plain)) return false;
            s.remove_prefix(f.plain.size());
        }
        else if(f.nested && !f.outer.empty())
        {
            std::multiset<int> got;
            std::string_view t = s;
            bool ok = false;
            while(!ok && sgr(t, got))
            {
                if(got != f.outer.codes()) continue;
                std::string_view y = t;
                std::multiset<int> rs;
                if(eat(y, f.w, f.plain) && sgr(y, rs) && rs == std::multiset<int>{0}) { ok = true; s = y; }
            }
            if(!ok) return false;
        }
        else if(!eat(s, f.w, f.plain)) return false;
    }
    return true;
}
} // namespace

// every combination of colours and text styles, on every kind of output
VH_STREAM(every_style, 1296, 12960)
{
    std::uint64_t k = c.index;
    want_t w;
    w.fg = colors[k % 9].code;
    w.bg = colors[k / 9 % 9].code;
    w.st = static_cast<unsigned>(k / 81 % 16);
    std::string how;
    text_style st = build(c.rng, w, how);
    c.desc(cat(w.show(), " from", how));
    c.check(st.has_foreground() == (w.fg != 0) && st.has_background() == (w.bg != 0) && st.has_style() == (w.st != 0), "queries", "has_foreground, has_background or has_style");
    for(auto& s : styles) c.check(st.has_style(s.s) == bool(w.st >> s.bit & 1), "queries", [&] { return cat("has_style of ", s.bit); });
    std::string out;
    st.set(std::back_inserter(out));
    std::size_t at = out.size();
    out += "x";
    st.reset(std::back_inserter(out));
    std::string_view v = out;
    c.check(eat(v, w, "x") && v.empty(), "codes", [&] { return cat("printed ", show(out)); });
    // into a buffer of exactly the right size
    std::unique_ptr<char[]> buf(new char[out.size()]);
    char* e = st.set(buf.get());
    c.check(static_cast<std::size_t>(e - buf.get()) == at && std::string_view(buf.get(), at) == std::string_view(out).substr(0, at), "iterator", "set() to a pointer");
    *e++ = 'x';
    e = st.reset(e);
    c.check(static_cast<std::size_t>(e - buf.get()) == out.size() && std::string_view(buf.get(), out.size()) == out, "iterator", "reset() to a pointer");
    std::string f = papilio::format("{}", papilio::styled(st, 'x'));
    c.check(f == out, "format", [&] { return cat("format gave ", show(f), " instead of ", show(out)); });
    std::string g;
    papilio::format_to(std::back_inserter(g), "{}", papilio::styled(st, 'x'));
    c.check(g == out, "format_to", [&] { return cat("format_to gave ", show(g), " instead of ", show(out)); });
    c.check(papilio::formatted_size("{}", papilio::styled(st, 'x')) == out.size(), "formatted_size", [&] { return cat(papilio::formatted_size("{}", papilio::styled(st, 'x')), " instead of ", out.size()); });
    std::size_t lim = c.rng.below(out.size() + 3);
    g.clear();
    papilio::format_to_n(std::back_inserter(g), static_cast<std::ptrdiff_t>(lim), "{}", papilio::styled(st, 'x'));
    c.check(g == out.substr(0, lim), "format_to_n", [&] { return cat("first ", lim, ": ", show(g)); });
    // combining does not depend on the order
    std::string how2;
    text_style st2 = build(c.rng, w, how2);
    std::string out2;
    st2.set(std::back_inserter(out2));
    c.check(out2 == out.substr(0, at), "order", [&] { return cat("combined as", how2, ": ", show(out2), " instead of ", show(out.substr(0, at))); });
    c.count("styles");
    c.nontrivial(cat("every", k % 1296));
    c.sample(cat(w.show(), " -> ", show(out)));
}

VH_STREAM(formatted, 120000, 3000000)
{
    Rng& r = c.rng;
    composed x;
    compose(r, x, true);
    c.desc(cat(show(x.fmt), " with", x.desc));
    px::exact<char> f(x.fmt);
    auto got = px::vformat<char>(f.view(), x.args);
    auto plain = px::vformat<char>(f.view(), x.plain_args);
    if(x.fails || !plain.ok())
    {
        // what cannot be printed plain cannot be printed with a style either
        c.check(got.ok() == plain.ok(), "accepts-what-plain-refuses", [&] { return cat("got ", got.show(), " while the plain call gives ", plain.show()); });
        c.count("refused");
    }
    else
    {
        c.check(got.ok(), "refused", [&] { return got.show(); });
        if(got.ok())
        {
            std::string_view v = got.s;
            bool ok = matches(x, v) && v.empty();
            c.check(ok, "output", [&] { return cat("printed ", show(got.s), " while the plain call gives ", show(plain.s)); });
            c.count("formatted");
        }
    }
    c.nontrivial(cat(x.fmt, x.desc));
    c.sample(cat(show(x.fmt), " with", x.desc, " -> ", got.show()));
}

// the print functions that take a style write to the standard output
VH_STREAM(printed, 25000, 500000)
{
    Rng& r = c.rng;
    composed x;
    compose(r, x, r.chance(1, 4));
    want_t w = any_style(r);
    std::string how;
    text_style st = build(r, w, how);
    bool nl = r.coin(), thrower = r.chance(1, 10);
    if(thrower) x.fmt += cat("{", x.fields.size(), "}");
    c.desc(cat(nl ? "println(" : "print(", w.show(), ") ", show(x.fmt), " with", x.desc, thrower ? " and a thrower" : ""));
    auto plain = px::vformat<char>(x.fmt, x.args);
    int fd = ::memfd_create("c21", 0);
    std::fflush(stdout);
    int saved = ::dup(1);
    ::dup2(fd, 1);
    std::string err;
    bool ok = false;
    try
    {
        // the entry points take the arguments themselves: everything is one text here
        if(thrower)
        {
            if(nl) papilio::println(st, "{}{}", plain.s, c21::thrower());
            else papilio::print(st, "{}{}", plain.s, c21::thrower());
        }
        else if(plain.ok())
        {
            switch(r.below(3))
            {
            case 0: nl ? papilio::println(st, "{}", plain.s) : papilio::print(st, "{}", plain.s); break;
            case 1: nl ? papilio::println(st, "{0:}{1}", plain.s, "") : papilio::print(st, "{0:}{1}", plain.s, ""); break;
            default:
            {
                // through the format string itself
                std::string lit;
                for(char ch : plain.s)
                {
                    lit += ch;
                    if(ch == '{' || ch == '}') lit += ch;
                }
                nl ? papilio::println(st, std::string_view(lit)) : papilio::print(st, std::string_view(lit));
                break;
            }
            }
        }
        else
        {
            nl ? papilio::println(st, "{0:Q}{1}", 1, 2) : papilio::print(st, "{0:Q}{1}", 1, 2);
        }
        ok = true;
    }
    catch(const std::exception& e) { err = e.what(); }
    std::fflush(stdout);
    ::dup2(saved, 1);
    ::close(saved);
    off_t n = ::lseek(fd, 0, SEEK_END);
    std::string out(static_cast<std::size_t>(n), '\0');
    if(n && ::pread(fd, out.data(), out.size(), 0) != n) out = "(not read)";
    ::close(fd);
    if(thrower || !plain.ok())
    {
        c.check(!ok, "not-refused", [&] { return show(out); });
        // nothing may leave the terminal in the style
        c.check(out.empty(), "style-left-behind", [&] { return cat("formatting failed after ", show(out), " had been printed"); });
        c.count("failed_prints");
    }
    else
    {
        std::string_view v = out;
        bool good = eat(v, w, plain.s) && v == (nl ? "\n" : "");
        if(!good && nl)
        {
            v = out;
            good = eat(v, w, plain.s + "\n") && v.empty();
        }
        c.check(ok && good, "output", [&] { return cat("printed ", show(out), " for the text ", show(plain.s), " in style ", w.show(), " ", err); });
        c.count("printed");
        if(w.empty()) c.count("printed_without_style");
    }
    c.nontrivial(cat("p", x.fmt, x.desc, w.show(), nl));
}
