// Generated format strings with the text they must produce
#pragma once
#include <algorithm>
#include <deque>
#include "fmt.hpp"

namespace gen
{
using vh::Rng;
using ref::Spec;
using ref::U32;

struct value
{
    enum kind_t { k_int, k_uint, k_str, k_char, k_bool, k_float } kind = k_int;
    long long i = 0;
    unsigned long long u = 0;
    double d = 0; // multiple of 1/8
    U32 s;
    U32 name; // empty: positional

    std::optional<std::size_t> as_size() const
    {
        if(kind == k_int && i >= 0 && i <= 1000) return static_cast<std::size_t>(i);
        if(kind == k_uint && u <= 1000) return static_cast<std::size_t>(u);
        return std::nullopt;
    }
    U32 text(const Spec& sp) const
    {
        switch(kind)
        {
        case k_int: return ref::integer_of(i, sp);
        case k_uint: return ref::integer(false, u, sp);
        case k_str: return ref::string(s, sp);
        case k_char: return ref::pad(s, sp, U'<');
        case k_float: return ref::floating(d, sp);
        default: return ref::pad(i ? U"true" : U"false", sp, U'<');
        }
    }
    std::string show() const
    {
        std::string r = name.empty() ? "" : vh::show(name) + "=";
        switch(kind)
        {
        case k_int: return r + std::to_string(i);
        case k_uint: return r + std::to_string(u) + "u";
        case k_str: return r + vh::show(s);
        case k_char: return r + "char " + vh::show(s);
        case k_float: return r + "double " + std::to_string(d);
        default: return r + (i ? "true" : "false");
        }
    }
};

inline value random_value(Rng& r, int kind = -1)
{
    value v;
    v.kind = static_cast<value::kind_t>(kind >= 0 ? kind : static_cast<int>(r.below(5)));
    switch(v.kind)
    {
    case value::k_int: v.i = r.chance(1, 3) ? static_cast<long long>(r.next()) : r.range(-5, 40); break;
    case value::k_uint: v.u = r.chance(1, 3) ? r.next() : r.below(40); break;
    case value::k_str: v.s = px::any_text(r, 6); break;
    case value::k_char: v.s = U32(1, static_cast<char32_t>(r.range(0x21, 0x7e))); break;
    case value::k_bool: v.i = r.coin(); break;
    case value::k_float: v.d = static_cast<double>(r.range(-400, 400)) / 8; break;
    }
    return v;
}

inline U32 random_name(Rng& r)
{
    static const U32 fixed[] = {U"a", U"A", U"value", U"_", U"__x", U"x1", U"Zz9_", U"naïve", U"名前", U"🦋", U"abc", U"abcd", U"ab"};
    if(r.coin()) return r.pick(fixed);
    U32 s;
    std::size_t n = static_cast<std::size_t>(r.range(1, 9));
    for(std::size_t i = 0; i < n; ++i)
    {
        U32 set = i == 0 ? U"abcxyzABCXYZ_é文" : U"abcxyzABCXYZ_é文0123456789";
        s += set[r.below(set.size())];
    }
    return s;
}

// What the string being built means
struct model
{
    Rng& r;
    const std::vector<value>& pos;
    const std::vector<value>& named;
    U32 fmt, out;
    std::size_t counter = 0;
    bool manual = false;
    bool error = false;
    std::size_t autos = 0, explicits = 0, names = 0, dyn = 0, escapes = 0;

    const value* at(std::size_t i)
    {
        if(i >= pos.size()) { error = true; return nullptr; }
        return &pos[i];
    }
    // Appends an argument id and returns the argument it denotes. mode 0: automatic 1: explicit 2: named
    const value* id(U32& f, unsigned mode, std::size_t idx)
    {
        if(mode == 0)
        {
            ++autos;
            if(manual) { error = true; return nullptr; }
            return at(counter++);
        }
        if(mode == 1)
        {
            ++explicits;
            if(r.chance(1, 12)) f += U32(r.below(3) + 1, U'0'); // leading zeros
            f += ref::ascii(std::to_string(idx));
            manual = true;
            return at(idx);
        }
        ++names;
        f += named[idx].name;
        return &named[idx];
    }
    void literal()
    {
        std::size_t n = r.below(5);
        for(std::size_t i = 0; i < n; ++i)
        {
            char32_t c = px::any_cp(r);
            if(r.chance(1, 6)) c = r.coin() ? U'{' : U'}';
            else if(r.chance(1, 8)) c = r.pick({U':', U'$', U'?', U'\'', U'\\', U'%', U'[', U']', U'.', U'\n', U'\t'});
            fmt += c;
            if(c == U'{' || c == U'}') { fmt += c; ++escapes; }
            out += c;
        }
    }
    // pick the mode; wild: may select something erroneous
    unsigned pick_mode(bool wild)
    {
        unsigned m = static_cast<unsigned>(r.below(3));
        if(m == 2 && named.empty()) m = static_cast<unsigned>(r.below(2));
        if(m == 0 && !wild && (manual || counter >= pos.size())) m = pos.empty() ? 2 : 1;
        return m;
    }
    std::size_t pick_index(unsigned m, bool wild)
    {
        if(m == 1) return wild ? r.below(pos.size() + 2) : r.below(pos.size());
        if(m == 2) return r.below(named.size());
        return 0;
    }
    bool dyn_ref(U32& t, std::size_t& val, std::size_t min)
    {
        // candidates holding a usable number
        std::vector<std::pair<unsigned, std::size_t>> cand;
        if(!manual && counter < pos.size() && pos[counter].as_size() && *pos[counter].as_size() >= min && *pos[counter].as_size() <= 60) cand.push_back({0, 0}), cand.push_back({0, 0});
        for(std::size_t i = 0; i < pos.size(); ++i)
            if(auto v = pos[i].as_size(); v && *v >= min && *v <= 60) cand.push_back({1, i});
        for(std::size_t i = 0; i < named.size(); ++i)
            if(auto v = named[i].as_size(); v && *v >= min && *v <= 60) cand.push_back({2, i});
        if(cand.empty()) return false;
        auto [m, i] = cand[r.below(cand.size())];
        t = U"{";
        const value* v = id(t, m, i);
        t += U"}";
        ++dyn;
        val = *v->as_size();
        return true;
    }
    void field(bool wild)
    {
        unsigned m = pick_mode(wild);
        if(m == 1 && pos.empty() && !wild) return;
        if(m == 0 && pos.empty() && !wild) return;
        if(m == 2 && named.empty()) return;
        std::size_t idx = pick_index(m, wild);
        U32 f = U"{";
        const value* v = id(f, m, idx);
        if(!v)
        {
            if(r.coin()) f += U":";
            fmt += f + U"}";
            return;
        }
        Spec s;
        if(r.coin())
        {
            f += U":";
            if(r.chance(5, 6))
            {
                if(r.chance(1, 3))
                {
                    s.align = r.pick({U'<', U'>', U'^'});
                    if(r.coin()) s.has_fill = true, s.fill = r.pick({U'*', U' ', U'0', U':', U'文', U'-'});
                }
                if(v->kind == value::k_int || v->kind == value::k_uint)
                {
                    if(r.chance(1, 4)) s.sign = r.pick({U'+', U' ', U'-'});
                    if(r.chance(1, 5)) s.alt = true;
                    if(r.chance(1, 5)) s.zero = true;
                }
                if(r.coin())
                {
                    s.has_width = true;
                    s.width = static_cast<std::size_t>(r.range(1, 12));
                    if(r.coin()) dyn_ref(s.width_text, s.width, 1);
                }
                if(v->kind == value::k_str && r.coin())
                {
                    s.has_prec = true;
                    s.prec = r.below(6);
                    if(r.coin() && !dyn_ref(s.prec_text, s.prec, 1)) s.prec = r.below(6);
                }
                if(v->kind == value::k_int || v->kind == value::k_uint) s.type = r.pick({U'\0', U'd', U'x', U'X', U'b', U'o'});
                if(v->kind == value::k_str) s.type = r.pick({U'\0', U's'});
            }
            f += s.text();
        }
        fmt += f + U"}";
        if(!error) out += v->text(s);
    }
};

template <typename C>
struct pack
{
    px::dyn_t<C> args;
    std::deque<std::basic_string<C>> keep;
    void add(const value& v)
    {
        auto put = [&](auto x)
        {
            if(v.name.empty()) args.emplace(x);
            else
            {
                keep.push_back(ref::enc<C>(v.name));
                args.emplace(papilio::arg(std::basic_string_view<C>(keep.back()), x));
            }
        };
        switch(v.kind)
        {
        case value::k_int: put(v.i); break;
        case value::k_uint: put(v.u); break;
        case value::k_str: keep.push_back(ref::enc<C>(v.s)); put(std::basic_string_view<C>(keep.back())); break;
        case value::k_char: put(static_cast<C>(v.s[0])); break;
        case value::k_bool: put(v.i != 0); break;
        case value::k_float:
            if(args.indexed_size() % 3 == 0) put(static_cast<float>(v.d));
            else if(args.indexed_size() % 3 == 1) put(v.d);
            else put(static_cast<long double>(v.d));
            break;
        }
    }
};

inline std::string describe(const std::vector<value>& p, const std::vector<value>& n)
{
    std::string d;
    for(auto& v : p) d += " " + v.show() + ",";
    for(auto& v : n) d += " " + v.show() + ",";
    return d;
}
// The same string interpreted piece by piece, with or without the debugging information
template <typename C, bool Debug>
px::result<C> stepped(vh::Case& c, std::basic_string_view<C> f, const px::args_ref_t<C>& args)
{
    using context = px::ctx_t<C>;
    using interpreter = papilio::basic_interpreter<context, Debug>;
    std::basic_string<C> out;
    Rng& r = c.rng;
    c.count(Debug ? "stepped_debug" : "stepped");
    return px::capture<C>([&]
    {
        papilio::basic_format_parse_context<context> pc(f, args);
        context fc(papilio::format_iterator_for<C>(out), args);
        interpreter in;
        auto ic = in.create_context(pc, fc);
        try
        {
            std::size_t idle = 0;
            while(!ic.input_at_end() && idle < 100)
            {
                std::size_t n = r.below(4), got = 0, left = n;
                auto before = ic.input();
                if(r.coin()) got = in.run_n(ic, n);
                else got = in.run_if(ic, [&] { return left-- > 0; });
                c.check(got == n || (got < n && ic.input_at_end()), "steps", [&] { return vh::cat("asked for ", n, " pieces, ", got, " were interpreted"); });
                c.check((got == 0) == (before == ic.input()), "steps-progress", [&] { return vh::cat(got, " pieces, but the position says otherwise"); });
                if(got == 0 && n != 0) ++idle;
            }
            if(idle) c.fail("steps-stuck", "no progress");
            if(r.coin()) in.run(ic);
        }
        catch(const typename interpreter::extended_error& e)
        {
            c.count("script_errors");
            c.check(e.error_code() != papilio::script_error_code::no_error, "error-code", "a script error says there was no error");
            c.check(papilio::to_string(e.error_code()) == e.what(), "error-text", [&] { return vh::cat("the code says ", papilio::to_string(e.error_code()), ", the text ", e.what()); });
            if constexpr(Debug)
            {
                papilio::utf::basic_string_ref<C> ref(f);
                bool found = e.get_iter() == ref.end();
                for(auto i = ref.begin(); i != ref.end() && !found; ++i) found = e.get_iter() == i;
                c.check(found, "error-position", "the position of the error is outside of the format string");
            }
            throw;
        }
        return out;
    });
}
} // namespace gen
