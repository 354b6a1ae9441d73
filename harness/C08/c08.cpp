// C08: script fields
#include "gen.hpp"
#include <cmath>
#include <cstring>
#include <cstdio>
using namespace vh;
using namespace gen;

namespace
{
struct operand
{
    enum { num, flt, str } k = num;
    __int128 i = 0;
    double d = 0;
    U32 s;
    bool truth() const { return k == num ? i != 0 : k == flt ? d != 0 : !s.empty(); }
};

enum op_t { o_eq, o_ne, o_gt, o_lt, o_ge, o_le };
const char32_t* const op_text[] = {U"==", U"!=", U">", U"<", U">=", U"<="};

bool apply(op_t op, const operand& a, const operand& b)
{
    int rel; // -1 0 1, 2: unordered
    if((a.k == operand::str) != (b.k == operand::str)) rel = 2;
    else if(a.k == operand::str) rel = a.s < b.s ? -1 : a.s == b.s ? 0 : 1;
    else if(a.k == operand::num && b.k == operand::num) rel = a.i < b.i ? -1 : a.i == b.i ? 0 : 1;
    else
    {
        long double x = a.k == operand::num ? static_cast<long double>(a.i) : a.d, y = b.k == operand::num ? static_cast<long double>(b.i) : b.d;
        rel = x < y ? -1 : x == y ? 0 : 1;
    }
    switch(op)
    {
    case o_eq: return rel == 0;
    case o_ne: return rel != 0;
    case o_gt: return rel == 1;
    case o_lt: return rel == -1;
    case o_ge: return rel == 0 || rel == 1;
    default: return rel == 0 || rel == -1;
    }
}

struct script_gen
{
    model& m;
    Rng& r;
    bool big; // a huge unsigned argument exists: keep the literals away from the largest integer
    std::size_t conds = 0, taken = 0, skipped_fields = 0, taken_fields = 0, strings = 0, escapes = 0, nothing = 0, op_count[6] = {}, negations = 0, mixed = 0;

    U32 ws(bool required = false)
    {
        U32 t;
        std::size_t n = r.chance(2, 3) ? 1 : r.below(3);
        for(std::size_t i = 0; i < n; ++i) t += r.chance(5, 6) ? U' ' : r.pick({U'\t', U'\n', U'\r', U'\v', U'\f'});
        if(required && t.empty()) t = U" ";
        return t;
    }
    // a string literal with content v
    U32 quote(const U32& v)
    {
        ++strings;
        U32 t = U"'";
        bool wild = r.chance(1, 3);
        for(char32_t c : v)
        {
            if((c == U'\n' || c == U'\t') && r.coin())
            {
                t += c == U'\n' ? U"\\n" : U"\\t";
                ++escapes;
                continue;
            }
            bool must = c == U'\'' || c == U'\\';
            bool may = wild && c != U'n' && c != U't' && r.chance(1, 4);
            if(must || may) t += U'\\', ++escapes;
            t += c;
        }
        return t + U"'";
    }
    U32 text(std::size_t n)
    {
        U32 v = px::any_text(r, n);
        for(auto& c : v)
            if(r.chance(1, 6)) c = r.pick({U'\'', U'\\', U'{', U'}', U':', U'?', U'$', U'!', U'[', U'.', U'\n', U'\t'});
        return v;
    }
    operand of(const value& v)
    {
        operand o;
        switch(v.kind)
        {
        case value::k_int:
        case value::k_bool: o.i = v.i; break;
        case value::k_uint: o.i = v.u; break;
        case value::k_str:
        case value::k_char: o.k = operand::str; o.s = v.s; break;
        default: o.k = operand::flt; o.d = v.d;
        }
        return o;
    }
    operand literal_like(const operand* like, U32& t)
    {
        operand o;
        unsigned kind = static_cast<unsigned>(r.below(3));
        if(like && r.chance(5, 6)) kind = like->k == operand::str ? 2 : static_cast<unsigned>(r.below(2));
        bool same = like && r.chance(1, 3);
        switch(kind)
        {
        case 0:
        {
            long long v = r.chance(1, 4) ? static_cast<long long>(r.next()) : r.range(-40, 40);
            if(r.chance(1, 12)) v = r.pick<long long>({INT64_MIN, INT64_MIN + 1, INT64_MAX, INT64_MAX - 1, 0x7fffffffll, -0x80000000ll, 0x80000000ll, 0xffffffffll});
            if(same && like->k == operand::num && like->i <= INT64_MAX) v = static_cast<long long>(like->i);
            if(same && like->k == operand::flt) v = static_cast<long long>(like->d);
            if(r.chance(1, 6) && like && like->k == operand::num && like->i < INT64_MAX - 1 && like->i > INT64_MIN + 1) v = static_cast<long long>(like->i) + r.range(-1, 1);
            if(big && v == INT64_MAX) v = 7;
            o.i = v;
            U32 d = ref::ascii(std::to_string(v));
            if(r.chance(1, 10)) d.insert(v < 0 ? 1u : 0u, U32(r.below(4) + 1, U'0'));
            t = d;
            break;
        }
        case 1:
        {
            o.k = operand::flt;
            long long e = r.range(-400, 400);
            if(same && like->k == operand::flt) e = static_cast<long long>(like->d * 8);
            if(same && like->k == operand::num && like->i > -1000 && like->i < 1000) e = static_cast<long long>(like->i) * 8;
            o.d = static_cast<double>(e) / 8;
            unsigned long long a = static_cast<unsigned long long>(e < 0 ? -e : e);
            static const char* frac[] = {"", "125", "25", "375", "5", "625", "75", "875"};
            std::string f = frac[a % 8];
            if(r.chance(1, 4)) f += std::string(r.below(4), '0');
            std::string w = std::to_string(a / 8);
            if(a / 8 == 0 && !f.empty() && r.coin()) w.clear();
            t = (e < 0 ? U"-" : U"") + ref::ascii(w + "." + f);
            break;
        }
        default:
            o.k = operand::str;
            o.s = text(3);
            if(same && like->k == operand::str)
            {
                o.s = like->s;
                if(r.coin() && !o.s.empty()) o.s[r.below(o.s.size())] = px::any_cp(r);
                else if(r.chance(1, 3)) o.s += px::any_cp(r);
                else if(r.chance(1, 3) && !o.s.empty()) o.s.pop_back();
            }
            t = quote(o.s);
        }
        return o;
    }
    operand arg(U32& t)
    {
        unsigned md = m.pick_mode(false);
        if((md != 2 && m.pos.empty()) || (md == 2 && m.named.empty())) return literal_like(nullptr, t);
        std::size_t i = m.pick_index(md, false);
        t = U"{";
        const value* v = m.id(t, md, i);
        t += U"}";
        return of(*v);
    }
    operand any(const operand* like, U32& t)
    {
        return r.chance(3, 5) ? arg(t) : literal_like(like, t);
    }
    bool condition(U32& f)
    {
        ++conds;
        U32 t;
        switch(r.below(6))
        {
        case 0:
        {
            operand o = any(nullptr, t);
            f += ws() + t + ws();
            f += U"?";
            return o.truth();
        }
        case 1:
        {
            ++negations;
            operand o = any(nullptr, t);
            f += ws() + U"!" + ws() + t + ws() + U"?";
            return !o.truth();
        }
        default:
        {
            operand a = any(nullptr, t);
            f += ws() + t;
            op_t op = static_cast<op_t>(r.below(6));
            ++op_count[op];
            f += ws() + op_text[op];
            operand b = any(&a, t);
            f += ws() + t + ws() + U"?";
            if((a.k == operand::str) != (b.k == operand::str)) ++mixed;
            return apply(op, a, b);
        }
        }
    }
    void branch(bool take)
    {
        U32 keep = m.out;
        m.fmt += ws();
        if(r.coin())
        {
            U32 v = text(5);
            m.fmt += quote(v);
            m.out += v;
        }
        else
        {
            std::size_t before = m.fmt.size();
            m.field(false);
            if(m.fmt.size() == before) m.fmt += U"''";
            else if(take) ++taken_fields;
            else ++skipped_fields;
        }
        if(!take) m.out = keep;
        else ++taken;
        m.fmt += ws();
    }
    void script()
    {
        m.fmt += U"{$";
        bool done = false;
        std::size_t n = 1 + (r.coin() ? 0 : r.below(4));
        for(std::size_t i = 0; i < n; ++i)
        {
            if(i) m.fmt += U":" + ws() + U"$";
            bool c = condition(m.fmt);
            bool take = c && !done;
            branch(take);
            done |= c;
        }
        if(r.chance(2, 3))
        {
            m.fmt += U":";
            branch(!done);
            done = true;
        }
        if(!done) ++nothing;
        m.fmt += U"}";
    }
};
} // namespace

VH_STREAM(scripts, 70000, 2000000)
{
    px::with_char(static_cast<int>(c.rng.below(5)), [&](auto t)
    {
        using C = decltype(t);
        Rng& r = c.rng;
        std::vector<value> pos, named;
        std::size_t np = r.below(7), nn = r.below(3);
        bool big = false;
        auto make = [&]
        {
            value v = random_value(r, static_cast<int>(r.below(6)));
            if(v.kind == value::k_uint && v.u >= static_cast<unsigned long long>(INT64_MAX))
            {
                if(big) v.u = r.below(10);
                else big = true;
            }
            if(v.kind == value::k_int && v.i == INT64_MAX) v.i = 3;
            if(r.chance(1, 6)) { v.i = 0; v.u = 0; v.d = 0; if(v.kind == value::k_str) v.s.clear(); } // falsy
            return v;
        };
        for(std::size_t i = 0; i < np; ++i)
        {
            pos.push_back(make());
            // equal values are likely
            if(i && r.chance(1, 4) && !(pos[i - 1].kind == value::k_uint && pos[i - 1].u >= static_cast<unsigned long long>(INT64_MAX))) pos[i] = pos[i - 1];
        }
        for(std::size_t i = 0; i < nn; ++i)
        {
            value v = make();
            do v.name = random_name(r);
            while(std::any_of(named.begin(), named.end(), [&](auto& o) { return o.name == v.name; }));
            named.push_back(v);
        }
        model m{r, pos, named, {}, {}};
        script_gen g{m, r, big};
        std::size_t n = 1 + r.below(3);
        m.literal();
        for(std::size_t i = 0; i < n; ++i)
        {
            if(r.chance(1, 4)) m.field(false);
            g.script();
            m.literal();
        }
        if(r.coin()) m.field(false);
        pack<C> p;
        for(auto& v : pos) p.add(v);
        for(auto& v : named) p.add(v);
        std::string args = describe(pos, named);
        c.desc(cat(sizeof(C), "-byte format ", show(m.fmt), " args", args));
        if(m.error) { c.fail("harness", "generator produced an erroneous string"); return; }
        px::exact<C> f(ref::enc<C>(m.fmt));
        auto got = px::vformat<C>(f.view(), p.args);
        auto w = ref::enc<C>(m.out);
        c.check(got.ok() && got.s == w, "script", [&] { return cat("got ", got.show(), " want ", show(std::basic_string_view<C>(w))); });
        if(r.chance(1, 4))
        {
            auto again = r.coin() ? stepped<C, true>(c, f.view(), p.args) : stepped<C, false>(c, f.view(), p.args);
            c.check(again.ok() && again.s == w, "script", [&] { return cat("in steps: got ", again.show(), " want ", show(std::basic_string_view<C>(w))); });
        }
        c.nontrivial(cat(show(m.fmt), args, sizeof(C)));
        c.count("conditions", g.conds);
        c.count("taken_branches", g.taken);
        c.count("skipped_fields", g.skipped_fields);
        c.count("taken_fields", g.taken_fields);
        c.count("string_literals", g.strings);
        c.count("escapes", g.escapes);
        c.count("no_branch", g.nothing);
        c.count("negations", g.negations);
        c.count("string_against_number", g.mixed);
        static const char* on[] = {"op ==", "op !=", "op >", "op <", "op >=", "op <="};
        for(int i = 0; i < 6; ++i) c.count(on[i], g.op_count[i]);
        c.sample(cat(show(m.fmt), " with", args, " -> ", show(m.out)));
    });
}

// everything that can be asked of a variable
template <typename C>
void inspect(Case& c, const papilio::basic_variable<C>& x, const operand& a)
{
    using V = papilio::basic_variable<C>;
    using S = papilio::utf::basic_string_container<C>;
    int held = x.holds_bool() + x.holds_int() + x.holds_float() + x.holds_string();
    c.check(held == 1 && x.holds_string() == (a.k == operand::str) && x.holds_float() == (a.k == operand::flt), "variable-kind", "the variable holds something else");
    auto attempt = [&](auto&& f) -> int // 0: refused, 1: the right value, 2: a wrong one
    {
        try { return f() ? 1 : 2; }
        catch(const papilio::bad_variable_access&) { return 0; }
        catch(const papilio::invalid_conversion&) { return 0; }
        catch(...) { return 3; }
    };
    auto expect = [&](int got, bool possible, const char* what) { c.check(got == (possible ? 1 : 0), "variable-value", [&] { return cat(what, ": ", got == 0 ? "refused" : got == 1 ? "given" : got == 2 ? "wrong" : "wrong exception"); }); };
    auto w = ref::enc<C>(a.s);
    auto sv = std::basic_string_view<C>(w);
    bool number = a.k != operand::str;
    auto i = static_cast<typename V::int_type>(a.k == operand::flt ? std::isinf(a.d) ? 0 : static_cast<std::int64_t>(a.d) : static_cast<std::int64_t>(a.i));
    auto f = a.k == operand::flt ? static_cast<float>(a.d) : static_cast<float>(static_cast<std::int64_t>(a.i));
    expect(attempt([&] { return x.template get<bool>() == a.truth(); }), x.holds_bool(), "get bool");
    expect(attempt([&] { return x.template get<typename V::int_type>() == i; }), x.holds_int(), "get int");
    expect(attempt([&] { return x.template get<float>() == f; }), x.holds_float(), "get float");
    expect(attempt([&] { return x.template get<S>() == sv; }), !number, "get string");
    c.check((x.template get_if<bool>() != nullptr) == x.holds_bool() && (x.template get_if<float>() != nullptr) == x.holds_float() && (x.template get_if<S>() != nullptr) == x.holds_string(), "variable-kind", "get_if() disagrees");
    if(!(a.k == operand::flt && std::isinf(a.d)))
    {
        expect(attempt([&] { return x.template as<typename V::int_type>() == i; }), number, "as int");
        if(i >= -1000 && i <= 1000) expect(attempt([&] { return x.template as<short>() == i; }), number, "as short");
    }
    expect(attempt([&] { return x.template as<float>() == f; }), number, "as float");
    expect(attempt([&] { return x.template as<double>() == static_cast<double>(f) || a.k == operand::num; }), number, "as double");
    expect(attempt([&] { return x.template as<std::basic_string<C>>() == w; }), !number, "as string");
    expect(attempt([&] { return x.template as<S>() == sv; }), !number, "as string container");
    expect(attempt([&] { return x.template as<std::basic_string_view<C>>() == sv; }), !number, "as string view");
    c.check(std::visit([&](auto& v) { if constexpr(std::is_same_v<std::decay_t<decltype(v)>, S>) return v == sv; else return static_cast<float>(v) == f; }, x.to_variant()), "variable-value", "the variant holds something else");
    c.check(x.has_ownership() || !number, "variable-ownership", "a number is borrowed");
    c.count("inspections");
}

// basic_variable directly: conversion, comparison and truth
VH_STREAM(variables, 20000, 400000)
{
    px::with_char(static_cast<int>(c.rng.below(5)), [&](auto t)
    {
        using C = decltype(t);
        using papilio::basic_variable;
        Rng& r = c.rng;
        auto make = [&](operand& o) -> basic_variable<C>
        {
            switch(r.below(5))
            {
            case 0: o.i = static_cast<std::int64_t>(r.coin() ? r.next() : static_cast<std::uint64_t>(r.range(-3, 3))); return basic_variable<C>(static_cast<std::int64_t>(o.i));
            case 1: { bool b = r.coin(); o.i = b; return basic_variable<C>(b); }
            case 2: { double d = static_cast<double>(r.range(-30, 30)) / 8; if(r.chance(1, 8)) d = r.coin() ? HUGE_VAL : -HUGE_VAL; o.k = operand::flt; o.d = d; return basic_variable<C>(d); }
            case 3: { int i = static_cast<int>(r.range(-3, 3)); o.i = i; return basic_variable<C>(i); }
            default:
                o.k = operand::str;
                o.s = px::any_text(r, 3);
                return basic_variable<C>(papilio::independent, ref::enc<C>(o.s));
            }
        };
        operand a, b;
        auto x = make(a), y = make(b);
        auto d = [](const operand& o) { return o.k == operand::str ? show(o.s) : o.k == operand::flt ? std::to_string(o.d) : std::to_string(static_cast<long long>(o.i)); };
        c.desc(cat(sizeof(C), "-byte variables ", d(a), " and ", d(b)));
        for(int i = 0; i < 6; ++i)
        {
            bool got = i == 0 ? x == y : i == 1 ? x != y : i == 2 ? x > y : i == 3 ? x < y : i == 4 ? x >= y : x <= y;
            c.check(got == apply(static_cast<op_t>(i), a, b), "variable-compare", [&] { return cat("operator ", i, " gives ", got); });
        }
        c.check(x.template as<bool>() == a.truth(), "variable-truth", "as<bool>() is wrong");
        inspect<C>(c, x, a);
        if(r.coin())
        {
            // copies, moves and assignments carry the value along
            auto copy = x;
            auto moved = std::move(copy);
            basic_variable<C> target = r.coin() ? y : basic_variable<C>(true);
            if(r.coin()) target = moved;
            else target = std::move(moved);
            inspect<C>(c, target, a);
            inspect<C>(c, x, a);
        }
        c.nontrivial(cat(d(a), "|", d(b), sizeof(C)));
    });
}

// Conditions over any floating-point number: truth, order, and equality away from the tolerance
VH_STREAM(floats, 20000, 500000)
{
    px::with_char(static_cast<int>(c.rng.below(5)), [&](auto t)
    {
        using C = decltype(t);
        Rng& r = c.rng;
        struct num { float f; std::string desc, text; bool lit; int type; double d; long long i; };
        auto literal = [&](double d)
        {
            char b[512];
            std::snprintf(b, sizeof b, "%.*f", static_cast<int>(r.below(60)), d);
            std::string s = b;
            if(s.find('.') == s.npos) s += ".";
            return s;
        };
        auto make = [&](const num* like)
        {
            num n{};
            n.type = static_cast<int>(r.below(5));
            if(n.type == 4)
            {
                n.i = r.coin() ? static_cast<long long>(r.next()) >> r.below(64) : r.range(-3, 3);
                if(n.i == INT64_MAX) n.i = 1;
                if(like && r.coin() && std::fabs(like->f) < 1e18f) n.i = static_cast<long long>(like->f);
                n.f = static_cast<float>(n.i);
                n.lit = r.coin();
                n.text = std::to_string(n.i);
                return n;
            }
            unsigned long long bits = r.next();
            float f;
            switch(r.below(8))
            {
            case 0: case 1: { std::uint32_t b = static_cast<std::uint32_t>(bits); std::memcpy(&f, &b, 4); break; }
            case 2: f = std::ldexp(static_cast<float>(bits & 0xffffff), static_cast<int>(r.range(-60, 10))); break;
            case 3: f = r.pick<float>({0.f, -0.f, 1e-45f, -1e-45f, 1.17549435e-38f, 1e-9f, 1e-7f, -1e-8f, 5.9e-8f, 1.1e-7f, 3.4e38f, -3.4e38f, HUGE_VALF, -HUGE_VALF, NAN, 0.1f, 0.3f, 1.0000001f, 0.99999994f, 16777216.f, 16777218.f}); break;
            case 4: f = static_cast<float>(r.range(-1000, 1000)) / 100; break;
            default:
                f = like ? like->f : static_cast<float>(r.range(-9, 9));
                for(std::size_t k = r.below(4); k > 0 && std::isfinite(f); --k) f = std::nextafter(f, r.coin() ? HUGE_VALF : -HUGE_VALF);
            }
            if(n.type == 3)
            {
                if(!std::isfinite(f)) f = 1e-9f;
                n.lit = true;
                n.text = literal(f);
                // no digits in front of the point or behind it
                f = std::strtof(n.text.c_str(), nullptr);
                if(std::isinf(f)) { f = 1; n.text = "1.0"; }
                if(static_cast<float>(std::strtod(n.text.c_str(), nullptr)) != f) { f = 0.5f; n.text = ".5"; } // rounded twice
            }
            n.f = f;
            n.d = f;
            // doubles that are not floats
            if(n.type == 1 && std::isfinite(f) && r.coin())
            {
                double d = std::nextafter(static_cast<double>(f), r.coin() ? 1e300 : -1e300);
                if(static_cast<float>(d) == f) n.d = d;
            }
            return n;
        };
        num v[2];
        v[0] = make(nullptr);
        v[1] = make(&v[0]);
        px::arg_builder<C> ab;
        std::string f = "{$ ";
        bool one = r.chance(1, 3), neg = one && r.coin();
        const char* const ops[] = {"==", "!=", ">", "<", ">=", "<="};
        int op = static_cast<int>(r.below(6));
        int index = 0;
        std::string desc;
        for(int k = 0; k < (one ? 1 : 2); ++k)
        {
            num& n = v[k];
            if(k) f += " ", f += ops[op], f += " ";
            else if(neg) f += "!";
            char b[64];
            if(n.lit) { f += n.text; continue; }
            f += "{" + std::to_string(index++) + "}";
            std::snprintf(b, sizeof b, "%a (%g)", n.type == 4 ? static_cast<double>(n.i) : n.d, n.type == 4 ? static_cast<double>(n.i) : n.d);
            switch(n.type)
            {
            case 0: ab.push(n.f, cat("float ", b)); break;
            case 1: ab.push(n.d, cat("double ", b)); break;
            case 2: ab.push(static_cast<long double>(n.d), cat("long double ", b)); break;
            default: ab.push(n.i, std::to_string(n.i));
            }
        }
        f += " ? 'yes' : 'no'}";
        float x = v[0].f, y = v[1].f;
        bool want, exact = v[0].type == 4 && v[1].type == 4;
        if(one)
        {
            want = v[0].type == 4 ? v[0].i != 0 : !(x == 0);
            if(neg) want = !want;
        }
        else
        {
            if(!exact && op < 2 && x != y && std::fabs(x - y) < 3e-7f) { c.count("within the tolerance"); return; }
            auto test = [op](auto a, auto b) { return op == 0 ? a == b : op == 1 ? a != b : op == 2 ? a > b : op == 3 ? a < b : op == 4 ? a >= b : a <= b; };
            want = exact ? test(v[0].i, v[1].i) : test(x, y);
        }
        c.desc(cat(sizeof(C), "-byte format ", f, " args", ab.desc));
        px::exact<C> fe(ref::enc<C>(ref::ascii(f)));
        auto got = px::vformat<C>(fe.view(), ab.args);
        auto w = ref::enc<C>(want ? U"yes" : U"no");
        c.check(got.ok() && got.s == w, "floats", [&] { return cat("got ", got.show(), " want ", want ? "yes" : "no"); });
        // the same with the values themselves
        using V = papilio::basic_variable<C>;
        V a = v[0].type == 4 ? V(static_cast<std::int64_t>(v[0].i)) : V(x), b = v[1].type == 4 ? V(static_cast<std::int64_t>(v[1].i)) : V(y);
        if(one) c.check(a.template as<bool>() == (v[0].type == 4 ? v[0].i != 0 : !(x == 0)), "float-truth", "as<bool>() is wrong");
        else
        {
            bool g = op == 0 ? a == b : op == 1 ? a != b : op == 2 ? a > b : op == 3 ? a < b : op == 4 ? a >= b : a <= b;
            c.check(g == want, "float-compare", [&] { return cat("operator ", ops[op], " gives ", g); });
        }
        c.count(one ? "truth" : ops[op]);
        if(std::isnan(x) || std::isnan(y)) c.count("not a number");
        c.nontrivial(cat(f, ab.desc, sizeof(C)));
    });
}

// Scripts with one definite mistake
VH_STREAM(malformed, 15000, 200000)
{
    px::with_char(static_cast<int>(c.rng.below(5)), [&](auto t)
    {
        using C = decltype(t);
        Rng& r = c.rng;
        static const U32 bad[] = {U"{$}", U"{$ }", U"{$ {0}}", U"{$ {0} ?}", U"{$ {0} ? }", U"{$ {0} = 1 ? 'x'}", U"{$ {0} ? 'x' : 'y' : 'z'}", U"{$ {0} ? 'x' : 'y' : $ {0} ? 'z'}",
            U"{$ {0} ? 'x' 'y'}", U"{$ {0} ? x}", U"{$ ! ? 'x'}", U"{$ {0:d} ? 'x'}", U"{$ {0} & 1 ? 'x'}", U"{$ {9} ? 'x'}", U"{$ {0} ! 1 ? 'x'}", U"{$ {0} == ? 'x'}", U"{$ == 1 ? 'x'}",
            U"{$ {0} == 1 == 1 ? 'x'}", U"{$ {0} ? 'x' : }", U"{$ {0} ? 'x' : $ }", U"{$ 99999999999999999999 ? 'x'}", U"{$ -99999999999999999999 ? 'x'}", U"{$ {0} ? {1:q}}", U"{$ {0} ? {7}}",
            U"{$ !{0} ? 'x' : {7}}", U"{$ !{0} == 1 ? 'x'}", U"{$ {nope} ? 'x'}", U"{$ {0} ? {nope}}", U"{$ {0} ? 5}", U"{$ {0}, ? 'x'}", U"{$ {0 ? 'x'}", U"{$ {0}} ? 'x'}", U"{$ . ? 'x'}",
            U"{$ {0} <> 1 ? 'x'}", U"{$ {0} => 1 ? 'x'}", U"{$ {0} === 1 ? 'x'}", U"{$ {2} ? 'x'}", U"{$ !{2} ? 'x'}", U"{$ {2} == 1 ? 'x'}", U"{$ {0} ? 'x' : $ {2} ? 'y'}", U"{$ {0}{1} ? 'x'}", U"{$ true ? 'x'}",
            U"{$ {0} ? {{}", U"{$ {0} ? 'x' {1}}", U"{$ {0} ? 'x'; 'y'}", U"{$$ {0} ? 'x'}", U"{$ $ {0} ? 'x'}", U"{$ ({0}) ? 'x'}", U"{$ \"a\" ? 'x'}", U"{$ 0x1 ? 'x'}", U"{$ +1 ? 'x'}", U"{$ 1e1 ? 'x'}", U"{$ 1.5.2 ? 'x'}", U"{$ --1 ? 'x'}"};
        static const U32 unfinished[] = {U"{$ {0}", U"{$ {0} ", U"{$ {0} ?", U"{$ {0} ? ", U"{$ {0} ? 'x", U"{$ {0} ? 'x'", U"{$ {0} ? 'x' ", U"{$ {0} ? 'x' :", U"{$ {0} ? 'x' : ", U"{$ {0} ? 'x' : 'y", U"{$ {0} ? 'x' : 'y'", U"{$ {0} ? 'x' : $", U"{$ {0} ? {1", U"{$ {0} ? {1}", U"{$ {0} ? {1:", U"{$ !", U"{$ ! ", U"{$ !{0", U"{$ {0} =", U"{$ {0} ==", U"{$ {0} >", U"{$ {0} >=", U"{$ {0} !", U"{$ 'abc", U"{$ 'abc\\", U"{$ 'a' == 'b", U"{$ 1", U"{$ 1.", U"{$ -", U"{$", U"{$ ", U"{$ {0} ? 'x\\", U"{$ {0} ? 'x\\'", U"{$ !{0} ? 'x", U"{$ !{0} ? 'x'", U"{$ !{0} ? 'x' :", U"{$ !{0} ? 'x' : {1", U"{$ !{0} ? 'x\\", U"{$ !{0} ? {1", U"{$ !{0} ? {1:", U"{$ !{0} ? {1:5"};
        bool cut = r.coin();
        U32 f = px::any_text(r, 3), post = px::any_text(r, 3);
        for(auto* s : {&f, &post})
            for(auto& x : *s) if(x == U'{' || x == U'}') x = U'|';
        f += cut ? r.pick(unfinished) : r.pick(bad) + post;
        px::arg_builder<C> ab;
        int i0 = static_cast<int>(r.range(1, 5));
        ab.push(i0, std::to_string(i0));
        ab.push(7, "7");
        ab.push(static_cast<const void*>(nullptr), "null pointer");
        c.desc(cat(sizeof(C), "-byte format ", show(f), " args", ab.desc));
        px::exact<C> fe(ref::enc<C>(f));
        auto got = px::vformat<C>(fe.view(), ab.args);
        c.count(cut ? "unfinished" : "malformed");
        c.check(!got.ok(), "malformed-accepted", [&] { return cat("accepted, printed ", got.show()); });
        if(r.coin())
        {
            auto again = stepped<C, true>(c, fe.view(), ab.args);
            c.check(!again.ok() && again.err == got.err && again.what == got.what, "malformed-accepted", [&] { return cat("in steps: ", again.show(), ", at once: ", got.show()); });
        }
        c.nontrivial(cat(show(f), sizeof(C)));
    });
}
