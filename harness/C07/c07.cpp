// C07: literal text, automatic / explicit / named fields, numbering, refusal of malformed strings
#include "gen.hpp"
using namespace vh;
using namespace gen;
using ref::Spec;
using ref::U32;

namespace
{
template <typename C>
void judge(Case& c, const px::result<C>& got, const model& m, const char* route, const std::string& args)
{
    if(m.error)
    {
        c.count("refused");
        c.check(!got.ok(), "not-refused", [&] { return cat(route, ": wrong argument selection accepted, printed ", got.show()); });
    }
    else
    {
        c.count("printed");
        auto w = ref::enc<C>(m.out);
        c.check(got.ok() && got.s == w, "text", [&] { return cat(route, ": got ", got.show(), " want ", show(std::basic_string_view<C>(w))); });
    }
    c.nontrivial(cat(show(m.fmt), args, sizeof(C), route));
}

void tally(Case& c, const model& m)
{
    c.count("automatic_fields", m.autos);
    c.count("explicit_fields", m.explicits);
    c.count("named_fields", m.names);
    c.count("dynamic_values", m.dyn);
    c.count("doubled_braces", m.escapes);
}
// the arguments of a pack, asked for one by one
template <typename C>
void lookup(Case& c, const px::args_ref_t<C>& args, const std::vector<value>& pos, const std::vector<value>& named)
{
    Rng& r = c.rng;
    using index_t = papilio::basic_indexing_value<C>;
    c.count("lookups");
    c.check(args.indexed_size() == pos.size() && args.named_size() == named.size(), "pack-size", [&] { return cat("sizes ", args.indexed_size(), " ", args.named_size()); });
    auto get = [&](auto&& f) -> const papilio::basic_format_arg<px::ctx_t<C>>*
    {
        try { return &f(); }
        catch(const std::exception&) { return nullptr; }
    };
    for(int k = 0; k < 3; ++k)
    {
        long long i = r.chance(1, 4) ? static_cast<long long>(r.next()) >> r.below(40) : r.range(-2, static_cast<long long>(pos.size()) + 2);
        bool there = i >= 0 && static_cast<unsigned long long>(i) < pos.size();
        index_t iv(static_cast<typename index_t::index_type>(i));
        auto* a = get([&]() -> auto& { return args.get(iv); });
        c.check((a != nullptr) == there && args.contains(iv) == there, "pack-index", [&] { return cat("index ", i, " of ", pos.size(), ": ", a != nullptr, args.contains(iv)); });
        if(i >= 0)
        {
            auto* b = get([&]() -> auto& { return args.get(static_cast<std::size_t>(i)); });
            c.check(b == a && args.contains(static_cast<std::size_t>(i)) == there, "pack-index", [&] { return cat("index ", i, " of ", pos.size()); });
        }
        if(a)
        {
            int at = -1;
            a->visit([&]<typename X>(const X& x)
            {
                if constexpr(std::is_same_v<X, papilio::utf::basic_string_container<C>>) at = pos[static_cast<std::size_t>(i)].kind == value::k_str && std::basic_string_view<C>(x) == ref::enc<C>(pos[static_cast<std::size_t>(i)].s);
            });
            c.check(at != 0, "pack-value", [&] { return cat("argument ", i, " is another one"); });
        }
        U32 n = named.empty() || r.coin() ? random_name(r) : r.pick(named).name;
        if(!n.empty() && r.chance(1, 4)) { if(r.coin()) n.pop_back(); else n += U'x'; }
        auto e = ref::enc<C>(n);
        auto it = std::find_if(named.begin(), named.end(), [&](auto& v) { return v.name == n; });
        bool known = it != named.end();
        px::exact<C> name(e);
        std::basic_string_view<C> sv = name.view();
        index_t nv{sv};
        papilio::basic_attribute_name<C> an{sv};
        const void* x[5] = {get([&]() -> auto& { return args.get(sv); }), get([&]() -> auto& { return args.get(e); }), get([&]() -> auto& { return args.get(e.c_str()); }), get([&]() -> auto& { return args.get(nv); }), get([&]() -> auto& { return args[nv]; })};
        bool y[4] = {args.contains(sv), args.contains(e), args.contains(e.c_str()), args.contains(nv)};
        for(auto* q : x) c.check((q != nullptr) == known && q == x[0], "pack-name", [&] { return cat("name ", show(n), " found: ", q != nullptr); });
        for(bool q : y) c.check(q == known, "pack-contains", [&] { return cat("name ", show(n), " contained: ", q); });
    }
    papilio::index_range rg(r.range(-3, 3), r.range(-3, 3));
    c.check(!get([&]() -> auto& { return args.get(index_t(rg)); }) && !args.contains(index_t(rg)), "pack-range", "a range selects an argument");
}
} // namespace

VH_STREAM(dynamic_pack, 40000, 1200000)
{
    px::with_char(static_cast<int>(c.rng.below(5)), [&](auto t)
    {
        using C = decltype(t);
        Rng& r = c.rng;
        std::vector<value> pos, named;
        std::size_t np = r.chance(1, 20) ? static_cast<std::size_t>(r.range(9, 40)) : r.below(6), nn = r.below(4);
        for(std::size_t i = 0; i < np; ++i) pos.push_back(random_value(r));
        for(std::size_t i = 0; i < nn; ++i)
        {
            value v = random_value(r);
            do v.name = random_name(r);
            while(std::any_of(named.begin(), named.end(), [&](auto& o) { return o.name == v.name; }));
            named.push_back(v);
        }
        bool wild = r.chance(1, 4);
        model m{r, pos, named, {}, {}};
        std::size_t nf = r.below(6);
        m.literal();
        for(std::size_t i = 0; i < nf && !m.error; ++i)
        {
            m.field(wild);
            m.literal();
        }
        pack<C> p;
        // named arguments interleaved with the positional ones: they do not take positions
        std::size_t ip = 0, in = 0;
        while(ip < pos.size() || in < named.size())
        {
            if(in >= named.size() || (ip < pos.size() && r.coin())) p.add(pos[ip++]);
            else p.add(named[in++]);
        }
        std::string args = describe(pos, named);
        c.desc(cat(sizeof(C), "-byte format ", show(m.fmt), " args", args));
        px::exact<C> f(ref::enc<C>(m.fmt));
        auto got = px::vformat<C>(f.view(), p.args);
        judge<C>(c, got, m, "dynamic", args);
        if(r.chance(1, 3))
        {
            bool debug = r.coin();
            judge<C>(c, debug ? stepped<C, true>(c, f.view(), p.args) : stepped<C, false>(c, f.view(), p.args), m, "stepped", args);
        }
        if(r.chance(1, 4)) lookup<C>(c, p.args, pos, named);
        tally(c, m);
        c.sample(cat(show(m.fmt), " with", args, " -> ", m.error ? std::string("refused") : show(m.out)));
    });
}

VH_STREAM(static_pack, 30000, 800000)
{
    px::with_char(static_cast<int>(c.rng.below(5)), [&](auto t)
    {
        using C = decltype(t);
        using namespace papilio;
        Rng& r = c.rng;
        std::vector<value> pos{random_value(r, value::k_int), random_value(r, value::k_str), random_value(r, value::k_uint), random_value(r, value::k_char)};
        std::vector<value> named{random_value(r, value::k_uint), random_value(r, value::k_str)};
        named[0].name = random_name(r);
        do named[1].name = random_name(r);
        while(named[1].name == named[0].name);
        bool wild = r.chance(1, 4);
        unsigned shape = static_cast<unsigned>(r.below(3));
        if(shape == 1) named.clear();
        if(shape == 2) pos.resize(1);
        model m{r, pos, named, {}, {}};
        std::size_t nf = r.below(6);
        m.literal();
        for(std::size_t i = 0; i < nf && !m.error; ++i)
        {
            m.field(wild);
            m.literal();
        }
        std::string args = describe(pos, named);
        c.desc(cat(sizeof(C), "-byte static pack, format ", show(m.fmt), " args", args));
        px::exact<C> f(ref::enc<C>(m.fmt));
        int i0 = 0;
        long long l0 = pos[0].i;
        static_cast<void>(i0);
        std::basic_string<C> s1, n0, n1, ns;
        if(shape != 2) s1 = ref::enc<C>(pos[1].s);
        if(!named.empty()) n0 = ref::enc<C>(named[0].name), n1 = ref::enc<C>(named[1].name), ns = ref::enc<C>(named[1].s);
        px::result<C> got;
        // names both before, between and after the positional arguments
        if(shape == 0)
        {
            auto nu = named[0].u;
            auto a0 = papilio::arg(std::basic_string_view<C>(n0), nu);
            auto a1 = papilio::arg(std::basic_string_view<C>(n1), ns);
            C ch = static_cast<C>(pos[3].s[0]);
            if(r.coin()) got = px::capture<C>([&] { return papilio::format(f.view(), a0, l0, s1, a1, pos[2].u, ch); });
            else got = px::capture<C>([&] { return papilio::format(f.view(), l0, s1, pos[2].u, ch, a1, a0); });
        }
        else if(shape == 1)
            got = px::capture<C>([&] { return papilio::format(f.view(), l0, s1, pos[2].u, static_cast<C>(pos[3].s[0])); });
        else
            got = px::capture<C>([&] { return papilio::format(f.view(), papilio::arg(std::basic_string_view<C>(n1), ns), l0, papilio::arg(std::basic_string_view<C>(n0), named[0].u)); });
        judge<C>(c, got, m, "static", args);
        tally(c, m);
    });
}

// Strings that are wrong in one definite place
VH_STREAM(malformed, 25000, 400000)
{
    px::with_char(static_cast<int>(c.rng.below(5)), [&](auto t)
    {
        using C = decltype(t);
        Rng& r = c.rng;
        std::vector<value> pos{random_value(r, value::k_int), random_value(r, value::k_str), random_value(r, value::k_uint)}, named{random_value(r, value::k_uint)};
        named[0].name = U"abc";
        U32 pre = px::any_text(r, 4), post = px::any_text(r, 4), bad;
        for(auto* s : {&pre, &post})
            for(auto& x : *s)
                if(x == U'{' || x == U'}') x = U'|';
        bool last = false; // the string must end here
        const char* kind = "";
        switch(r.below(13))
        {
        case 0: bad = U"}"; kind = "lone closing brace"; break;
        case 1: bad = U"{"; last = true; kind = "lone opening brace"; break;
        case 2: bad = r.pick({U32(U"{0"), U32(U"{abc"), U32(U"{0:"), U32(U"{0:d"), U32(U"{0:5"), U32(U"{:"), U32(U"{1:.3"), U32(U"{1:s"), U32(U"{0:{2"), U32(U"{0:*<"), U32(U"{0:{"), U32(U"{1:.{2")}); last = true; kind = "unterminated field"; break;
        case 3: bad = r.pick({U32(U"{0!}"), U32(U"{0 x}"), U32(U"{ 0}"), U32(U"{-1}"), U32(U"{0d}"), U32(U"{+}"), U32(U"{0,}"), U32(U"{*}"), U32(U"{abc!}"), U32(U"{abc-d}"), U32(U"{0{}}"), U32(U"{'0'}"), U32(U"{#}"), U32(U"{0>5}"), U32(U"{=}"), U32(U"{0;d}")}); kind = "junk in the argument id"; break;
        case 4: bad = U"{" + ref::ascii(std::to_string(3 + r.below(1000))) + U"}"; kind = "index out of range"; break;
        case 5:
        {
            static const char* big[] = {"2147483647", "2147483648", "4294967295", "4294967296", "4294967297", "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616", "18446744073709551617", "36893488147419103232", "100000000000000000000000", "340282366920938463463374607431768211456"};
            U32 b = ref::ascii(r.pick(big));
            bad = r.coin() ? U"{" + b + U"}" : U"{0:{" + b + U"}}";
            kind = "huge index";
            break;
        }
        case 6: bad = r.pick({U32(U"{ab}"), U32(U"{abcd}"), U32(U"{ABC}"), U32(U"{_}"), U32(U"{abc1}"), U32(U"{0:{ab}}"), U32(U"{1:.{abcd}}"), U32(U"{文}"), U32(U"{Abc}")}); kind = "unknown name"; break;
        case 7: bad = r.coin() ? U32(U"{0}{}") : U32(U"{1:{2}}{:5}"); kind = "automatic after explicit"; break;
        case 8: bad = r.pick({U32(U"{0:{}}"), U32(U"{1:.{}}"), U32(U"{1:{2}.{}}")}); kind = "automatic value in an explicit field"; break;
        case 9: bad = U"{}{}{}{}"; kind = "too many automatic fields"; break;
        case 10: bad = r.pick({U32(U"{0:{1}}"), U32(U"{1:.{1}}"), U32(U"{:{}}"), U32(U"{0:.{1}}")}); kind = "width or precision that is not an integer"; break;
        case 11: bad = r.pick({U32(U"{0:5 }"), U32(U"{0: 5 d}"), U32(U"{0:d5}"), U32(U"{0:<<<}"), U32(U"{0:+-}"), U32(U"{0:##}"), U32(U"{0:q}"), U32(U"{1:d}"), U32(U"{0:dx}"), U32(U"{0:5L5}"), U32(U"{1:5.}"), U32(U"{0:}x}"), U32(U"{0:{{}}")}); kind = "junk in the specification"; break;
        default: bad = r.pick({U32(U"{0:d}}"), U32(U"}{0}"), U32(U"{0}}"), U32(U"{{0}"), U32(U"{{}"), U32(U"}}}"), U32(U"{{}}}")}); kind = "unbalanced braces";
            break;
        }
        if(!last)
            for(auto& x : post) if(x == U'}') x = U'|';
        U32 f = pre + bad + (last ? U32() : post);
        pack<C> p;
        p.add(pos[0]);
        p.add(pos[1]);
        p.add(named[0]);
        p.add(pos[2]);
        std::string args = describe(pos, named);
        c.desc(cat(sizeof(C), "-byte format ", show(f), " (", kind, ") args", args));
        px::exact<C> fe(ref::enc<C>(f));
        auto got = px::vformat<C>(fe.view(), p.args);
        c.count("malformed");
        c.count(kind);
        c.check(!got.ok(), "malformed-accepted", [&] { return cat(kind, " accepted, printed ", got.show()); });
        if(r.chance(1, 2))
        {
            auto again = stepped<C, true>(c, fe.view(), p.args);
            c.check(!again.ok() && again.err == got.err && again.what == got.what, "malformed-accepted", [&] { return cat(kind, " in steps: ", again.show(), ", at once: ", got.show()); });
        }
        c.nontrivial(cat(show(f), args, sizeof(C)));
    });
}
