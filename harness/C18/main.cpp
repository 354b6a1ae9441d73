#include "c18.hpp"
namespace c18
{
template <> outcome run<char>(const scene&);
template <> outcome run<wchar_t>(const scene&);
template <> outcome run<char8_t>(const scene&);
template <> outcome run<char16_t>(const scene&);
template <> outcome run<char32_t>(const scene&);
} // namespace c18

// a conversion the C library does not define
static bool odd_conversion(const U32& f)
{
    for(std::size_t i = 0; i < f.size(); ++i)
        if(f[i] == U'%' && (i + 1 == f.size() || U32(U"%YmdAHM").find(f[++i]) == U32::npos)) return true;
    return false;
}

VH_STREAM(five_types, 250000, 8000000)
{
    using namespace c18;
    Rng& r = c.rng;
    scene s;
    s.seed = r.next();
    wild::pack<px::ctx_t<char32_t>> p;
    Rng copy(s.seed);
    p.fill(copy);
    do s.fmt = wild::format_string(r, p.sh);
    while(wild::digits(s.fmt) > 3 || s.fmt.find(U"size") != U32::npos || odd_conversion(s.fmt));
    // without facets for the locale flag the other three types have nothing to take the names from
    bool flag = s.fmt.find(U'L') != U32::npos;
    c.desc(cat("format ", show(s.fmt), " with", p.desc, " seed ", s.seed));
    outcome o[5] = {run<char>(s), run<wchar_t>(s)};
    int n = 2;
    if(!flag)
    {
        o[2] = run<char8_t>(s);
        o[3] = run<char16_t>(s);
        o[4] = run<char32_t>(s);
        n = 5;
    }
    for(int i = 0; i < n; ++i)
    {
        bool ok = o[i].err == px::err_kind::none;
        c.check(!ok || o[i].text.has_value(), "malformed-output", [&] { return cat(px::char_name(i), ": ", o[i].raw); });
        c.check(o[i].err == o[0].err, "fails-differently", [&] { return cat(px::char_name(0), ": ", o[0].raw, " but ", px::char_name(i), ": ", o[i].raw); });
        c.check(o[i].text == o[0].text, "text-differs", [&] { return cat(px::char_name(0), ": ", o[0].raw, " but ", px::char_name(i), ": ", o[i].raw); });
    }
    c.count(o[0].err == px::err_kind::none ? "printed" : o[0].err == px::err_kind::format_error ? "refused" : "other_exception");
    c.count("comparisons", static_cast<std::uint64_t>(n));
    if(s.fmt.find(U'$') != U32::npos && o[0].text) c.count("scripts_printed");
    if(s.fmt.find(U'[') != U32::npos && o[0].text) c.count("indexes_printed");
    c.nontrivial(cat(show(s.fmt), p.desc, s.seed));
    c.sample(cat(show(s.fmt), " with", p.desc, " -> ", o[0].raw));
}
