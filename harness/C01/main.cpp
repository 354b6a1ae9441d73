#include "c01.hpp"
namespace c01
{
template <> void run<char>(Case&, const scene&);
template <> void run<wchar_t>(Case&, const scene&);
template <> void run<char8_t>(Case&, const scene&);
template <> void run<char16_t>(Case&, const scene&);
template <> void run<char32_t>(Case&, const scene&);

static void go(Case& c, source from)
{
    wild::hostile = true;
    scene s{from, c.rng.next(), c.rng.next()};
    int k = static_cast<int>(c.rng.below(5));
    c.desc(px::char_name(k));
    px::with_char(k, [&](auto ch) { run<decltype(ch)>(c, s); });
}
} // namespace c01

VH_STREAM(grammar, 150000, 4000000) { c01::go(c, c01::s_grammar); }
VH_STREAM(soup, 120000, 4000000) { c01::go(c, c01::s_soup); }
VH_STREAM(specifications, 150000, 4000000) { c01::go(c, c01::s_spec); }
VH_STREAM(units, 60000, 4000000) { c01::go(c, c01::s_units); }
VH_STREAM(long_strings, 8000, 400000) { c01::go(c, c01::s_long); }
