#include "c02.hpp"
namespace c02
{
template <> void run<char, 0>(Case&, const scene&);
template <> void run<char, 1>(Case&, const scene&);
template <> void run<wchar_t, 0>(Case&, const scene&);
template <> void run<wchar_t, 1>(Case&, const scene&);
template <> void run<char8_t, 0>(Case&, const scene&);
template <> void run<char8_t, 1>(Case&, const scene&);
template <> void run<char16_t, 0>(Case&, const scene&);
template <> void run<char16_t, 1>(Case&, const scene&);
template <> void run<char32_t, 0>(Case&, const scene&);
template <> void run<char32_t, 1>(Case&, const scene&);
} // namespace c02

VH_STREAM(every_way, 200000, 8000000)
{
    using namespace c02;
    Rng& r = c.rng;
    scene s;
    s.shape = static_cast<int>(r.below(shapes));
    s.seed = r.next();
    s.how = r.next();
    int k = static_cast<int>(r.below(5));
    with_values<char32_t, 2>(s.shape, s.seed, [&](const wild::shape& sh, const auto&...)
    {
        do s.fmt = wild::format_string(r, sh);
        while(wild::digits(s.fmt) > 3 || (k > 1 && s.fmt.find(U'L') != U32::npos));
    });
    c.desc(cat("format ", show(s.fmt), " shape ", s.shape, " seed ", s.seed, " in ", px::char_name(k)));
    px::with_char(k, [&](auto ch) 
    {
        if(s.shape < 5) run<decltype(ch), 0>(c, s);
        else run<decltype(ch), 1>(c, s);
    });
    c.nontrivial(cat(show(s.fmt), s.shape, s.seed));
}
