#include "c20.hpp"
namespace c20
{
template <> void formatting<char>(Case& c);
template <> void formatting<wchar_t>(Case& c);
template <> void formatting<char8_t>(Case& c);
template <> void formatting<char16_t>(Case& c);
template <> void library<char>(Case& c);
template <> void library<wchar_t>(Case& c);
template <> void library<char8_t>(Case& c);
template <> void library<char16_t>(Case& c);
template <> void packs<char>(Case& c);
template <> void packs<wchar_t>(Case& c);
template <> void packs<char8_t>(Case& c);
template <> void packs<char16_t>(Case& c);
template <> void user<char>(Case& c);
template <> void user<wchar_t>(Case& c);
template <> void user<char8_t>(Case& c);
template <> void user<char16_t>(Case& c);
template <> void strings<char>(Case& c);
template <> void strings<wchar_t>(Case& c);
template <> void strings<char8_t>(Case& c);
template <> void strings<char16_t>(Case& c);
#define ANY(what)                                     \
    static void any_##what(Case& c)                   \
    {                                                 \
        switch(c.rng.below(5))                        \
        {                                             \
        case 0: return what<wchar_t>(c);              \
        case 1: return what<char8_t>(c);              \
        case 2: return what<char16_t>(c);             \
        default: return what<char>(c);                \
        }                                             \
    }
ANY(formatting)
ANY(library)
ANY(packs)
ANY(user)
ANY(strings)

// Prints that fail print nothing
static void printing(Case& c)
{
    Rng& r = c.rng;
    std::string text(r.below(300), 'p');
    std::vector<fragile> list{fragile{11}, fragile{22}};
    std::ostringstream os;
    char* buf = nullptr;
    std::size_t size = 0;
    std::FILE* file = open_memstream(&buf, &size);
    std::string expect_os, expect_file;
    const auto normal = cat(text, " [<11, <22]\n");
    for(int i = static_cast<int>(r.range(1, 5)); i > 0; --i)
    {
        bool to_file = r.coin();
        auto go = [&]
        {
            if(to_file) papilio::println(file, "{} {}", text, list);
            else papilio::println(os, "{} {}", text, list);
        };
        bool threw = false;
        long long k = static_cast<long long>(r.below(9));
        if(r.chance(1, 3)) go();
        else if(r.coin())
        {
            fragile::arm = k;
            try { go(); }
            catch(const boom&) { threw = true; }
            fragile::arm = -1;
            c.count("failed_user_calls", threw);
        }
        else
        {
            // streams of the harness may need memory themselves: only failures of formatting are of interest
            std::uint64_t n = allocations([&] { (void)papilio::format("{} {}", text, list); });
            if(n == 0) go();
            else
            {
                threw = with_failure(1 + r.below(n), go).bad_alloc;
                c.count("failed_allocations", threw);
            }
        }
        if(!threw) (to_file ? expect_file : expect_os) += normal;
    }
    std::fflush(file);
    c.check(std::string_view(buf, size) == expect_file, "file-differs", [&] { return cat(show(std::string_view(buf, size)), " not ", show(expect_file)); });
    c.check(os.good() && os.str() == expect_os, "stream-differs", [&] { return cat(show(os.str()), " not ", show(expect_os)); });
    std::fclose(file);
    std::free(buf);
    c.count("prints_checked");
    c.nontrivial(cat("print", c.index, text.size()));
}
} // namespace c20

VH_STREAM(formatting, 24000, 800000) { c20::any_formatting(c); }
VH_STREAM(library, 12000, 400000) { c20::any_library(c); }
VH_STREAM(packs, 4000, 100000) { c20::any_packs(c); }
VH_STREAM(user_code, 12000, 400000) { c20::any_user(c); }
VH_STREAM(strings, 16000, 400000) { c20::any_strings(c); }
VH_STREAM(printing, 8000, 200000) { c20::printing(c); }
