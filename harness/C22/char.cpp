#include "c22.hpp"
#include <cstdlib>
#include <unistd.h>
namespace c22
{
system_locales sys;
system_locales::system_locales()
{
    char t[] = "/tmp/c22-XXXXXX";
    if(!::mkdtemp(t)) return;
    dir = t;
    for(const char* n : {"de_DE", "tr_TR"})
    {
        auto cmd = cat("localedef -c -i ", n, " -f UTF-8 ", dir, "/", n, ".UTF-8 >/dev/null 2>&1");
        (void)!std::system(cmd.c_str());
    }
    ::setenv("LOCPATH", dir.c_str(), 1);
    std::string before = std::setlocale(LC_ALL, nullptr);
    for(const char* n : {"de_DE.UTF-8", "tr_TR.UTF-8"})
    {
        if(std::setlocale(LC_ALL, n)) names.push_back(n);
        std::setlocale(LC_ALL, before.c_str());
    }
}
system_locales::~system_locales()
{
    std::error_code ec;
    if(!dir.empty()) std::filesystem::remove_all(dir, ec);
}
} // namespace c22
VH_STREAM(insensitive_char, 20000, 500000) { c22::insensitive<char>(c); }
VH_STREAM(flagged_char, 15000, 300000) { c22::flagged<char>(c); }
VH_STREAM(handed_char, 6000, 180000) { c22::handed<char>(c); }
