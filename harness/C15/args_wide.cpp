#include "args.hpp"
VH_STREAM(arguments_wide, 6000, 800000)
{
    if(c.index % 2) c15::histories<char16_t>(c);
    else c15::histories<char32_t>(c);
}
VH_STREAM(packs_wide, 3000, 300000)
{
    if(c.index % 2) c15::packs<char8_t>(c);
    else c15::packs<wchar_t>(c);
}
