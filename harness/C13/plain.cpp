#include "sv.hpp"
VH_STREAM(integers, 16000, 400000)
{
    switch(c.index % 4)
    {
    case 0: with_std<long long, 4>(c, "long long"); break;
    case 1: with_std<long long, 0>(c, "long long"); break;
    case 2: with_std<long long, 1>(c, "long long"); break;
    default: with_pmr<long long, 3>(c, "long long, pmr"); break;
    }
}
VH_STREAM(strings, 16000, 400000)
{
    if(c.index % 2) with_std<std::string, 3>(c, "string");
    else with_pmr<std::string, 2>(c, "string, pmr");
}
