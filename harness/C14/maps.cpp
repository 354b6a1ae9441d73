#include "fv.hpp"
VH_STREAM(maps, 30000, 4000000)
{
    switch(c.index % 7)
    {
    case 0: run_map<long long, long long, 6, std::less<>>(c, "long long to long long"); break;
    case 1: run_map<long long, std::string, 5, std::greater<long long>>(c, "long long to string, descending"); break;
    case 2: run_map<std::string, long long, 6, string_less>(c, "string to long long, transparent"); break;
    case 3: run_map<std::string, elem<0>, 4, std::less<>>(c, "string to elements"); break;
    case 4: run_map<long long, elem<0>, 5, by_last_digits>(c, "long long to elements, coarse keys"); break;
    case 5: run_map<elem<0>, elem<0>, 3, std::less<elem<0>>>(c, "elements to elements"); break;
    default: run_map<long long, long long, 0, std::less<>>(c, "long long to long long"); break;
    }
}
VH_STREAM(map_faults, 15000, 2000000)
{
    switch(c.index % 3)
    {
    case 0: run_map<long long, elem<0>, 5, std::less<>>(c, "long long to elements", true); break;
    case 1: run_map<std::string, elem<1>, 4, string_less>(c, "string to elements with throwing moves", true); break;
    default: run_map<long long, elem<2>, 1, std::less<>>(c, "long long to elements with throwing move assignment", true); break;
    }
}
