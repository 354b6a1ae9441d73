#include "fv.hpp"
VH_STREAM(vectors, 30000, 4000000)
{
    switch(c.index % 8)
    {
    case 0: run_vec<long long, 5>(c, "long long"); break;
    case 1: run_vec<std::string, 4>(c, "string"); break;
    case 2: run_vec<elem<0>, 6>(c, "elements"); break;
    case 3: run_vec<elem<0>, 1>(c, "elements"); break;
    case 4: run_vec<elem<0>, 0>(c, "elements"); break;
    case 5: run_vec<elem<0, 64>, 3>(c, "aligned elements"); break;
    case 6: run_vec<move_only, 4>(c, "move-only elements"); break;
    default: run_vec<elem<0>, 2>(c, "elements"); break;
    }
}
VH_STREAM(vector_faults, 15000, 2000000)
{
    switch(c.index % 4)
    {
    case 0: run_vec<elem<0>, 4>(c, "elements", true); break;
    case 1: run_vec<elem<1>, 4>(c, "elements with throwing moves", true); break;
    case 2: run_vec<elem<2>, 3>(c, "elements with throwing move assignment", true); break;
    default: run_vec<elem<1>, 1>(c, "elements with throwing moves", true); break;
    }
}
