#include "sv.hpp"
VH_STREAM(faults, 32000, 800000)
{
    switch(c.index % 4)
    {
    case 0: with_ids<elem<0>, 2, false, false>(c, "elements", true); break;
    case 1: with_ids<elem<1>, 3, true, true>(c, "elements with throwing moves", true); break;
    case 2: with_ids<elem<2>, 1, true, false>(c, "elements with throwing move assignment", true); break;
    default: with_ids<elem<1>, 0, false, true>(c, "elements with throwing moves, no inline capacity", true); break;
    }
}
