#include "sv.hpp"
VH_STREAM(lifetimes, 24000, 600000)
{
    switch(c.index % 4)
    {
    case 0: with_std<elem<0>, 4>(c, "elements"); break;
    case 1: with_std<elem<0>, 0>(c, "elements"); break;
    case 2: with_std<elem<1, 64>, 2>(c, "aligned elements"); break;
    default: with_std<move_only, 3>(c, "move-only elements"); break;
    }
}
