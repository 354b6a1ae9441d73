#include "sv.hpp"
VH_STREAM(allocators, 24000, 600000)
{
    switch(c.index % 4)
    {
    case 0: with_ids<elem<0>, 2, false, false>(c, "elements, allocator that stays"); break;
    case 1: with_ids<elem<0>, 3, true, true>(c, "elements, allocator that moves"); break;
    case 2: with_ids<elem<1>, 2, true, false>(c, "elements, allocator that moves on move assignment"); break;
    default: with_ids<elem<0>, 1, false, true>(c, "elements, allocator that moves on swap"); break;
    }
}
