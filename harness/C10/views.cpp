#include "ops.hpp"

VH_STREAM(views, 60000, 3000000)
{
    px::with_char(static_cast<int>(c.rng.below(5)), [&](auto t)
    {
        using C = decltype(t);
        U32 v = text(c.rng, c.rng.chance(1, 8) ? 40 : 9);
        describe<C>(c, v, "string_ref");
        px::exact<C> e(ref::enc<C>(v));
        u::basic_string_ref<C> s(e.view());
        for(int k = 0; k < 5; ++k)
        {
            read_op<C>(c, s, v);
            c.count("view_ops");
        }
        c.nontrivial(cat(sizeof(C), show(v), c.index % 64));
        c.sample(cat(sizeof(C), "-byte view ", show(v)));
    });
}

