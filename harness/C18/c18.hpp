#pragma once
// C18: five character types, one meaning
#include "wild.hpp"
using namespace vh;
using ref::U32;

namespace c18
{
struct outcome
{
    px::err_kind err = px::err_kind::none;
    std::string what;
    std::optional<U32> text; // nothing: the output is malformed
    std::string raw;
};
struct scene
{
    std::uint64_t seed;
    U32 fmt;
};
template <typename C>
outcome run(const scene& s);
template <typename C>
outcome scene_args(std::uint64_t seed, std::size_t& pos, std::size_t& named, std::string& desc);

template <typename C>
outcome run_impl(const scene& s)
{
    Rng r(s.seed);
    wild::pack<px::ctx_t<C>> p;
    p.fill(r);
    px::exact<C> f(ref::enc<C>(s.fmt));
    auto got = px::vformat<C>(f.view(), p.args);
    outcome o;
    o.err = got.err;
    o.what = got.what;
    o.raw = got.show();
    if(got.ok()) o.text = ref::dec<C>(std::basic_string_view<C>(got.s));
    return o;
}
} // namespace c18
