#include "c18.hpp"
template <>
c18::outcome c18::run<char32_t>(const scene& s)
{
    return run_impl<char32_t>(s);
}
