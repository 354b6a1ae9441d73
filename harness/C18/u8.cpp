#include "c18.hpp"
template <>
c18::outcome c18::run<char8_t>(const scene& s)
{
    return run_impl<char8_t>(s);
}
