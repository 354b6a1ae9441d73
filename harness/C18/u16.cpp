#include "c18.hpp"
template <>
c18::outcome c18::run<char16_t>(const scene& s)
{
    return run_impl<char16_t>(s);
}
