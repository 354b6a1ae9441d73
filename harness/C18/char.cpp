#include "c18.hpp"
template <>
c18::outcome c18::run<char>(const scene& s)
{
    return run_impl<char>(s);
}
