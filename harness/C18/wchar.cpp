#include "c18.hpp"
template <>
c18::outcome c18::run<wchar_t>(const scene& s)
{
    return run_impl<wchar_t>(s);
}
