#include "c01.hpp"
namespace c01
{
template <> void run<char8_t>(Case& c, const scene& s) { run_impl<char8_t>(c, s); }
} // namespace c01
