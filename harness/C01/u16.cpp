#include "c01.hpp"
namespace c01
{
template <> void run<char16_t>(Case& c, const scene& s) { run_impl<char16_t>(c, s); }
} // namespace c01
