#include "c01.hpp"
namespace c01
{
template <> void run<char32_t>(Case& c, const scene& s) { run_impl<char32_t>(c, s); }
} // namespace c01
