#include "c02.hpp"
namespace c02
{
template <> void run<char16_t, 1>(Case& c, const scene& s) { run_impl<char16_t, 1>(c, s); }
} // namespace c02
