#include "c01.hpp"
namespace c01
{
template <> void run<char>(Case& c, const scene& s) { run_impl<char>(c, s); }
} // namespace c01
