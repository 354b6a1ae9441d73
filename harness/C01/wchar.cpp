#include "c01.hpp"
namespace c01
{
template <> void run<wchar_t>(Case& c, const scene& s) { run_impl<wchar_t>(c, s); }
} // namespace c01
