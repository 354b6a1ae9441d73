#include "c02.hpp"
namespace c02
{
template <> void run<wchar_t, 1>(Case& c, const scene& s) { run_impl<wchar_t, 1>(c, s); }
} // namespace c02
