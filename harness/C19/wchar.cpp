#include "c19.hpp"
namespace c19
{
template <> bool together_any<wchar_t>(Case& c, bool in_child) { return together<wchar_t>(c, in_child); }
} // namespace c19
