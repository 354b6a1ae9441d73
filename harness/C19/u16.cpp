#include "c19.hpp"
namespace c19
{
template <> bool together_any<char16_t>(Case& c, bool in_child) { return together<char16_t>(c, in_child); }
} // namespace c19
