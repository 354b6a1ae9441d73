#include "c19.hpp"
namespace c19
{
template <> bool together_any<char>(Case& c, bool in_child) { return together<char>(c, in_child); }
} // namespace c19
