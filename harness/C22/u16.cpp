#include "c22.hpp"
VH_STREAM(insensitive_u16, 8000, 200000) { c22::insensitive<char16_t>(c); }
VH_STREAM(handed_u16, 3000, 90000) { c22::handed<char16_t>(c); }
