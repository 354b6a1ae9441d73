#include "c22.hpp"
VH_STREAM(insensitive_u32, 8000, 200000) { c22::insensitive<char32_t>(c); }
VH_STREAM(handed_u32, 3000, 90000) { c22::handed<char32_t>(c); }
