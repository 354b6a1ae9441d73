#include "c22.hpp"
VH_STREAM(insensitive_u8, 8000, 200000) { c22::insensitive<char8_t>(c); }
VH_STREAM(handed_u8, 3000, 90000) { c22::handed<char8_t>(c); }
