#include "c23.hpp"
VH_STREAM(values_u16, 30000, 450000) { c23::values<char16_t>(c); }
VH_STREAM(joins_u16, 10000, 150000) { c23::joins<char16_t>(c); }
VH_STREAM(dresses_u16, 10000, 150000) { c23::dresses<char16_t>(c); }
VH_STREAM(kinds_u16, 1000, 10000) { c23::kinds<char16_t>(c); }
VH_STREAM(misfits_u16, 500, 5000) { c23::misfits<char16_t>(c); }
