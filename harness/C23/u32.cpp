#include "c23.hpp"
VH_STREAM(values_u32, 30000, 450000) { c23::values<char32_t>(c); }
VH_STREAM(joins_u32, 10000, 150000) { c23::joins<char32_t>(c); }
VH_STREAM(dresses_u32, 10000, 150000) { c23::dresses<char32_t>(c); }
VH_STREAM(kinds_u32, 1000, 10000) { c23::kinds<char32_t>(c); }
VH_STREAM(misfits_u32, 500, 5000) { c23::misfits<char32_t>(c); }
