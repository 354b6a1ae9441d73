#include "c23.hpp"
VH_STREAM(values_u8, 30000, 450000) { c23::values<char8_t>(c); }
VH_STREAM(joins_u8, 10000, 150000) { c23::joins<char8_t>(c); }
VH_STREAM(dresses_u8, 10000, 150000) { c23::dresses<char8_t>(c); }
VH_STREAM(kinds_u8, 1000, 10000) { c23::kinds<char8_t>(c); }
VH_STREAM(misfits_u8, 500, 5000) { c23::misfits<char8_t>(c); }
