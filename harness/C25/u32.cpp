#include "c25.hpp"
VH_STREAM(parsed_u32, 120000, 6000000) { c25::parsed<char32_t>(c); }
VH_STREAM(written_u32, 80000, 4000000) { c25::written<char32_t>(c); }
VH_STREAM(delegated_u32, 120000, 6000000) { c25::delegated<char32_t>(c); }
VH_STREAM(asked_u32, 80000, 4000000) { c25::asked<char32_t>(c); }
