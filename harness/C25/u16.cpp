#include "c25.hpp"
VH_STREAM(parsed_u16, 120000, 6000000) { c25::parsed<char16_t>(c); }
VH_STREAM(written_u16, 80000, 4000000) { c25::written<char16_t>(c); }
VH_STREAM(delegated_u16, 120000, 6000000) { c25::delegated<char16_t>(c); }
VH_STREAM(asked_u16, 80000, 4000000) { c25::asked<char16_t>(c); }
