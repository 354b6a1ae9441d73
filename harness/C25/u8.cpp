#include "c25.hpp"
VH_STREAM(parsed_u8, 120000, 6000000) { c25::parsed<char8_t>(c); }
VH_STREAM(written_u8, 80000, 4000000) { c25::written<char8_t>(c); }
VH_STREAM(delegated_u8, 120000, 6000000) { c25::delegated<char8_t>(c); }
VH_STREAM(asked_u8, 80000, 4000000) { c25::asked<char8_t>(c); }
