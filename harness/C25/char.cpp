#include "c25.hpp"
VH_STREAM(parsed_char, 120000, 6000000) { c25::parsed<char>(c); }
VH_STREAM(written_char, 80000, 4000000) { c25::written<char>(c); }
VH_STREAM(delegated_char, 120000, 6000000) { c25::delegated<char>(c); }
VH_STREAM(asked_char, 80000, 4000000) { c25::asked<char>(c); }
