#include "c25.hpp"
VH_STREAM(parsed_wchar, 120000, 6000000) { c25::parsed<wchar_t>(c); }
VH_STREAM(written_wchar, 80000, 4000000) { c25::written<wchar_t>(c); }
VH_STREAM(delegated_wchar, 120000, 6000000) { c25::delegated<wchar_t>(c); }
VH_STREAM(asked_wchar, 80000, 4000000) { c25::asked<wchar_t>(c); }
