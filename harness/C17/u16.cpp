#include "c17.hpp"
VH_STREAM(dynamic_packs_u16, 12000, 300000) { dynamic_case<char16_t>(c); }
VH_STREAM(static_packs_u16, 12000, 300000) { static_case<char16_t>(c); }
