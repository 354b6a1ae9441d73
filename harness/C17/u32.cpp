#include "c17.hpp"
VH_STREAM(dynamic_packs_u32, 12000, 300000) { dynamic_case<char32_t>(c); }
VH_STREAM(static_packs_u32, 12000, 300000) { static_case<char32_t>(c); }
