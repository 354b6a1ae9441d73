#include "access.hpp"
VH_STREAM(access_u32, 140000, 800000) { access_case<char32_t>(c); }
