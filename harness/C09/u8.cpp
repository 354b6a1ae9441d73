#include "access.hpp"
VH_STREAM(access_u8, 140000, 800000) { access_case<char8_t>(c); }
