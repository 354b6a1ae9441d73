#include "access.hpp"
VH_STREAM(access_u16, 140000, 800000) { access_case<char16_t>(c); }
