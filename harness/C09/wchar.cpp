#include "access.hpp"
VH_STREAM(access_wchar, 140000, 800000) { access_case<wchar_t>(c); }
