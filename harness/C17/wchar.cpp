#include "c17.hpp"
VH_STREAM(dynamic_packs_wchar, 24000, 600000) { dynamic_case<wchar_t>(c); }
VH_STREAM(static_packs_wchar, 24000, 600000) { static_case<wchar_t>(c); }
