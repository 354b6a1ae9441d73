#include "c22.hpp"
VH_STREAM(insensitive_wchar, 8000, 200000) { c22::insensitive<wchar_t>(c); }
VH_STREAM(flagged_wchar, 6000, 150000) { c22::flagged<wchar_t>(c); }
VH_STREAM(handed_wchar, 6000, 180000) { c22::handed<wchar_t>(c); }
