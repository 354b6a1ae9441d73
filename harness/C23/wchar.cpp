#include "c23.hpp"
VH_STREAM(values_wchar, 30000, 450000) { c23::values<wchar_t>(c); }
VH_STREAM(joins_wchar, 10000, 150000) { c23::joins<wchar_t>(c); }
VH_STREAM(dresses_wchar, 10000, 150000) { c23::dresses<wchar_t>(c); }
VH_STREAM(kinds_wchar, 1000, 10000) { c23::kinds<wchar_t>(c); }
VH_STREAM(misfits_wchar, 500, 5000) { c23::misfits<wchar_t>(c); }
