#include "c24.hpp"
VH_STREAM(written_wchar, 40000, 4000000) { c24::written<wchar_t>(c); }
VH_STREAM(read_wchar, 40000, 4000000) { c24::read<wchar_t>(c); }
VH_STREAM(joined_wchar, 30000, 3000000) { c24::joined<wchar_t>(c); }
