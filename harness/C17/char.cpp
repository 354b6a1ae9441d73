#include "c17.hpp"
VH_STREAM(dynamic_packs_char, 30000, 750000) { dynamic_case<char>(c); }
VH_STREAM(static_packs_char, 30000, 750000) { static_case<char>(c); }
