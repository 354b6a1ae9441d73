#include "access.hpp"
VH_STREAM(access_char, 140000, 800000) { access_case<char>(c); }
