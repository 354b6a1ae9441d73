#include "c24.hpp"
VH_STREAM(written_char, 40000, 4000000) { c24::written<char>(c); }
VH_STREAM(read_char, 40000, 4000000) { c24::read<char>(c); }
VH_STREAM(joined_char, 30000, 3000000) { c24::joined<char>(c); }
