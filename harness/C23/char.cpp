#include "c23.hpp"
VH_STREAM(values_char, 100000, 1500000) { c23::values<char>(c); }
VH_STREAM(joins_char, 10000, 150000) { c23::joins<char>(c); }
VH_STREAM(dresses_char, 10000, 150000) { c23::dresses<char>(c); }
VH_STREAM(kinds_char, 1000, 10000) { c23::kinds<char>(c); }
VH_STREAM(misfits_char, 500, 5000) { c23::misfits<char>(c); }
