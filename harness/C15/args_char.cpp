#include "args.hpp"
VH_STREAM(arguments, 9000, 1200000) { c15::histories<char>(c); }
VH_STREAM(packs, 4000, 400000) { c15::packs<char>(c); }
