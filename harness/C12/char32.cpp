#include "hist.hpp"
VH_STREAM(history_char32, 60000, 1000000) { run_history<char32_t>(c); }
