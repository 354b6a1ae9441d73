#include "hist.hpp"
VH_STREAM(history_char8, 60000, 1000000) { run_history<char8_t>(c); }
