#include "hist.hpp"
VH_STREAM(history_char16, 60000, 1000000) { run_history<char16_t>(c); }
