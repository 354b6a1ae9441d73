#include "hist.hpp"
VH_STREAM(history_char, 60000, 1000000) { run_history<char>(c); }
