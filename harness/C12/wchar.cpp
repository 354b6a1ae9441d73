#include "hist.hpp"
VH_STREAM(history_wchar, 60000, 1000000) { run_history<wchar_t>(c); }
