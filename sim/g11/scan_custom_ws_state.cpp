#include "c11_run.hpp"
DRIVER(scan_custom_ws_state, on_custom, c11::by_scanner<c11::ctl_ws, true>(input, m))
