#include "c11_run.hpp"
DRIVER(scan_list_ws, on_list, c11::by_scanner<c11::ctl_ws, false>(input, m))
