#include "c11_run.hpp"
DRIVER(scan_string, on_string, c11::by_scanner<c11::ctl, false>(input, m))
