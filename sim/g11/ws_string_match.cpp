#include "c11_run.hpp"
DRIVER(ws_string_match, on_string, c11::by_rule<c11::root_ws, 2>(input, begin, m))
