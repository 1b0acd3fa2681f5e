#include "c11_run.hpp"
DRIVER(ws_custom_validate, on_custom, c11::by_rule<c11::root_ws, 0>(input, begin, m))
