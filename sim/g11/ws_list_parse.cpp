#include "c11_run.hpp"
DRIVER(ws_list_parse, on_list, c11::by_rule<c11::root_ws, 1>(input, begin, m))
