#include "c11_run.hpp"
DRIVER(ws_string_tree, on_string, c11::by_rule<c11::root_ws, 3>(input, begin, m))
