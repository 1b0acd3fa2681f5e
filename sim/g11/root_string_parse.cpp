#include "c11_run.hpp"
DRIVER(root_string_parse, on_string, c11::by_rule<c11::root, 1>(input, begin, m))
