#include "c11_run.hpp"
DRIVER(root_custom_tree, on_custom, c11::by_rule<c11::root, 3>(input, begin, m))
