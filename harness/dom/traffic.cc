#include "traffic/traffic.hpp"
typedef Traffic Dom;
#include "fns.hpp"
