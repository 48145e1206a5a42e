#include "plat2d/plat2d.hpp"
typedef Plat2d Dom;
#include "fns.hpp"
