#include "visnav/visnav.hpp"
typedef VisNav Dom;
#include "fns.hpp"
