#include "pancake/pancake.hpp"
typedef Pancake Dom;
#include "fns.hpp"
