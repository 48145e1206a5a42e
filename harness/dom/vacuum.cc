#include "vacuum/vacuum.hpp"
typedef Vacuum Dom;
#include "fns.hpp"
