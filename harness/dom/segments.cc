#include "segments/segments.hpp"
typedef Segments Dom;
#include "fns.hpp"
