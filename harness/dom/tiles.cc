#include "tiles/mdist.hpp"
typedef TilesMdist Dom;
#include "fns.hpp"
