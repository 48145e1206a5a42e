#include "gridnav/gridnav.hpp"
typedef GridNav Dom;
#include "fns.hpp"

// where a cell is stored
unsigned int dom_index(const GridMap &m, unsigned int x, unsigned int y) {
	return m.index(x, y);
}
