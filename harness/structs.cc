// Containers over element operations that are only declared: every element
// type, priority and key is possible.
#include "vdom.hpp"
#include "../utils/utils.hpp"
#include "../search/search.hpp"
#include "../search/closedlist.hpp"
#include "../structs/binheap.hpp"
#include "../structs/htable.hpp"
#include "../structs/intpq.hpp"
#include "../structs/kdtree.hpp"

struct VElm { int unused; };

struct VHeapOps {
	static bool pred(VElm*, VElm*);
	static void setind(VElm*, int);
};
template class BinHeap<VHeapOps, VElm*>;

struct VOpenOps {
	static bool pred(VElm*, VElm*);
	static void setind(VElm*, int);
	static int getind(const VElm*);
	static int prio(VElm*);
	static int tieprio(VElm*);
};
template class OpenList<VOpenOps, VElm, double>;
template class OpenList<VOpenOps, VElm, int>;

struct VClosedOps {
	static VDomD::PackedState &key(VElm*);
	static ClosedEntry<VElm, VDomD> &closedentry(VElm*);
};
template struct ClosedList<VClosedOps, VElm, VDomD>;
VElm *useIter(ClosedList<VClosedOps, VElm, VDomD> &cl) {
	VElm *last = NULL;
	for (auto it = cl.begin(); it != cl.end(); ++it)
		last = *it;
	return last;
}

struct VKey {
	unsigned long v;
	bool operator==(const VKey&) const;
};
struct VHtabOps {
	static unsigned long hash(VKey);
	static VKey key(VElm*);
	static HtableEntry<VElm> &entry(VElm*);
};
template class Htable<VHtabOps, VKey, VElm>;

struct VPqOps {
	static IntpqEntry<VElm> &entry(VElm*);
};
template class Intpq<VPqOps, VElm>;

template class Kdtree<3, int>;

#include "../structs/djset.hpp"
#include "../utils/pool.hpp"

Djset *useDjset(Djset &a, Djset &b) {
	Djset c;
	a.clear();
	a.join(b);
	c.join(a);
	return b.find();
}

struct VObj {
	VObj();
	~VObj();
	VObj *a, *b;
};
template class Pool<VObj>;
