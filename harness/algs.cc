#include "vdom.hpp"
#include "../utils/utils.hpp"
#include "../search/main.hpp"

#define BOTH(T) template class T<VDomD>; template class T<VDomI>
BOTH(Idastar);
BOTH(Astar);
BOTH(Astar_dump);
BOTH(Wastar);
template class Greedy<VDomD>; template class Greedy<VDomI>;
template class Greedy<VDomD, true>; template class Greedy<VDomI, true>;
BOTH(Bugsy);
BOTH(Bugsy_slim);
BOTH(Arastar);
BOTH(ArastarMon);
BOTH(ArastarNORA);
BOTH(Lsslrtastar2);
BOTH(Fhatlrtastar);
BOTH(Dtastar_dump);
BOTH(Dtastar);
BOTH(BeamSearch);

template struct Result<VDomD>;
// out-of-line uses of inline members the algorithms call
void useStatsAdd(SearchStats &a, SearchStats &b) { a.add(b); }
bool useReached(Limit &l, SearchStats &s) { return l.reached(s); }

template Result<VDomD> searchGet(SearchAlgorithm<VDomD>*(*)(int, const char *[]), VDomD&, int, const char*[]);
template Result<VDomI> searchGet(SearchAlgorithm<VDomI>*(*)(int, const char *[]), VDomI&, int, const char*[]);
template SearchAlgorithm<VDomD> *getsearch<VDomD>(int, const char*[]);
template SearchAlgorithm<VDomI> *getsearch<VDomI>(int, const char*[]);
