From b46e3af7138960aa08f174421c890a6d614a1e0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:46 +0000
Subject: [PATCH 01/41] fix: initialise the parent of new local-search nodes
 (fhatlrtastar, flrtastar)

The parent field of a fresh node was read, to tell duplicates apart, before
it was ever written, so the duplicate count depended on stale memory.
---
 search/fhatlrtastar.hpp | 1 +
 search/flrtastar.hpp    | 1 +
 2 files changed, 2 insertions(+)

diff --git a/search/fhatlrtastar.hpp b/search/fhatlrtastar.hpp
index 8943382..a7acaaa 100644
--- a/search/fhatlrtastar.hpp
+++ b/search/fhatlrtastar.hpp
@@ -325,6 +325,7 @@ private:
 				if (!kid) {
 					kid = lssPool.construct();
 					kid->node = k;
+					kid->parent = NULL;
 					kid->g = geom2d::Infinity;
 					kid->openind = -1;
 					lssNodes.add(kid);
diff --git a/search/flrtastar.hpp b/search/flrtastar.hpp
index 7dbb390..f675c40 100644
--- a/search/flrtastar.hpp
+++ b/search/flrtastar.hpp
@@ -339,6 +339,7 @@ private:
 				if (!kid) {
 					kid = astarPool->construct();
 					kid->node = k;
+					kid->parent = NULL;
 					kid->glocal = geom2d::Infinity;
 					kid->openind = -1;
 					astarNodes.add(kid);
-- 
2.43.0


From 7b23d9c99bebfae06206ee43404a21784619fd90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:03 +0000
Subject: [PATCH 02/41] fix: forget an earlier time-out when a time limit is
 started again

---
 search/search.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/search/search.cc b/search/search.cc
index df641bb..2f3de10 100644
--- a/search/search.cc
+++ b/search/search.cc
@@ -102,6 +102,7 @@ void Limit::start() {
 		timed = this;
 	if (timed != this)
 		fatal("Only one timed limit is supported");
+	timeup = false;
 	if (walltime > 0)
 		settimer(ITIMER_REAL, walltime);
 	if (cputime > 0)
-- 
2.43.0


From bdd7102249a339703ead36446497f2f5dca55986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:03 +0000
Subject: [PATCH 03/41] fix: the lookahead dump of dtastar-dump stops at the
 search's limits

---
 search/dtastar-dump.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/search/dtastar-dump.hpp b/search/dtastar-dump.hpp
index 8547b5a..0d7e3f8 100644
--- a/search/dtastar-dump.hpp
+++ b/search/dtastar-dump.hpp
@@ -414,6 +414,9 @@ private:
 			lssPool.destruct(n);
 		lssNodes.clear();
 	
+		if (this->limit())
+			return;
+
 		LssNode *a = lssPool.construct();
 		a->node = root;
 		a->g = 0;
@@ -425,6 +428,8 @@ private:
 
 			alpha = std::numeric_limits<double>::infinity();
 			dfs(d, a, root->horig, root->horig, depth);
+			if (this->limit())
+				break;
 			assert (alpha + geom2d::Threshold >= root->horig);
 			dfrow(stdout, "sample", "gug", root->horig, depth, alpha);
 		}
@@ -436,6 +441,9 @@ private:
 			return;
 		}
 
+		if (this->limit())
+			return;
+
 		for (auto e : expand(d, n->node)) {
 			Node *k = e.node;
 
-- 
2.43.0


From 37b9922eff500cc6821aca13eaaa02bfbc1a1e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:22 +0000
Subject: [PATCH 04/41] fix: idastar ends when nothing was pruned instead of
 deepening forever

---
 search/idastar.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/search/idastar.hpp b/search/idastar.hpp
index a91718a..65b58cb 100644
--- a/search/idastar.hpp
+++ b/search/idastar.hpp
@@ -31,6 +31,8 @@ public:
 			dfrow(stdout, "iter", "dguu", (long) i, (double) bound,
 				SearchAlgorithm<D>::res.expd, SearchAlgorithm<D>::res.gend); 
 
+			if (minoob == Cost(-1))
+				break;	// nothing was pruned: no solution
 			bound = minoob;
 		}
 
-- 
2.43.0


From 3dfc65caf4bc6a4f968ee1f432914d04be09249e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:22 +0000
Subject: [PATCH 05/41] fix: the real-time searches end without a solution at a
 dead end instead of aborting

---
 search/dtastar-dump.hpp | 2 ++
 search/dtastar.hpp      | 2 ++
 search/fhatlrtastar.hpp | 2 ++
 search/lsslrtastar.hpp  | 2 ++
 4 files changed, 8 insertions(+)

diff --git a/search/dtastar-dump.hpp b/search/dtastar-dump.hpp
index 0d7e3f8..44ac9bb 100644
--- a/search/dtastar-dump.hpp
+++ b/search/dtastar-dump.hpp
@@ -217,6 +217,8 @@ public:
 			LssNode *goal = expandLss(d, cur);
 			if (this->limit())
 				break;
+			if (!goal && lssOpen.empty())
+				break;	// dead end
 			if (!goal)
 				hCostLearning(d);
 			auto m = move(cur, goal);
diff --git a/search/dtastar.hpp b/search/dtastar.hpp
index 88dadab..587a5bf 100644
--- a/search/dtastar.hpp
+++ b/search/dtastar.hpp
@@ -516,6 +516,8 @@ public:
 		lsslim->start(0);
 
 		while (!cur->isgoal && !this->limit()) {
+			if (graph.succs(d, cur).empty())
+				break;	// dead end
 			auto move = step(d, cur);
 			cur = move.node;
 			lsslim->start(move.cost);
diff --git a/search/fhatlrtastar.hpp b/search/fhatlrtastar.hpp
index a7acaaa..c76af98 100644
--- a/search/fhatlrtastar.hpp
+++ b/search/fhatlrtastar.hpp
@@ -206,6 +206,8 @@ public:
 			LssNode *goal = expandLss(d, cur);
 			if (this->limit())
 				break;
+			if (!goal && lssOpen.empty())
+				break;	// dead end
 			if (!goal)
 				hCostLearning(d);
 			auto m = move(cur, goal);
diff --git a/search/lsslrtastar.hpp b/search/lsslrtastar.hpp
index 8cad8d1..42de8ea 100644
--- a/search/lsslrtastar.hpp
+++ b/search/lsslrtastar.hpp
@@ -230,6 +230,8 @@ public:
 			LssNode *goal = expandLss(d, cur);
 			if (this->limit())
 				break;
+			if (!goal && lssOpen.empty())
+				break;	// dead end
 			if (!goal)
 				hCostLearning(d);
 			auto m = move(cur, goal);
-- 
2.43.0


From 70b5f82dad37299821592e740236b87dbdddae94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:59 +0000
Subject: [PATCH 06/41] fix: clearing an open list marks its nodes as no longer
 open

beam search clears the list of nodes it prunes; they kept their old
index, so a later, cheaper path to one of them updated a slot that no
longer exists ("Updating an invalid heap index").
---
 search/search.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/search/search.hpp b/search/search.hpp
index 48bc6be..4d34b45 100644
--- a/search/search.hpp
+++ b/search/search.hpp
@@ -130,6 +130,8 @@ public:
 	}
 
 	void clear() {
+		for (long i = 0; i < heap.size(); i++)
+			Ops::setind(heap.at(i), -1);
 		heap.clear();
 	}
 
@@ -253,6 +255,12 @@ public:
 	}
 
 	void clear() {
+		for (auto &q : qs) {
+			for (auto &bkt : q.bkts) {
+				for (auto n : bkt)
+					Ops::setind(n, -1);
+			}
+		}
 		qs.clear();
 		min = 0;
 		fill = 0;
-- 
2.43.0


From af3af7ea9135b91e3042882a995dc793152992d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:36 +0000
Subject: [PATCH 07/41] fix: removing an element from the middle of a hash
 chain unlinks it

---
 structs/htable.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structs/htable.hpp b/structs/htable.hpp
index b6b8dc2..d59280a 100644
--- a/structs/htable.hpp
+++ b/structs/htable.hpp
@@ -91,7 +91,7 @@ public:
 		if (q == NULL)	// head of list
 			bins[i] = Ops::entry(p).nxt;
 		else
-			q = Ops::entry(p).nxt;
+			Ops::entry(q).nxt = Ops::entry(p).nxt;
 		return true;
 	}
 
-- 
2.43.0


From 3456383e63f245f7277c2971aa4e62e5a888ac02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:36 +0000
Subject: [PATCH 08/41] fix: removing a node from a closed list lowers the
 count of its bucket

---
 search/closedlist.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/search/closedlist.hpp b/search/closedlist.hpp
index 804963f..9f534c3 100644
--- a/search/closedlist.hpp
+++ b/search/closedlist.hpp
@@ -112,6 +112,7 @@ template<typename Ops, typename Node, typename D> struct ClosedList {
 		if(!p) return NULL;
 
 		this->fill--;
+		this->fills[bindex]--;
 		if(prev == p) { //head of the list
 			this->bins[bindex] = Ops::closedentry(p).nxt;
 		}
-- 
2.43.0


From 76c84f01eb77da11c3fdc1d9269b3d5d4a65fd1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:36 +0000
Subject: [PATCH 09/41] fix: joining two sets of equal rank raises the rank of
 the joined root

---
 structs/djset.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structs/djset.hpp b/structs/djset.hpp
index 6c7eca3..06b52c7 100644
--- a/structs/djset.hpp
+++ b/structs/djset.hpp
@@ -32,7 +32,7 @@ struct Djset {
 		} else {
 			oroot->parent = root;
 			if (root->rank == oroot->rank)
-				rank++;
+				root->rank++;
 		}
 	}
 
-- 
2.43.0


From 2ba8d31c3050ead16f26dc5795eda765ada1ecea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:49 +0000
Subject: [PATCH 10/41] fix: ARA* links inconsistent nodes separately from its
 closed list

---
 search/arastar.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/search/arastar.hpp b/search/arastar.hpp
index 433d3c6..73b575c 100644
--- a/search/arastar.hpp
+++ b/search/arastar.hpp
@@ -22,7 +22,7 @@ template <class D> struct Arastar : public SearchAlgorithm<D> {
 	typedef typename D::Oper Oper;
 
 	struct Node {
-		ClosedEntry<Node, D> closedent;
+		ClosedEntry<Node, D> closedent, inconsent;
 		int openind;
 		Node *parent;
 		PackedState state;
@@ -75,13 +75,21 @@ template <class D> struct Arastar : public SearchAlgorithm<D> {
 			return incons;
 		}
 	
+		static ClosedEntry<Node, D> &closedentry(Node *n) {
+			return n->inconsent;
+		}
+
+		static PackedState &key(Node *n) {
+			return n->state;
+		}
+
 		void clear() {
 			mem.clear();
 			incons.clear();
 		}
 	
 	private:
-	 	ClosedList<Node, Node, D> mem;
+	 	ClosedList<Incons, Node, D> mem;
 		std::vector<Node*> incons;
 	};
 
-- 
2.43.0


From 9f40e1c0e8ee2dcd180a77b7bbbeff0cea49f9b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:32 +0000
Subject: [PATCH 11/41] fix: visibility-graph operators are equal only if both
 ends agree

---
 visnav/visnav.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/visnav/visnav.hpp b/visnav/visnav.hpp
index 586af4d..41cfc50 100644
--- a/visnav/visnav.hpp
+++ b/visnav/visnav.hpp
@@ -14,7 +14,7 @@ struct VisNav {
 				return !other.edge;
 			if (!other.edge)
 				return false;
-			return other.edge->src == edge->src || other.edge->dst == edge->dst;
+			return other.edge->src == edge->src && other.edge->dst == edge->dst;
 		}
 		const VisGraph::Edge *edge;
 	};
-- 
2.43.0


From 2042ce194965f9dbda560e551e341e8522090c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:32 +0000
Subject: [PATCH 12/41] fix: the reverse of a visibility-graph move leads back
 to where it came from

---
 visnav/visnav.hpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/visnav/visnav.hpp b/visnav/visnav.hpp
index 41cfc50..960de55 100644
--- a/visnav/visnav.hpp
+++ b/visnav/visnav.hpp
@@ -87,7 +87,7 @@ struct VisNav {
 		State state;
 
 		Edge(VisNav &d, State &s, Oper op) :
-			cost(op.edge->dist), revop(op), revcost(op.edge->dist), state(op.edge->dst) { }
+			cost(op.edge->dist), revop(d.reverse(op)), revcost(op.edge->dist), state(op.edge->dst) { }
 	};
 
 	void pack(PackedState &dst, State &src) {
@@ -107,6 +107,17 @@ struct VisNav {
 	void save(const char*, std::vector<State> path = std::vector<State>());
 
 private:
+
+	// reverse returns the operator that leads back along an edge.
+	Oper reverse(Oper op) const {
+		const std::vector<VisGraph::Edge> &edges = g.verts[op.edge->dst].edges;
+		for (unsigned int i = 0; i < edges.size(); i++) {
+			if (edges[i].dst == op.edge->src)
+				return Oper(&edges[i]);
+		}
+		return Nop;
+	}
+
 	double x0, y0, x1, y1;
 	unsigned int start, finish;
 	VisGraph g;
-- 
2.43.0


From fdaf6a292034d01c726e3dd2c47ae172c1799224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:32 +0000
Subject: [PATCH 13/41] fix: doing nothing with the segments has a reverse cost

---
 segments/segments.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/segments/segments.cc b/segments/segments.cc
index b36bf87..d329bb7 100644
--- a/segments/segments.cc
+++ b/segments/segments.cc
@@ -295,8 +295,10 @@ Segments::Edge::Edge(const Segments &dom, const State &s, Oper op) {
 	revop = op.reverse();
 	state = s;
 
-	if (op.op == Oper::None)
+	if (op.op == Oper::None) {
+		revcost = revop.cost(state);
 		return;
+	}
 
 	Pose &p = state.poses[op.seg];
 
-- 
2.43.0


From dc89188ce5106ca268387541f1a53077952d4ea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:32 +0000
Subject: [PATCH 14/41] fix: moving back in a life-cost grid costs what the
 cell left costs

---
 gridnav/gridnav.hpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/gridnav/gridnav.hpp b/gridnav/gridnav.hpp
index ef945ec..fce8e8e 100644
--- a/gridnav/gridnav.hpp
+++ b/gridnav/gridnav.hpp
@@ -217,20 +217,23 @@ struct GridNav {
 				state = State(s.loc + d.map->mvs[op].delta);
 			}
 
-			int mul = 1;
+			int mul = 1, revmul = 1;
 			if (d.map->lifecost) {
 				// -2 because there is 1 layer of border
 				// around each side of the grid, thus
 				// height - y - 1 becomes height - y - 2.
 				mul = (int) d.map->h - d.map->ycoord(s.loc)-2;
+				revmul = (int) d.map->h - d.map->ycoord(state.loc)-2;
 			}
 
 			assert (state.loc < d.map->sz);
-			if (op == Ident || d.map->mvs[op].cost == 1.0)
+			if (op == Ident || d.map->mvs[op].cost == 1.0) {
 				cost = Cost(mul, 0);
-			else
+				revcost = Cost(revmul, 0);
+			} else {
 				cost = Cost(0, mul);
-			revcost = cost;
+				revcost = Cost(0, revmul);
+			}
 		}
 	};
 
-- 
2.43.0


From 8512a69f7ab0f92f34a9ce55fc101fe0cd30c7b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:23 +0000
Subject: [PATCH 15/41] fix: stored platform states compare what they hash

---
 plat2d/plat2d.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/plat2d/plat2d.hpp b/plat2d/plat2d.hpp
index 5127fa0..fe8ffdf 100644
--- a/plat2d/plat2d.hpp
+++ b/plat2d/plat2d.hpp
@@ -5,6 +5,7 @@
 #include <vector>
 #include <string>
 #include <cstdio>
+#include <cstring>
 
 void fatal(const char*, ...);
 extern "C" unsigned long hashbytes(unsigned char[], unsigned int);
@@ -65,10 +66,12 @@ struct Plat2d {
 	struct PackedState {
 
 		bool eq(const Plat2d*, const PackedState &o) const {
+			// The same bytes as are hashed, so that
+			// equal states have equal hash values.
 			return jframes == o.jframes &&
-				geom2d::doubleeq(x, o.x) &&
-				geom2d::doubleeq(y, o.y) &&
-				geom2d::doubleeq(dy, o.dy);
+				memcmp(&x, &o.x, sizeof(x)) == 0 &&
+				memcmp(&y, &o.y, sizeof(y)) == 0 &&
+				memcmp(&dy, &o.dy, sizeof(dy)) == 0;
 		}
 
 		unsigned long hash(const Plat2d*) {
-- 
2.43.0


From d6936720fbb704ce7d816b20b4ed19f2716249bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:55 +0000
Subject: [PATCH 16/41] fix: printed values match their format specifiers

---
 drobot/drobot.cc          |  2 +-
 graphics/ui.cc            |  2 +-
 gridnav/draw.cc           |  2 +-
 gridnav/scenario2rdb.cc   | 16 ++++++++--------
 search/anyprof/profile.cc |  4 ++--
 search/arastar.hpp        |  2 +-
 search/astar-dump.hpp     |  2 +-
 search/astar.hpp          |  2 +-
 search/beam.hpp           |  2 +-
 search/bugsy-slim.hpp     |  4 ++--
 search/bugsy.hpp          |  4 ++--
 search/closedlist.hpp     |  4 ++--
 search/dtastar-dump.hpp   |  2 +-
 search/greedy.hpp         |  2 +-
 search/learnh/hlms.cc     |  2 +-
 search/main.hpp           |  2 +-
 search/rrt.hpp            |  2 +-
 search/rtastar.hpp        |  2 +-
 search/search.hpp         |  4 ++--
 search/wastar.hpp         |  2 +-
 20 files changed, 32 insertions(+), 32 deletions(-)

diff --git a/drobot/drobot.cc b/drobot/drobot.cc
index 13a1a81..2ed8220 100644
--- a/drobot/drobot.cc
+++ b/drobot/drobot.cc
@@ -90,7 +90,7 @@ DockRobot::DockRobot(FILE *in) {
 		if (toks[0] == "location") {
 			loc = strtol(toks[1].c_str(), NULL, 10);
 			if (loc < 0 || loc >= nlocs)
-				fatal("Invalid location %d", loc);
+				fatal("Invalid location %ld", loc);
 
 		} else if (toks[0] == "adjacent:") {
 			if (toks.size() != nlocs + 1)
diff --git a/graphics/ui.cc b/graphics/ui.cc
index 0c94e53..8a2f949 100644
--- a/graphics/ui.cc
+++ b/graphics/ui.cc
@@ -117,7 +117,7 @@ void Ui::chkerror(const char *str) {
 		fatal("GL error %s: GL_TABLE_TOO_LARGE (%d)", str, err);
 
 	default:
-		fatal("Unknow GL error %s: %d\n", err);
+		fatal("Unknow GL error %s: %d\n", str, err);
 	}
 }
 
diff --git a/gridnav/draw.cc b/gridnav/draw.cc
index f04b0ff..faa5667 100644
--- a/gridnav/draw.cc
+++ b/gridnav/draw.cc
@@ -25,7 +25,7 @@ int main(int argc, char *argv[]) {
 	if (mappath != NULL) {
 		mapfile = fopen(mappath, "r");
 		if (!mapfile)
-			fatalx(errno, "Failed to open %s for reading", mapfile);
+			fatalx(errno, "Failed to open %s for reading", mappath);
 	} else {
 		mappath = "<untitled>";
 	}
diff --git a/gridnav/scenario2rdb.cc b/gridnav/scenario2rdb.cc
index 7c38787..197eb08 100644
--- a/gridnav/scenario2rdb.cc
+++ b/gridnav/scenario2rdb.cc
@@ -45,14 +45,14 @@ int main(int argc, char *argv[]) {
 		if (!f)
 			fatalx(errno, "Failed to open %s for writing", path.c_str());
 		fprintf(f, "#start data file format 4\n");
-		dfpair(f, "scenario file", argv[2]);
-		dfpair(f, "num", num);
-		dfpair(f, "map", mapfile.c_str());
-		dfpair(f, "optimal cost", cost.c_str());
-		dfpair(f, "start x", x0.c_str());
-		dfpair(f, "start y", y0.c_str());
-		dfpair(f, "goal x", x1.c_str());
-		dfpair(f, "goal y", y1.c_str());
+		dfpair(f, "scenario file", "%s", argv[2]);
+		dfpair(f, "num", "%s", num);
+		dfpair(f, "map", "%s", mapfile.c_str());
+		dfpair(f, "optimal cost", "%s", cost.c_str());
+		dfpair(f, "start x", "%s", x0.c_str());
+		dfpair(f, "start y", "%s", y0.c_str());
+		dfpair(f, "goal x", "%s", x1.c_str());
+		dfpair(f, "goal y", "%s", y1.c_str());
 		fprintf(f, "#end data file format 4\n");
 		fclose(f);
 	}
diff --git a/search/anyprof/profile.cc b/search/anyprof/profile.cc
index 9e023d8..ee09308 100644
--- a/search/anyprof/profile.cc
+++ b/search/anyprof/profile.cc
@@ -39,11 +39,11 @@ void AnytimeProfile::read(FILE *in) {
 	}
 	for (unsigned int i = 0; i < ncost*ncost*ntime; i++) {
 		if (fscanf(in, "%u\n", &qqtcounts[i]) != 1)
-			fatal("failed to read the %uth qqtcount");
+			fatal("failed to read the %uth qqtcount", i);
 	}
 	for (unsigned int i = 0; i < ncost*ncost*ntime; i++) {
 		if (fscanf(in, "%lg\n", &qqtprobs[i]) != 1)
-			fatal("failed to read the %uth qqtprob");
+			fatal("failed to read the %uth qqtprob", i);
 	}
 }
 
diff --git a/search/arastar.hpp b/search/arastar.hpp
index 73b575c..5e048aa 100644
--- a/search/arastar.hpp
+++ b/search/arastar.hpp
@@ -168,7 +168,7 @@ template <class D> struct Arastar : public SearchAlgorithm<D> {
 		SearchAlgorithm<D>::output(out);
 		closed.prstats(stdout, "closed ");
 		dfpair(stdout, "open list type", "%s", "binary heap");
-		dfpair(stdout, "node size", "%u", sizeof(Node));
+		dfpair(stdout, "node size", "%lu", sizeof(Node));
 		dfpair(stdout, "initial weight", "%g", wt0);
 		dfpair(stdout, "weight decrement", "%g", dwt);
 	}
diff --git a/search/astar-dump.hpp b/search/astar-dump.hpp
index 4511716..e7a0a97 100644
--- a/search/astar-dump.hpp
+++ b/search/astar-dump.hpp
@@ -117,7 +117,7 @@ template <class D> struct Astar_dump : public SearchAlgorithm<D> {
 		SearchAlgorithm<D>::output(out);
 		closed.prstats(stdout, "closed ");
 		dfpair(stdout, "open list type", "%s", open.kind());
-		dfpair(stdout, "node size", "%u", sizeof(Node));
+		dfpair(stdout, "node size", "%lu", sizeof(Node));
 	}
 
 private:
diff --git a/search/astar.hpp b/search/astar.hpp
index 6d08b17..a0bedc1 100644
--- a/search/astar.hpp
+++ b/search/astar.hpp
@@ -95,7 +95,7 @@ template <class D> struct Astar : public SearchAlgorithm<D> {
 		SearchAlgorithm<D>::output(out);
 		closed.prstats(stdout, "closed ");
 		dfpair(stdout, "open list type", "%s", open.kind());
-		dfpair(stdout, "node size", "%u", sizeof(Node));
+		dfpair(stdout, "node size", "%lu", sizeof(Node));
 	}
 
 private:
diff --git a/search/beam.hpp b/search/beam.hpp
index d3e9349..3aa06a1 100644
--- a/search/beam.hpp
+++ b/search/beam.hpp
@@ -136,7 +136,7 @@ template <class D> struct BeamSearch : public SearchAlgorithm<D> {
 		SearchAlgorithm<D>::output(out);
 		closed.prstats(stdout, "closed ");
 		dfpair(stdout, "open list type", "%s", open.kind());
-		dfpair(stdout, "node size", "%u", sizeof(Node));
+		dfpair(stdout, "node size", "%lu", sizeof(Node));
 	}
 
 
diff --git a/search/bugsy-slim.hpp b/search/bugsy-slim.hpp
index 298f25f..1d51c08 100644
--- a/search/bugsy-slim.hpp
+++ b/search/bugsy-slim.hpp
@@ -127,11 +127,11 @@ template <class D> struct Bugsy_slim : public SearchAlgorithm<D> {
 		SearchAlgorithm<D>::output(out);
 		closed.prstats(stdout, "closed ");
 		dfpair(stdout, "open list type", "%s", "binary heap");
-		dfpair(stdout, "node size", "%u", sizeof(Node));
+		dfpair(stdout, "node size", "%lu", sizeof(Node));
 		dfpair(stdout, "wf", "%g", wf);
 		dfpair(stdout, "wt", "%g", wt);
 		dfpair(stdout, "final time per expand", "%g", timeper);
-		dfpair(stdout, "number of resorts", "%lu", nresort);
+		dfpair(stdout, "number of resorts", "%u", nresort);
 		dfpair(stdout, "mean expansion delay", "%g", avgdelay);
 	}
 
diff --git a/search/bugsy.hpp b/search/bugsy.hpp
index 0792bef..a9d98be 100644
--- a/search/bugsy.hpp
+++ b/search/bugsy.hpp
@@ -169,11 +169,11 @@ template <class D> struct Bugsy : public SearchAlgorithm<D> {
 		SearchAlgorithm<D>::output(out);
 		closed.prstats(stdout, "closed ");
 		dfpair(stdout, "open list type", "%s", "binary heap");
-		dfpair(stdout, "node size", "%u", sizeof(Node));
+		dfpair(stdout, "node size", "%lu", sizeof(Node));
 		dfpair(stdout, "wf", "%g", wf);
 		dfpair(stdout, "wt", "%g", wt);
 		dfpair(stdout, "final time per expand", "%g", timeper);
-		dfpair(stdout, "number of resorts", "%lu", nresort);
+		dfpair(stdout, "number of resorts", "%u", nresort);
 		if (usehhat)
 			dfpair(stdout, "mean single-step h error", "%g", herror);
 		if (usedhat)
diff --git a/search/closedlist.hpp b/search/closedlist.hpp
index 9f534c3..a75dcd5 100644
--- a/search/closedlist.hpp
+++ b/search/closedlist.hpp
@@ -84,10 +84,10 @@ template<typename Ops, typename Node, typename D> struct ClosedList {
 		dfpair(out, key.c_str(), "%lu", ncollide);
 
 		key = prefix + std::string("resizes");
-		dfpair(out, key.c_str(), "%lu", nresize);
+		dfpair(out, key.c_str(), "%u", nresize);
 
 		key = prefix + std::string("buckets");
-		dfpair(out, key.c_str(), "%lu", nbins);
+		dfpair(out, key.c_str(), "%u", nbins);
 
 		unsigned int m = 0;
 		for (unsigned int i = 0; i < nbins; i++)
diff --git a/search/dtastar-dump.hpp b/search/dtastar-dump.hpp
index 44ac9bb..df28896 100644
--- a/search/dtastar-dump.hpp
+++ b/search/dtastar-dump.hpp
@@ -187,7 +187,7 @@ public:
 			}
 		}
 		if (samplep <= 0 || samplep > 1)
-			fatal("%g, Must specify sample probability in (0, 1] with -samplep");
+			fatal("Must specify sample probability in (0, 1] with -samplep");
 		if (horizon == 0)
 			fatal("Must specify sample lookahead horizon with -horizon");
 	}
diff --git a/search/greedy.hpp b/search/greedy.hpp
index 80a45ee..f89f849 100644
--- a/search/greedy.hpp
+++ b/search/greedy.hpp
@@ -97,7 +97,7 @@ template <class D, bool speedy = false> struct Greedy : public SearchAlgorithm<D
 		SearchAlgorithm<D>::output(out);
 		closed.prstats(stdout, "closed ");
 		dfpair(stdout, "open list type", "%s", open.kind());
-		dfpair(stdout, "node size", "%u", sizeof(Node));
+		dfpair(stdout, "node size", "%lu", sizeof(Node));
 	}
 
 private:
diff --git a/search/learnh/hlms.cc b/search/learnh/hlms.cc
index 0e6a6d1..d5fef22 100644
--- a/search/learnh/hlms.cc
+++ b/search/learnh/hlms.cc
@@ -91,7 +91,7 @@ int main(int argc, const char *argv[]) {
 	int m = t < sz ? t : sz;
 	for (unsigned int i = 0; i < (unsigned int) m; i++) {
 		if (!filled[i])
-			fatal("Row %u of %lu was never set", i, m);
+			fatal("Row %u of %d was never set", i, m);
 	}
 	if (m < NFeatures)
 		fatal("Require at least %u solutions", NFeatures);
diff --git a/search/main.hpp b/search/main.hpp
index e914071..c6fcc8c 100644
--- a/search/main.hpp
+++ b/search/main.hpp
@@ -42,7 +42,7 @@ template<class D> Result<D> searchGet(SearchAlgorithm<D>*(*get)(int, const char
 	typename D::State s0 = d.initialstate();
 	dfpair(stdout, "initial heuristic", "%f", (double) d.h(s0));
 	dfpair(stdout, "initial distance", "%f", (double) d.d(s0));
-	dfpair(stdout, "algorithm", argv[1]);
+	dfpair(stdout, "algorithm", "%s", argv[1]);
 
 	try {
 		srch->search(d, s0);
diff --git a/search/rrt.hpp b/search/rrt.hpp
index 526d870..c0ac281 100644
--- a/search/rrt.hpp
+++ b/search/rrt.hpp
@@ -118,7 +118,7 @@ done:
 
 	virtual void output(FILE *out) {
 		SearchAlgorithm<D>::output(out);
-		dfpair(stdout, "node size", "%u", sizeof(Node));
+		dfpair(stdout, "node size", "%lu", sizeof(Node));
 		dfpair(stdout, "RRT seed", "%lu", (unsigned long) seed);
 		dfpair(stdout, "KD-tree size", "%lu", (unsigned long) tree.size());
 		dfpair(stdout, "KD-tree depth", "%lu", (unsigned long) tree.depth());
diff --git a/search/rtastar.hpp b/search/rtastar.hpp
index 7733e21..7d28f68 100644
--- a/search/rtastar.hpp
+++ b/search/rtastar.hpp
@@ -102,7 +102,7 @@ template <class D> struct Rtastar : public SearchAlgorithm<D> {
 		// probably want to compare with closed list stats.
 		seen.prstats(stdout, "closed ");
 		dfpair(stdout, "lookahead depth", "%u", nlook);
-		dfpair(stdout, "node size", "%u", sizeof(Node));
+		dfpair(stdout, "node size", "%lu", sizeof(Node));
 	}
 
 private:
diff --git a/search/search.hpp b/search/search.hpp
index 4d34b45..c47e0be 100644
--- a/search/search.hpp
+++ b/search/search.hpp
@@ -281,8 +281,8 @@ public:
 	// output writes information to the given file in
 	// datafile format.
 	void output(FILE *f) {
-		dfpair(f, "state size", "%u", sizeof(typename D::State));
-		dfpair(f, "packed state size", "%u", sizeof(typename D::PackedState));
+		dfpair(f, "state size", "%lu", sizeof(typename D::State));
+		dfpair(f, "packed state size", "%lu", sizeof(typename D::PackedState));
 		dfpair(f, "final sol length", "%lu", (unsigned long) path.size());
 		SearchStats::output(f);
 	}
diff --git a/search/wastar.hpp b/search/wastar.hpp
index 49d7af3..5185fd5 100644
--- a/search/wastar.hpp
+++ b/search/wastar.hpp
@@ -104,7 +104,7 @@ template <class D> struct Wastar : public SearchAlgorithm<D> {
 		SearchAlgorithm<D>::output(out);
 		closed.prstats(stdout, "closed ");
 		dfpair(stdout, "open list type", "%s", "binary heap");
-		dfpair(stdout, "node size", "%u", sizeof(Node));
+		dfpair(stdout, "node size", "%lu", sizeof(Node));
 		dfpair(stdout, "weight", "%lg", wt);
 	}
 
-- 
2.43.0


From 2d86313ff0873fd18d231411296f32f7c988a188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:03 +0000
Subject: [PATCH 17/41] fix: data file lines that just fill the buffer keep
 their last character

---
 utils/datafile.cc | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/utils/datafile.cc b/utils/datafile.cc
index a654156..ea9fedc 100644
--- a/utils/datafile.cc
+++ b/utils/datafile.cc
@@ -21,7 +21,7 @@ static void tryprocstatus(FILE*);
 void dfpair(FILE *f, const char *key, const char *fmt, ...) {
 	char buf[Bufsz];
 	int n = snprintf(buf, Bufsz, "#pair  \"%s\"\t\"", key);
-	if (n > Bufsz)
+	if (n >= Bufsz)
 		fatal("dfrowhdr: buffer is too small\n");
 
 	va_list ap;
@@ -29,7 +29,7 @@ void dfpair(FILE *f, const char *key, const char *fmt, ...) {
 	unsigned int m = vsnprintf(buf+n, Bufsz-n, fmt, ap);
 	va_end(ap);
 
-	if (m > (unsigned int) Bufsz-n) {	// Err, overflow
+	if (m >= (unsigned int) Bufsz-n) {	// Err, overflow
 		va_start(ap, fmt);
 		dfpair_sz(f, m + n + 1, key, fmt, ap);
 		va_end(ap);
@@ -54,7 +54,7 @@ static void dfpair_sz(FILE *f, unsigned int sz, const char *key, const char *fmt
 void dfrowhdr(FILE *f, const char *name, unsigned int ncols, ...) {
 	char buf[Bufsz];
 	int n = snprintf(buf, Bufsz, "#altcols  \"%s\"", name);
-	if (n > Bufsz)
+	if (n >= Bufsz)
 		fatal("dfrowhdr: buffer is too small\n");
 
 	va_list ap;
@@ -62,7 +62,7 @@ void dfrowhdr(FILE *f, const char *name, unsigned int ncols, ...) {
 	for (unsigned int i = 0; i < ncols; i++) {
 		char *col = va_arg(ap, char*);
 		unsigned int m = snprintf(buf+n, Bufsz-n, "\t\"%s %s\"", name, col);
-		if (m > (unsigned int) Bufsz - n)
+		if (m >= (unsigned int) Bufsz-n)
 			fatal("dfrowhdr: buffer is too small\n");
 		n += m;
 	}
@@ -74,7 +74,7 @@ void dfrowhdr(FILE *f, const char *name, unsigned int ncols, ...) {
 void dfrow(FILE *f, const char *name, const char *colfmt, ...) {
 	char buf[Bufsz];
 	int n = snprintf(buf, Bufsz, "#altrow  \"%s\"", name);
-	if (n > Bufsz)
+	if (n >= Bufsz)
 		fatal("dfrowhdr: buffer is too small\n");
 
 	va_list ap;
@@ -102,7 +102,7 @@ void dfrow(FILE *f, const char *name, const char *colfmt, ...) {
 			m = snprintf(buf+n, Bufsz-n, "\t%lu", u);
 			break;
 		}
-		if (m > (unsigned int) Bufsz-n)
+		if (m >= (unsigned int) Bufsz-n)
 			fatal("dfrow: buffer is too small\n");
 		n += m;
 	}
-- 
2.43.0


From 2a03af065faaa0fd284d7ac21780e8a0c98e6d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:03 +0000
Subject: [PATCH 18/41] fix: segment instance rows pass the integers their row
 format reads

---
 segments/segments.cc | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/segments/segments.cc b/segments/segments.cc
index d329bb7..0f8aa95 100644
--- a/segments/segments.cc
+++ b/segments/segments.cc
@@ -436,15 +436,15 @@ Segments::Cost Segments::pathcost(const std::vector<State> &path, const std::vec
 }
 
 void Segments::prinitial(FILE *out) const {
-  dfrowhdr(out, "instance", 7, "radius", "initial x", "initial y", "initial rot", "goal x", "goal y", "goal, rot");
+  dfrowhdr(out, "instance", 7, "radius", "initial x", "initial y", "initial rot", "goal x", "goal y", "goal rot");
 	for (auto sg = segs.begin(); sg != segs.end(); sg++) {
 		dfrow(out, "instance", "guuuuuu", (double) sg->radius,
-			(unsigned int) sg->start.x,
-			(unsigned int) sg->start.y,
-			(unsigned int) sg->start.rot,
-			(unsigned int) sg->goal.x,
-			(unsigned int) sg->goal.y,
-			(unsigned int) sg->goal.rot);
+			(unsigned long) sg->start.x,
+			(unsigned long) sg->start.y,
+			(unsigned long) sg->start.rot,
+			(unsigned long) sg->goal.x,
+			(unsigned long) sg->goal.y,
+			(unsigned long) sg->goal.rot);
 	}
 	dfpair(stdout, "width", "%u", width);
 	dfpair(stdout, "height", "%u", height);
-- 
2.43.0


From 573900341bc6caf170942378fef8e4bb2221a478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:00 +0000
Subject: [PATCH 19/41] fix: the monitored anytime search prints its results
 once

---
 search/arastar.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/search/arastar.hpp b/search/arastar.hpp
index 5e048aa..faca07f 100644
--- a/search/arastar.hpp
+++ b/search/arastar.hpp
@@ -418,7 +418,6 @@ template <class D> struct ArastarMon : public Arastar<D> {
 	}
 
 	virtual void output(FILE *out) {
-		SearchAlgorithm<D>::output(out);
 		Arastar<D>::output(out);
 		dfpair(stdout, "wf", "%g", wcost);
 		dfpair(stdout, "wt", "%g", wtime);
-- 
2.43.0


From 901917cc5e9112b2d70666c25bf154e35ea24af2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:00 +0000
Subject: [PATCH 20/41] fix: the scenario solver writes a complete data file

---
 gridnav/main_scenario.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gridnav/main_scenario.cc b/gridnav/main_scenario.cc
index 3512443..1ddd4ee 100644
--- a/gridnav/main_scenario.cc
+++ b/gridnav/main_scenario.cc
@@ -1,9 +1,13 @@
 // © 2013 the Search Authors under the MIT license. See AUTHORS for the list of authors.
 
 #include "scenario.hpp"
+#include "../utils/utils.hpp"
 #include <iostream>
 
 int main(int argc, const char *argv[]) {
+	dfheader(stdout);
 	Scenario s(argc, argv);
 	s.run(std::cin);
+	dffooter(stdout);
+	return 0;
 }
\ No newline at end of file
-- 
2.43.0


From 00b9a7764d464c857075bd03b55288685794463b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:58 +0000
Subject: [PATCH 21/41] fix: each closed list names its type under its own key

---
 search/closedlist.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/search/closedlist.hpp b/search/closedlist.hpp
index a75dcd5..3b7c6a7 100644
--- a/search/closedlist.hpp
+++ b/search/closedlist.hpp
@@ -75,9 +75,10 @@ template<typename Ops, typename Node, typename D> struct ClosedList {
 	}
 
 	void prstats(FILE *out, const char *prefix) {
-		dfpair(out, "closed list type", "%s", "hash table");
+		std::string key = prefix + std::string("list type");
+		dfpair(out, key.c_str(), "%s", "hash table");
 
-		std::string key = prefix + std::string("fill");
+		key = prefix + std::string("fill");
 		dfpair(out, key.c_str(), "%lu", fill);
 
 		key = prefix + std::string("collisions");
-- 
2.43.0


From a337a3acaeb90b6a575d8d74a746bdddc36c27c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:58 +0000
Subject: [PATCH 22/41] fix: the machine id is printed once when uname fails

---
 utils/datafile.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/utils/datafile.cc b/utils/datafile.cc
index ea9fedc..c1b6e52 100644
--- a/utils/datafile.cc
+++ b/utils/datafile.cc
@@ -153,6 +153,7 @@ static void machineid(FILE *f) {
 	if (uname(&u) == -1) {
 		warnx(errno, "uname failed\n");
 		dfpair(f, "machine id", "%s", hname);
+		return;
 	}
 
 	dfpair(f, "machine id", "%s-%s-%s-%s", hname, u.sysname, u.release, u.machine);
-- 
2.43.0


From 7fcc6dcba92ca52df92472bacf13c3a2dbe5106e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:53:23 +0000
Subject: [PATCH 23/41] fix: the options of Bugsy that are not given are off

---
 search/bugsy.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/search/bugsy.hpp b/search/bugsy.hpp
index a9d98be..4a353d5 100644
--- a/search/bugsy.hpp
+++ b/search/bugsy.hpp
@@ -72,6 +72,7 @@ template <class D> struct Bugsy : public SearchAlgorithm<D> {
 			SearchAlgorithm<D>(argc, argv),
 			resort(true),
 			usehlms(false),
+			usedlms(false),
 			usehhat(false),
 			usedhat(false),
 			navg(0),
@@ -79,6 +80,7 @@ template <class D> struct Bugsy : public SearchAlgorithm<D> {
 			derror(0),
 			herrlast(0),
 			derrlast(0),
+			interph(false),
 			useexpdelay(false),
 			avgdelay(0),
 			delaylast(0),
-- 
2.43.0


From 21e2f501df35dca1606281c4d68f70e869b92ee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:53:23 +0000
Subject: [PATCH 24/41] fix: a beam search without a width is refused

---
 search/beam.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/search/beam.hpp b/search/beam.hpp
index 3aa06a1..7bb7f73 100644
--- a/search/beam.hpp
+++ b/search/beam.hpp
@@ -62,6 +62,7 @@ template <class D> struct BeamSearch : public SearchAlgorithm<D> {
 
 	BeamSearch(int argc, const char *argv[]) :
 		SearchAlgorithm<D>(argc, argv), closed(30000001) {
+		width = 0;
 		dropdups = false;
 		for (int i = 0; i < argc; i++) {
 			if (i < argc - 1 && strcmp(argv[i], "-width") == 0)
-- 
2.43.0


From 532c4bf561094c49006dfa5f7a2c6fe5d40991d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:53:24 +0000
Subject: [PATCH 25/41] fix: DTA* reads its lookahead limit once and counts
 meta-level problems from zero

---
 search/dtastar.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/search/dtastar.hpp b/search/dtastar.hpp
index 587a5bf..add543d 100644
--- a/search/dtastar.hpp
+++ b/search/dtastar.hpp
@@ -397,6 +397,7 @@ public:
 	Dtastar(int argc, const char *argv[]) :
 		SearchAlgorithm<D>(argc, argv),
 		secpergen(0),
+		avgmeta(0),
 		graph(*this, 30000001),
 		wf(0),
 		wt(0),
@@ -422,8 +423,8 @@ public:
 				learnfull = true;
 			else if (strcmp(argv[i], "-plot") == 0)
 				plot = true;
-			lsslim = LookaheadLimit::fromArgs(argc, argv);
 		}
+		lsslim = LookaheadLimit::fromArgs(argc, argv);
 
 		if (wf <= 0)
 			fatal("Must specify a wf >0 using -wf");
-- 
2.43.0


From 8c025690c11b87fd385071c72945bb0f9990d234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:53:24 +0000
Subject: [PATCH 26/41] fix: resetting LSS-LRTA* forgets the steps of the
 previous search

---
 search/fhatlrtastar.hpp | 3 +++
 search/lsslrtastar.hpp  | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/search/fhatlrtastar.hpp b/search/fhatlrtastar.hpp
index c76af98..4c7838c 100644
--- a/search/fhatlrtastar.hpp
+++ b/search/fhatlrtastar.hpp
@@ -193,6 +193,9 @@ public:
 		lssNodes.clear();
 		herror = 0;
 		derror = 0;
+		times.clear();
+		cputimes.clear();
+		lengths.clear();
 	}
 
 	void search(D &d, State &s0) {
diff --git a/search/lsslrtastar.hpp b/search/lsslrtastar.hpp
index 42de8ea..714bdd9 100644
--- a/search/lsslrtastar.hpp
+++ b/search/lsslrtastar.hpp
@@ -217,6 +217,9 @@ public:
 		for (auto n : lssNodes)
 			lssPool.destruct(n);
 		lssNodes.clear();
+		times.clear();
+		cputimes.clear();
+		lengths.clear();
 	}
 
 	void search(D &d, State &s0) {
-- 
2.43.0


From c976ebec9578314d9922b1c58fa03078de46311b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:14:23 +0000
Subject: [PATCH 27/41] fix: a grid read from a stream has its settings
 initialised

---
 gridnav/gridmap.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gridnav/gridmap.hpp b/gridnav/gridmap.hpp
index 1c39217..7ed48b7 100644
--- a/gridnav/gridmap.hpp
+++ b/gridnav/gridmap.hpp
@@ -16,7 +16,7 @@ struct GridMap {
 
 	GridMap(std::string &file);
 
-	GridMap(FILE *f) : nmvs(0) { load(f); }
+	GridMap(FILE *f) : map(NULL), lifecost(false), nmvs(0), flags(NULL) { load(f); }
 
 	// uniform returns a GridMap that has uniformly
 	// distributed obstacles.
-- 
2.43.0


From 73a0585958c3413fc35100ab695c5e23c0b55fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:18:57 +0000
Subject: [PATCH 28/41] fix: an option without a value is not read past the
 arguments

---
 gridnav/watch.cc         |  6 ++----
 plat2d/main.cc           |  2 +-
 plat2d/watch.cc          |  8 ++++----
 search/anyprof/bestwt.cc |  2 +-
 search/learnh/hlms.cc    |  2 +-
 tiles/generator.cc       | 10 +++++-----
 traffic/randinst.cc      |  2 +-
 traffic/watch.cc         |  6 ++----
 8 files changed, 17 insertions(+), 21 deletions(-)

diff --git a/gridnav/watch.cc b/gridnav/watch.cc
index dd018f8..c92a3a7 100644
--- a/gridnav/watch.cc
+++ b/gridnav/watch.cc
@@ -82,13 +82,11 @@ static void parseargs(int argc, const char *argv[]) {
 	for (int i = 1; i < argc; i++) {
 		if (strcmp(argv[i], "-h") == 0) {
 			helpmsg(0);
-		} else if (strcmp(argv[i], "-f") == 0) {
+		} else if (i < argc-1 && strcmp(argv[i], "-f") == 0) {
 			frametime = strtol(argv[++i], NULL, 10);
-			i++;
-		} else if (strcmp(argv[i], "-d") == 0) {
+		} else if (i < argc-1 && strcmp(argv[i], "-d") == 0) {
 			delay = strtol(argv[++i], NULL, 10);
 			delay *= 1000;
-			i++;
 		} else if (strcmp(argv[i], "-e") == 0) {
 			echo = true;
 		} else if (strcmp(argv[i], "-s") == 0) {
diff --git a/plat2d/main.cc b/plat2d/main.cc
index 8384492..bb0902b 100644
--- a/plat2d/main.cc
+++ b/plat2d/main.cc
@@ -45,7 +45,7 @@ static void parseargs(int argc, const char *argv[]) {
 }
 
 static SearchAlgorithm<Plat2d> *get(int argc, const char *argv[]) {
-	if (strcmp(argv[1], "rrt") == 0)
+	if (argc > 1 && strcmp(argv[1], "rrt") == 0)
 		return new RRT<Plat2d>(argc, argv);
 	return getsearch<Plat2d>(argc, argv);
 }
\ No newline at end of file
diff --git a/plat2d/watch.cc b/plat2d/watch.cc
index dd1bbdd..2353e95 100644
--- a/plat2d/watch.cc
+++ b/plat2d/watch.cc
@@ -93,13 +93,13 @@ static void parseargs(int argc, const char *argv[]) {
 	for (int i = 1; i < argc; i++) {
 		if (strcmp(argv[i], "-h") == 0) {
 			helpmsg(0);
-		} else if (strcmp(argv[i], "-f") == 0) {
+		} else if (i < argc-1 && strcmp(argv[i], "-f") == 0) {
 			frametime = strtol(argv[++i], NULL, 10);
-		} else if (strcmp(argv[i], "-d") == 0) {
+		} else if (i < argc-1 && strcmp(argv[i], "-d") == 0) {
 			startdelay = strtol(argv[++i], NULL, 10);
-		} else if (strcmp(argv[i], "-min") == 0) {
+		} else if (i < argc-1 && strcmp(argv[i], "-min") == 0) {
 			mintime = strtol(argv[++i], NULL, 10);
-		} else if (strcmp(argv[i], "-max") == 0) {
+		} else if (i < argc-1 && strcmp(argv[i], "-max") == 0) {
 			maxtime = strtol(argv[++i], NULL, 10);
 		} else if (strcmp(argv[i], "-e") == 0) {
 			echo = true;
diff --git a/search/anyprof/bestwt.cc b/search/anyprof/bestwt.cc
index 3e12356..3345060 100644
--- a/search/anyprof/bestwt.cc
+++ b/search/anyprof/bestwt.cc
@@ -19,7 +19,7 @@ struct Fields {
 };
 
 int main(int argc, const char *argv[]) {
-	if (argc < 2)
+	if (argc < 4)
 		fatal("usage: bestwt <wf> <wt> <rdb root> [key=value*]");
 
 	char *end = NULL;
diff --git a/search/learnh/hlms.cc b/search/learnh/hlms.cc
index d5fef22..1cb6f93 100644
--- a/search/learnh/hlms.cc
+++ b/search/learnh/hlms.cc
@@ -44,7 +44,7 @@ static void sptpoints(FILE*);
 static void sptfooter(FILE*);
 
 int main(int argc, const char *argv[]) {
-	if (argc < 2)
+	if (argc < 4)
 		fatal("usage: lms <sample size> <d|h> <rdbroot> [key=value*]");
 
 	// Seed with zero.
diff --git a/tiles/generator.cc b/tiles/generator.cc
index 155a637..7255ebf 100644
--- a/tiles/generator.cc
+++ b/tiles/generator.cc
@@ -93,15 +93,15 @@ int main(int argc, char *argv[]) {
 	vector<int> puzzle;
 	
 	for (int i=0; i<argc; i++) {
-		if (strcmp(argv[i], "-w") == 0 && argc > i)
+		if (strcmp(argv[i], "-w") == 0 && i < argc - 1)
 			width = atoi(argv[++i]);
-		if (strcmp(argv[i], "-h") == 0 && argc > i)
+		if (strcmp(argv[i], "-h") == 0 && i < argc - 1)
 			height = atoi(argv[++i]);
-		if (strcmp(argv[i], "-n") == 0 && argc > i)
+		if (strcmp(argv[i], "-n") == 0 && i < argc - 1)
 			n = atoi(argv[++i]);
-		if (strcmp(argv[i], "-d") == 0 && argc > i)
+		if (strcmp(argv[i], "-d") == 0 && i < argc - 1)
 			dir = argv[++i];
-		if (strcmp(argv[i], "-seed") == 0 && argc > i) {
+		if (strcmp(argv[i], "-seed") == 0 && i < argc - 1) {
 			seedval = atol(argv[++i]);
 			fprintf(stderr, "Using seed %ld\n", seedval);
 		}
diff --git a/traffic/randinst.cc b/traffic/randinst.cc
index 859727d..0121581 100644
--- a/traffic/randinst.cc
+++ b/traffic/randinst.cc
@@ -7,7 +7,7 @@
 
 int main(int argc, const char *argv[]) {
 	
-	if(argc < 4) {
+	if(argc < 5) {
 		fprintf(stderr, "usage: %s width height num_obs seed\n", argv[0]);
 		return 0;
 	}
diff --git a/traffic/watch.cc b/traffic/watch.cc
index b86d9bc..9bd96e5 100644
--- a/traffic/watch.cc
+++ b/traffic/watch.cc
@@ -88,13 +88,11 @@ static void parseargs(int argc, const char *argv[]) {
 	for (int i = 1; i < argc; i++) {
 		if (strcmp(argv[i], "-h") == 0) {
 			helpmsg(0);
-		} else if (strcmp(argv[i], "-f") == 0) {
+		} else if (i < argc-1 && strcmp(argv[i], "-f") == 0) {
 			frametime = strtol(argv[++i], NULL, 10);
-			i++;
-		} else if (strcmp(argv[i], "-d") == 0) {
+		} else if (i < argc-1 && strcmp(argv[i], "-d") == 0) {
 			delay = strtol(argv[++i], NULL, 10);
 			delay *= 1000;
-			i++;
 		} else if (strcmp(argv[i], "-e") == 0) {
 			echo = true;
 		} else if (strcmp(argv[i], "-s") == 0) {
-- 
2.43.0


From 725d0154fc4e5afc84e24e97756dda25799d89bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:18:57 +0000
Subject: [PATCH 29/41] fix: tiles refuses positions off the board

---
 tiles/tiles.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tiles/tiles.cc b/tiles/tiles.cc
index 7a93d6c..881dee1 100644
--- a/tiles/tiles.cc
+++ b/tiles/tiles.cc
@@ -33,7 +33,7 @@ void Tiles::readruml(FILE *in) {
 	if (!safe::can_mul(w, h))
 		fatal("The tiles board is too big");
 
-	if (w != Width && h != HEIGHT)
+	if (w != Width || h != HEIGHT)
 		fatal("Width and height instance/compiler option mismatch");
 
 	if (fscanf(in, " starting positions for each tile:") != 0)
@@ -44,6 +44,8 @@ void Tiles::readruml(FILE *in) {
 		int r = fscanf(in, " %u", &p);
 		if (r != 1)
 			fatal("Failed to read the starting position for tile %d", t);
+		if (p >= Ntiles)
+			fatal("The starting position of tile %d is off the board", t);
 		init[p] = t;
 	}
 
-- 
2.43.0


From b66112453b855b0bb0f9ae37564ec674af8183d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:18:57 +0000
Subject: [PATCH 30/41] fix: gridnav refuses locations off the map

---
 gridnav/main_gridnav.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gridnav/main_gridnav.cc b/gridnav/main_gridnav.cc
index 1325cd4..01e85e9 100644
--- a/gridnav/main_gridnav.cc
+++ b/gridnav/main_gridnav.cc
@@ -39,6 +39,10 @@ int main(int argc, const char *argv[]) {
 	dfpair(stdout, "goal x", "%u", xg);
 	dfpair(stdout, "goal y", "%u", yg);
 
+	if (x0 >= map.w - 2 || y0 >= map.h - 2)
+		fatal("The start location is off the map");
+	if (xg >= map.w - 2 || yg >= map.h - 2)
+		fatal("The goal location is off the map");
 	if (map.blkd(map.index(x0+1, y0+1)))
 		fatal("The start location is blocked");
 	if (map.blkd(map.index(xg+1, yg+1)))
-- 
2.43.0


From f01e54bd7e926c5afe380d9411c840b231562115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:18:57 +0000
Subject: [PATCH 31/41] fix: a scenario without a version is refused

---
 gridnav/scenario.cc     | 3 +--
 gridnav/scenario2rdb.cc | 3 ++-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/gridnav/scenario.cc b/gridnav/scenario.cc
index f580d29..b55836c 100644
--- a/gridnav/scenario.cc
+++ b/gridnav/scenario.cc
@@ -54,8 +54,7 @@ void Scenario::run(std::istream &in) {
 void Scenario::checkver(std::istream &in) {
 	float ver;
 	std::string verstr;
-	std::cin >> verstr >> ver;
-	if (verstr != "version")
+	if (!(std::cin >> verstr >> ver) || verstr != "version")
 		fatal("Expected a version header");
 	if (ver != 1.0)
 		fatal("Version %g is unsupported.  Latest supported version is 1.0", ver);
diff --git a/gridnav/scenario2rdb.cc b/gridnav/scenario2rdb.cc
index 197eb08..5a6d0f3 100644
--- a/gridnav/scenario2rdb.cc
+++ b/gridnav/scenario2rdb.cc
@@ -13,7 +13,8 @@ int main(int argc, char *argv[]) {
 	
 	std::string verstr;
 	unsigned int vernum;
-	in >> verstr >> vernum;
+	if (!(in >> verstr >> vernum))
+		fatal("Failed to read the scenario version");
 	if (verstr != "version" || vernum != 1)
 		fatal("Bad scenario version: %s %d", verstr.c_str(), vernum);
 
-- 
2.43.0


From d7b2ac26896cf1e7217394495026b258cee7bd2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:18:57 +0000
Subject: [PATCH 32/41] fix: segments refuses invalid rotations and ends a
 comment with the file

---
 segments/segments.cc | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/segments/segments.cc b/segments/segments.cc
index 0f8aa95..d4d1a18 100644
--- a/segments/segments.cc
+++ b/segments/segments.cc
@@ -58,7 +58,7 @@ Segments::Segments(FILE *in) {
 	while (c == '#') {
 		do {
 			c = fgetc(in);
-		} while (c != '\n');
+		} while (c != '\n' && c != EOF);
 		c = fgetc(in);
 	}
 	ungetc(c, in);
@@ -90,6 +90,8 @@ Segments::Segments(FILE *in) {
 			fatal("Failed to read the %uth initial pose\n", i);
 		if (fscanf(in, " %u %u %u", &seg.goal.x, &seg.goal.y, &seg.goal.rot) != 3)
 			fatal("Failed to read the %uth goal pose\n", i);
+		if (seg.start.rot >= nangles || seg.goal.rot >= nangles)
+			fatal("The %uth segment has an invalid rotation\n", i);
 		segs.push_back(seg);
 	}
 }
@@ -458,22 +460,22 @@ std::vector<Segments::Oper> scanops(const std::string &str) {
 	while (!in.eof()) {
 		char tag;
 		int seg;
-		in >> tag >> seg;
-
-		if (in.eof())
+		if (!(in >> tag >> seg))
 			break;
 
 		switch (tag) {
 		case 'm':
 			int dx, dy;
-			in >> dx >> dy;
+			if (!(in >> dx >> dy))
+				fatal("Malformed move operator");
 			ops.push_back(Segments::Oper(Segments::Oper::Move,
 				seg, dx, dy));
 			break;
 
 		case 'r':
 			int delta;
-			in >> delta;
+			if (!(in >> delta))
+				fatal("Malformed rotate operator");
 			ops.push_back(Segments::Oper(Segments::Oper::Rotate,
 				seg, delta, 0));
 			break;
-- 
2.43.0


From 2cd469a5d987f221a562ac119ff8dd2a6cb11afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:18:57 +0000
Subject: [PATCH 33/41] fix: a visibility graph with edges to nowhere is
 refused

---
 visnav/visgraph.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/visnav/visgraph.cc b/visnav/visgraph.cc
index 1c8b2ae..b7ac84c 100644
--- a/visnav/visgraph.cc
+++ b/visnav/visgraph.cc
@@ -10,10 +10,19 @@ VisGraph::VisGraph(FILE *in) : map(in) {
 	int res = fscanf(in, " %u vertices\n", &nverts);
 	if (res == EOF && ferror(in))
 		fatalx(errno, "Failed to read the visibility graph");
+	if (res == 0)
+		fatal("Malformed visibility graph");
 	if (res != EOF) {
 		for (unsigned int i = 0; i < nverts; i++)
 			verts.push_back(Vert(in));
 	}
+	for (unsigned int i = 0; i < verts.size(); i++) {
+	for (unsigned int j = 0; j < verts[i].edges.size(); j++) {
+		const Edge &e = verts[i].edges[j];
+		if (e.src >= verts.size() || e.dst >= verts.size())
+			fatal("Vertex %u has an edge to a vertex that does not exist", i);
+	}
+	}
 }
 
 VisGraph::VisGraph(const PolyMap &p) : map(p) {
-- 
2.43.0


From 18ddf40d9c8ef2c443efb2a222a37b136dda45a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:18:57 +0000
Subject: [PATCH 34/41] fix: dock robot refuses locations without a number

---
 drobot/drobot.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/drobot/drobot.cc b/drobot/drobot.cc
index 2ed8220..912022e 100644
--- a/drobot/drobot.cc
+++ b/drobot/drobot.cc
@@ -88,11 +88,15 @@ DockRobot::DockRobot(FILE *in) {
 			goto reloop;
 
 		if (toks[0] == "location") {
+			if (toks.size() < 2)
+				fatal("Malformed location");
 			loc = strtol(toks[1].c_str(), NULL, 10);
 			if (loc < 0 || loc >= nlocs)
 				fatal("Invalid location %ld", loc);
 
 		} else if (toks[0] == "adjacent:") {
+			if (loc < 0)
+				fatal("The neighbors of a location come before its number");
 			if (toks.size() != nlocs + 1)
 				fatal("Malformed adjacency list for location %ld", loc);
 
@@ -100,9 +104,13 @@ DockRobot::DockRobot(FILE *in) {
 				adj[loc].push_back(strtof(toks[i].c_str(), NULL));
 
 		} else if (toks[0] == "cranes:") {
+			if (loc < 0)
+				fatal("The cranes of a location come before its number");
 			maxcranes[loc] = toks.size()-1;
 
 		} else if (toks[0] == "piles:") {
+			if (loc < 0)
+				fatal("The piles of a location come before its number");
 			for (unsigned int i = 1; i < toks.size(); i++) {
 				long p = strtol(toks[i].c_str(), NULL, 10);
 				if (p < 0 || p >= npiles)
-- 
2.43.0


From 9b06b46001dfd3392369283ce2cb70ae1d7b3643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:27:06 +0000
Subject: [PATCH 35/41] fix: the sliding tile hash does not depend on the clock

---
 tiles/tiles.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tiles/tiles.cc b/tiles/tiles.cc
index 881dee1..04c31c0 100644
--- a/tiles/tiles.cc
+++ b/tiles/tiles.cc
@@ -76,7 +76,7 @@ void Tiles::initops() {
 
 void Tiles::inithashvec() {
 	hashvecinit = true;
-	Rand r(time(NULL));
+	Rand r(0);
 	for (int i = 0; i < Ntiles; i++) {
 	for (int j = 0; j < Ntiles; j++)
 		hashvec[i][j] = r.bits();
-- 
2.43.0


From db2743da9a7b7c24c3b124ce69d7182bb73bed33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:38:32 +0000
Subject: [PATCH 36/41] fix: close a lookahead table that cannot be read

---
 search/lsslrtastar.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/search/lsslrtastar.hpp b/search/lsslrtastar.hpp
index 714bdd9..de1c8c0 100644
--- a/search/lsslrtastar.hpp
+++ b/search/lsslrtastar.hpp
@@ -688,6 +688,7 @@ continue;
 		unsigned int size;
 		if (fscanf(f, "%u\n", &size) != 1) {
 			fprintf(stderr, "Failed to read cached lookahead table size");
+			fclose(f);
 			return false;
 		}
 
@@ -696,6 +697,7 @@ continue;
 			double t;
 			if (fscanf(f, "%u %lf\n", &s, &t) != 2) {
 				fprintf(stderr, "Failed to read cached entry");
+				fclose(f);
 				return false;
 			}
 			lsstable.emplace_back(s, t);
-- 
2.43.0


From 09ec1e85e77014e3ec639a27185201542c19e358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:38:32 +0000
Subject: [PATCH 37/41] fix: the tile generator closes the files it writes

---
 tiles/generator.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tiles/generator.cc b/tiles/generator.cc
index 7255ebf..f99a677 100644
--- a/tiles/generator.cc
+++ b/tiles/generator.cc
@@ -81,6 +81,8 @@ void writeruml(vector<int> ts, int w, int h, char *dir, int n) {
 	fprintf(file, "goal positions:\n");
 	for (unsigned int i = 0; i<Ntiles; i++)
 		fprintf(file, "%d\n", i);
+
+	fclose(file);
 }
 
 int main(int argc, char *argv[]) {
-- 
2.43.0


From b9a7304268d73703bebd84ed59103ef5e7402f58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:38:32 +0000
Subject: [PATCH 38/41] fix: random polygon maps go to the file that was asked
 for

---
 visnav/rand.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/visnav/rand.cc b/visnav/rand.cc
index e0c0a79..9f398e4 100644
--- a/visnav/rand.cc
+++ b/visnav/rand.cc
@@ -54,7 +54,7 @@ int main(int argc, char *argv[]) {
 		FILE *f = fopen(outfile, "w");
 		if (!f)
 			fatalx(errno, "Failed to open %s:", outfile);
-		map.output(stdout);
+		map.output(f);
 		fclose(f);
 	} else {
 		map.output(stdout);
-- 
2.43.0


From c2c45cf5fb8b7e1d1208cb4965959fb4c6284d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:38:32 +0000
Subject: [PATCH 39/41] fix: a data file is only replaced by one that was
 written whole

---
 rdb/addattrs.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rdb/addattrs.cc b/rdb/addattrs.cc
index d5145df..d7248cf 100644
--- a/rdb/addattrs.cc
+++ b/rdb/addattrs.cc
@@ -55,7 +55,10 @@ int main(int argc, const char *argv[]) {
 	}
 
 	fclose(fin);
-	fclose(fout);
+	if (ferror(fout))
+		fatal("Failed to write %s", outfile.c_str());
+	if (fclose(fout) != 0)
+		fatalx(errno, "Failed to write %s", outfile.c_str());
 
 	if (rename(outfile.c_str(), file) == -1)
 		fatalx(errno, "Failed to rename %s to %s", outfile.c_str(), file);
-- 
2.43.0


From 91500203ae1b7e08a583d32deb433317319e2e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:38:32 +0000
Subject: [PATCH 40/41] fix: removing a directory tree does not follow links
 out of it

---
 utils/fs.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/utils/fs.cc b/utils/fs.cc
index 740c796..60965fc 100644
--- a/utils/fs.cc
+++ b/utils/fs.cc
@@ -100,7 +100,9 @@ void ensuredir(const std::string &p) {
 }
 
 bool rmrecur(const std::string &path) {
-	if (!isdir(path)) {
+	// A link to a directory is removed, not followed.
+	struct stat sb;
+	if (lstat(path.c_str(), &sb) == -1 || !S_ISDIR(sb.st_mode)) {
 		if (remove(path.c_str()) != 0 && errno != ENOENT) {
 			warnx(errno, "failed to remove %s", path.c_str());
 			return false;
-- 
2.43.0


From d276197985bd56435acf738a1ae9b5d001cb4ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:38:32 +0000
Subject: [PATCH 41/41] fix: memory statistics may be unreadable

---
 utils/mem.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/utils/mem.cc b/utils/mem.cc
index 790b967..74c0e1a 100644
--- a/utils/mem.cc
+++ b/utils/mem.cc
@@ -20,6 +20,8 @@ unsigned long virtmem() {
 		return 0;
 
 	FILE *in = fopen(buf, "r");
+	if (!in)
+		return 0;
 	unsigned long mem = 0;
 
 	for (;;) {
-- 
2.43.0

