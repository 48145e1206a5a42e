// A domain with every method left undefined: instantiating the search
// algorithms with it gives flow graphs in which each domain operation is one
// opaque call and everything else is the repository's own code.
#pragma once
#include <cstdio>
#include <cstddef>
#include <vector>
#include <string>

template <class CostT> struct VDomT {
	typedef CostT Cost;
	typedef int Oper;
	static const Oper Nop = -1;

	struct State {
		State();
		long w[4];
	};

	struct PackedState {
		long w[2];
		unsigned long hash(const VDomT*);
		bool eq(const VDomT*, const PackedState&) const;
	};

	struct Operators {
		Operators(VDomT&, State&);
		unsigned int size() const;
		Oper operator[](unsigned int) const;
		long w[2];
	};

	struct Edge {
		Cost cost;
		Oper revop;
		Cost revcost;
		State &state;
		Edge(VDomT&, State&, Oper);
		~Edge();
	};

	State initialstate();
	Cost h(State&);
	Cost d(State&);
	bool isgoal(State&);
	void pack(PackedState&, State&);
	State &unpack(State&, PackedState&);
	void dumpstate(FILE*, State&);
	Cost pathcost(const std::vector<State>&, const std::vector<Oper>&);
};
typedef VDomT<double> VDomD;
typedef VDomT<int> VDomI;
