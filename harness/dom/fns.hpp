// The uses a search makes of a domain, as functions over arbitrary arguments.
// Declared with references so that nothing is known about what they are given.

// one expansion step: build an operator list, take an operator, apply it, look
// at the new state, take the operator back
void dom_sink(const Dom::Cost&, const Dom::Oper&, const Dom::Cost&, Dom::State&);

void dom_step(Dom &d, Dom::State &s, const Dom::Oper &op) {
	Dom::Edge e(d, s, op);
	dom_sink(e.cost, e.revop, e.revcost, e.state);
}

// the new state is stored while the edge is in force
void dom_hold(Dom &d, Dom::State &s, const Dom::Oper &op, Dom::PackedState &p) {
	Dom::Edge e(d, s, op);
	d.pack(p, e.state);
}

void dom_twice(Dom &d, Dom::State &s, const Dom::Oper &op) {
	Dom::Edge e(d, s, op);
	Dom::Edge f(d, e.state, e.revop);
	dom_sink(f.cost, f.revop, f.revcost, f.state);
}

void dom_ops(Dom &d, Dom::State &s, unsigned int i) {
	Dom::Operators ops(d, s);
	if (i < ops.size()) {
		Dom::Oper op = ops[i];
		dom_sink(Dom::Cost(), op, Dom::Cost(), s);
	}
}

void dom_pack(Dom &d, Dom::PackedState &p, Dom::State &s) {
	d.pack(p, s);
}

void dom_unpack(Dom &d, Dom::State &buf, Dom::PackedState &p) {
	Dom::State &s = d.unpack(buf, p);
	dom_sink(Dom::Cost(), Dom::Nop, Dom::Cost(), s);
}

unsigned long dom_hash(Dom &d, Dom::PackedState &p) {
	return p.hash(&d);
}

bool dom_eq(Dom &d, Dom::PackedState &p, Dom::PackedState &q) {
	return p.eq(&d, q);
}

bool dom_goal(Dom &d, Dom::State &s) {
	return d.isgoal(s);
}

void dom_hd(Dom &d, Dom::State &s) {
	dom_sink(d.h(s), Dom::Nop, d.d(s), s);
}

void dom_init(Dom &d, Dom::State &s) {
	s = d.initialstate();
}

// a state to restore into
void dom_fresh(Dom &d, Dom::State &s) {
	Dom::State t;
	dom_sink(Dom::Cost(), Dom::Nop, Dom::Cost(), t);
}
