// Correctness of one garbling scheme. GEN/EVA are templates over the channel,
// PER_AND the blocks sent per AND gate, LSB0 whether zero labels end in 0.
#pragma once
#include "gc.hpp"

// MemIO with the view the checks need.
struct MemChan {
	emp::MemIO io;
	MemChan(size_t cap) : io(cap) {}
	size_t sent() { return (size_t)io.counter; }
};
static void check_wires(const std::vector<Bit> &rw, const std::vector<Bit> &gw, const std::vector<Bit> &ew, const block &delta, bool lsb0) {
	REQUIRE(gw.size() == rw.size() && ew.size() == rw.size(), "wire counts %zu %zu %zu", rw.size(), gw.size(), ew.size());
	for (size_t i = 0; i < rw.size(); ++i) {
		bool v = blo(rw[i].bit);
		block want = v ? bxor(gw[i].bit, delta) : gw[i].bit;
		REQUIRE(same(ew[i].bit, want), "wire %zu (value %d): the evaluator holds %s, labels are %s / %s", i, v, bs(ew[i].bit).c_str(), bs(gw[i].bit).c_str(), bs(bxor(gw[i].bit, delta)).c_str());
		if (lsb0) REQUIRE((blo(gw[i].bit) & 1) == 0, "wire %zu: zero label ends in 1", i);
	}
}

template <class IO> struct Pair {
	IO &io;
	std::unique_ptr<GEN<IO>> gen;
	std::unique_ptr<EVA<IO>> eva;
	explicit Pair(IO &io) : io(io) {}
};

template <class IO, class SENT> static void one_session(G &g, IO &io, SENT sent, const Prog &p) {
	RefExec rx; RefProt rp;
	Session r(&rx, &rp);
	GEN<IO> gen(&io);
	bool own = g.chance(1, 2);
	block d = own ? gen_block(g) : mkblk(0, 0);
	if (own) gen.set_delta(d);
	block delta = gen.delta;
	REQUIRE(blo(delta) & 1, "the offset ends in 0");
	if (own) REQUIRE(same(delta, mkblk(bhi(d), blo(d) | 1)), "the offset is not the one that was set");
	GenProt gp(g.draw(0xffffffff), LSB0);
	Session s(&gen, &gp);
	size_t setup = sent();
	REQUIRE(gen.num_and() == 0, "generator counts %llu gates at the start", (unsigned long long)gen.num_and());
	// the generator, step by step next to the reference
	while (s.pc < p.s.size()) {
		r.step(p);
		s.step(p);
		REQUIRE(sent() - setup == rx.ands * 16 * PER_AND, "after step %zu: %zu bytes for %llu AND gates", s.pc, sent() - setup, (unsigned long long)rx.ands);
		REQUIRE(gen.num_and() == rx.ands, "after step %zu the generator counts %llu AND gates of %llu", s.pc, (unsigned long long)gen.num_and(), (unsigned long long)rx.ands);
	}
	EVA<IO> eva(&io);
	if (own) eva.set_delta();
	EvaProt ep(gp.zeros, delta);
	Session e(&eva, &ep);
	RefExec rx2;
	Session r2(&rx2, &rp);
	REQUIRE(eva.num_and() == 0, "evaluator counts %llu gates at the start", (unsigned long long)eva.num_and());
	while (e.pc < p.s.size()) {
		r2.step(p);
		e.step(p);
		REQUIRE(eva.num_and() == rx2.ands, "after step %zu the evaluator counts %llu AND gates of %llu", e.pc, (unsigned long long)eva.num_and(), (unsigned long long)rx2.ands);
	}
	check_wires(r.w, s.w, e.w, delta, LSB0);
	REQUIRE(same(gen.delta, delta), "the offset changed");
	for (int b = 0; b < 2; ++b) {
		block z = gen.public_label(b), t = eva.public_label(b);
		REQUIRE(same(t, b ? bxor(z, delta) : z), "label of the constant %d", b);
	}
	g.label(rx.ands == 0 ? "no AND" : rx.ands <= 8 ? "1..8 AND" : rx.ands <= 100 ? "9..100 AND" : "> 100 AND");
	g.nontrivial(rx.ands >= 2);
}

SUBCHECK(circuit, 250000, 6000000, "a generated circuit (gates and integer operations over private and public wires, repeated operands) garbled, then evaluated from the recorded messages; every wire compared; non-trivial: at least 2 AND gates") {
	seed_rd(g);
	Prog p = gen_prog(g, 40);
	g.note("%s", p.str().c_str());
	RecIO io;
	one_session(g, io, [&] { return io.sent(); }, p);
	REQUIRE(io.taken() == io.sent(), "the evaluator read %zu of %zu bytes", io.taken(), io.sent());
}

SUBCHECK(memory_channel, 50000, 1000000, "as above over the library's memory channel; non-trivial: at least 2 AND gates") {
	seed_rd(g);
	Prog p = gen_prog(g, 30);
	g.note("%s", p.str().c_str());
	emp::MemIO io(g.of<int64_t>({1, 16, 100, 4096}));
	one_session(g, io, [&] { return (size_t)io.counter; }, p);
}

SUBCHECK(long_circuit, 300, 6000, "a chain of up to 60000, at times 400000, gates; non-trivial: more than 1000 AND gates", 60000) {
	seed_rd(g);
	Prog p;
	for (int i = 0; i < 6; ++i) p.s.push_back(Step{S_IN, (size_t)g.coin(), (size_t)(i % 2 ? ALICE : BOB), 0, 0, 0});
	p.s.push_back(Step{S_PUB, 1, 0, 0, 0, 0});
	int n = (int)g.size(100, g.chance(1, 10) ? 400000 : 60000, {256, 65536, 32768, 131072});
	p.s.push_back(Step{S_CHAIN, 0, 0, 0, n, g.draw(0xffff)});
	g.note("chain of %d", n);
	RecIO io;
	one_session(g, io, [&] { return io.sent(); }, p);
}

SUBCHECK(two_sessions, 60000, 1000000, "two sessions with different circuits advanced alternately in one process; non-trivial: both have AND gates") {
	seed_rd(g);
	Prog p[2] = {gen_prog(g, 16), gen_prog(g, 16)};
	RecIO io[2];
	RefExec rx[2]; RefProt rp;
	GEN<RecIO> g0(&io[0]), g1(&io[1]);
	GEN<RecIO> *gen[2] = {&g0, &g1};
	GenProt gp0(g.draw(0xffffffff), LSB0), gp1(g.draw(0xffffffff), LSB0);
	GenProt *gp[2] = {&gp0, &gp1};
	g.note("A: %s B: %s", p[0].str().c_str(), p[1].str().c_str());
	Session s[2] = {{gen[0], gp[0]}, {gen[1], gp[1]}}, r[2] = {{&rx[0], &rp}, {&rx[1], &rp}};
	auto interleave = [&](Session *x) {
		while (x[0].pc < p[0].s.size() || x[1].pc < p[1].s.size()) {
			int k = x[0].pc >= p[0].s.size() ? 1 : x[1].pc >= p[1].s.size() ? 0 : (int)g.draw(1);
			x[k].step(p[k]);
		}
	};
	interleave(s);
	r[0].all(p[0]);
	r[1].all(p[1]);
	EVA<RecIO> e0(&io[0]), e1(&io[1]);
	EVA<RecIO> *eva[2] = {&e0, &e1};
	EvaProt ep0(gp0.zeros, g0.delta), ep1(gp1.zeros, g1.delta);
	EvaProt *ep[2] = {&ep0, &ep1};
	Session e[2] = {{eva[0], ep[0]}, {eva[1], ep[1]}};
	interleave(e);
	for (int k = 0; k < 2; ++k) {
		check_wires(r[k].w, s[k].w, e[k].w, gen[k]->delta, LSB0);
		REQUIRE(gen[k]->num_and() == rx[k].ands && eva[k]->num_and() == rx[k].ands, "session %d: AND count", k);
		REQUIRE(io[k].taken() == io[k].sent(), "session %d: unread bytes", k);
	}
	g.nontrivial(rx[0].ands && rx[1].ands);
}

SUBCHECK(gate_exhaustive, 64000, 1000000, "one AND gate: all values and colour bits of both labels and random labels, at a position 0..20 in the session; all non-trivial") {
	seed_rd(g);
	bool va = g.each(1), vb = g.each(1), ca = g.each(1), cb = g.each(1), eq = g.each(1);
	size_t before = g.draw(20);
	g.note("values %d %d colours %d %d same %d position %zu", va, vb, ca, cb, eq, before);
	g.nontrivial();
	if (LSB0) ca = cb = false;
	RecIO io;
	GEN<RecIO> gen(&io);
	block a = gen_block(g), b = gen_block(g);
	a = mkblk(bhi(a), (blo(a) & ~1ULL) | ca);
	b = mkblk(bhi(b), (blo(b) & ~1ULL) | cb);
	if (eq) b = a, vb = va;
	for (size_t i = 0; i < before; ++i) gen.and_gate(a, b);
	block z = gen.and_gate(a, b);
	EVA<RecIO> eva(&io);
	block ea = va ? bxor(a, gen.delta) : a, eb = vb ? bxor(b, gen.delta) : b;
	for (size_t i = 0; i < before; ++i) eva.and_gate(ea, eb);
	block o = eva.and_gate(ea, eb);
	REQUIRE(same(o, va && vb ? bxor(z, gen.delta) : z), "output label");
	block x = gen.xor_gate(a, b), xe = eva.xor_gate(ea, eb);
	REQUIRE(same(xe, va != vb ? bxor(x, gen.delta) : x), "xor label");
	block n = gen.not_gate(a), ne = eva.not_gate(ea);
	REQUIRE(same(ne, !va ? bxor(n, gen.delta) : n), "not label");
	REQUIRE(io.taken() == io.sent(), "free gates sent something");
}
#ifndef NO_WHITEBOX
SUBCHECK(far_position, 20000, 400000, "a session moved to gate position up to 2^61, then up to 40 AND gates of chosen values and colours; every output label compared; non-trivial: a position of at least 2^31") {
	seed_rd(g);
	u64 pos = g.chance(1, 8) ? g.draw(1000) : g.chance(1, 2) ? g.draw((1ULL << 61) - 1) : (1ULL << g.draw(61)) - std::min<u64>(1ULL << 3, g.draw(40));
	pos &= (1ULL << 61) - 1;
	if (PER_AND == 2) pos &= ~3ULL;
	size_t n = 1 + g.draw(39);
	g.note("position %llu, %zu gates", (unsigned long long)pos, n);
	g.nontrivial(pos >> 31);
	RecIO io;
	GEN<RecIO> gen(&io);
	EVA<RecIO> eva(&io);
	go_to(gen, pos);
	go_to(eva, pos);
	pbt::Rng r(g.draw(0xffffffff));
	for (size_t i = 0; i < n; ++i) {
		block a = mkblk(r.next(), r.next() & ~(u64)LSB0), b = mkblk(r.next(), r.next() & ~(u64)LSB0);
		bool va = r.next() & 1, vb = r.next() & 1;
		block z = gen.and_gate(a, b), o = eva.and_gate(va ? bxor(a, gen.delta) : a, vb ? bxor(b, gen.delta) : b);
		REQUIRE(same(o, va && vb ? bxor(z, gen.delta) : z), "gate %zu after position %llu: output label", i, (unsigned long long)pos);
	}
}
#endif
PBT_MAIN
