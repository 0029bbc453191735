// A computation recorded as a circuit file is the same computation.
#include "circ.hpp"

struct ExProg {
	size_t n1, n2;
	std::vector<bool> in;
	Prog body;
	std::vector<size_t> outs;    // wire indices counted from the newest
	std::vector<int> batch;      // sizes of revealed groups
};
static ExProg gen_ex(G &g, size_t maxsteps) {
	ExProg e;
	e.n1 = g.size(0, 40, {32, 8, 1});
	e.n2 = g.size(e.n1 ? 0 : 1, 40, {32, 8, 1});
	for (size_t i = 0; i < e.n1 + e.n2; ++i) e.in.push_back(false);
	u64 s = g.draw(0xffffffff);
	for (size_t i = 0; i < e.in.size(); ++i) e.in[i] = pbt::mix64(s + i) & 1;
	Prog p = gen_prog(g, maxsteps, true, 40);
	for (auto &st : p.s) if (st.op != S_IN) e.body.s.push_back(st);
	size_t no = g.size(0, 40, {1, 32});
	for (size_t i = 0; i < no; ++i) e.outs.push_back(g.draw(200));
	return e;
}
// run on the current backend; returns the revealed bits
static std::vector<bool> run_ex(const ExProg &e, const std::vector<bool> &in, u64 split) {
	std::vector<Bit> w;
	std::unique_ptr<bool[]> v(new bool[in.size() + 1]);
	for (size_t i = 0; i < in.size(); ++i) v[i] = in[i];
	size_t at = 0;
	auto feed = [&](size_t n, int party) {
		while (n) {
			size_t k = split % 3 == 0 ? n : split % 3 == 1 ? 1 : std::min<size_t>(n, 1 + (split >> 2) % 7);
			split = pbt::mix64(split);
			if (k == 1) w.push_back(Bit(v[at], party));
			else { Integer x; x.init(v.get() + at, (int)k, party); for (size_t i = 0; i < k; ++i) w.push_back(x[i]); }
			at += k;
			n -= k;
		}
	};
	feed(e.n1, ALICE);
	feed(e.n2, BOB);
	for (auto &s : e.body.s) do_step(s, w);
	std::vector<bool> r;
	size_t i = 0;
	while (i < e.outs.size()) {
		size_t k = std::min<size_t>(e.outs.size() - i, 1 + split % 5);
		split = pbt::mix64(split);
		Integer x;
		for (size_t j = 0; j < k; ++j) x.bits.push_back(w[w.size() - 1 - e.outs[i + j] % w.size()]);
		if (k == 1) r.push_back(x[0].reveal<bool>(split & 1 ? PUBLIC : (split & 2 ? ALICE : BOB)));
		else for (bool b : open_bits(x)) r.push_back(b);
		i += k;
	}
	return r;
}
static std::vector<bool> ref_ex(const ExProg &e, const std::vector<bool> &in, u64 split) {
	RefExec rx; RefProt rp;
	CircuitExecution::circ_exec = &rx;
	ProtocolExecution::prot_exec = &rp;
	auto r = run_ex(e, in, split);
	CircuitExecution::circ_exec = nullptr;
	ProtocolExecution::prot_exec = nullptr;
	return r;
}
static std::vector<bool> rnd_in(G &g, size_t n) {
	u64 k = g.draw(3), s = k ? g.draw(0xffffffff) : 0;
	std::vector<bool> v(n);
	for (size_t i = 0; i < n; ++i) v[i] = k == 0 ? false : k == 1 ? true : pbt::mix64(s + i) & 1;
	return v;
}
static void one_export(G &g, const ExProg &e, const TmpFile &f) {
	u64 split = g.draw(0xffffffff);
	auto want0 = ref_ex(e, e.in, split);
	emp::setup_plain_prot(true, f.c());
	auto got0 = run_ex(e, e.in, split);
	uint64_t nand = CircuitExecution::circ_exec->num_and();
	emp::finalize_plain_prot();
	CircuitExecution::circ_exec = nullptr;
	ProtocolExecution::prot_exec = nullptr;
	REQUIRE(got0 == want0, "the recorded run itself gives a wrong result");
	std::string txt = slurp(f.c());
	ParsedFormat p = parse_format(txt);
	REQUIRE(p.n1 == (int)e.n1 && p.n2 == (int)e.n2 && p.n3 == (int)e.outs.size(), "header says %d %d %d inputs and outputs, used %zu %zu %zu", p.n1, p.n2, p.n3, e.n1, e.n2, e.outs.size());
	REQUIRE(p.c.ands() == nand, "the file has %zu AND gates, the backend counted %llu", p.c.ands(), (unsigned long long)nand);
	g.nontrivial(nand >= 1 && !e.outs.empty());
	REQUIRE(p.c.eval(e.in) == want0, "on the recorded inputs the circuit gives other outputs");
	for (int k = 0; k < 3; ++k) {
		std::vector<bool> in = rnd_in(g, e.in.size());
		auto want = ref_ex(e, in, split);
		auto got = p.c.eval(in);
		REQUIRE(got == want, "on other inputs the circuit gives other outputs");
	}
	// the library's own reader runs it too
	{
		std::vector<bool> in = rnd_in(g, e.in.size());
		auto want = ref_ex(e, in, split);
		Plain pl;
		emp::BristolFormat bf(f.c());
		REQUIRE(bf.n1 == p.n1 && bf.n2 == p.n2 && bf.n3 == p.n3 && bf.num_gate == p.gates && bf.num_wire == p.wires, "the library reads other counts");
		std::vector<Bit> x, y, o(e.outs.size());
		for (size_t i = 0; i < e.n1; ++i) x.push_back(Bit(in[i], ALICE));
		for (size_t i = 0; i < e.n2; ++i) y.push_back(Bit(in[e.n1 + i], BOB));
		bf.compute(o.data(), x.data(), y.data());
		for (size_t i = 0; i < o.size(); ++i) REQUIRE(o[i].reveal<bool>() == want[i], "the library's reader computes another output %zu", i);
	}
}
static void describe(G &g, const ExProg &e) {
	std::string o;
	for (size_t x : e.outs) { if (o.size() > 80) break; o += fmt("%zu ", x); }
	g.note("inputs %zu+%zu, %s outputs %zu: %s", e.n1, e.n2, e.body.str().c_str(), e.outs.size(), o.c_str());
}
SUBCHECK(export_circuit, 100000, 1500000, "a generated computation recorded with one input; the file re-evaluated by an independent reader on that and three other inputs and by the library's reader; non-trivial: at least one AND gate and one output") {
	ExProg e = gen_ex(g, 25);
	describe(g, e);
	TmpFile f;
	one_export(g, e, f);
}
SUBCHECK(export_again, 6000, 100000, "two or three recordings one after the other, to the same or different files; non-trivial as above") {
	size_t n = 2 + g.draw(1);
	TmpFile a, b;
	for (size_t i = 0; i < n; ++i) {
		ExProg e = gen_ex(g, 8);
		describe(g, e);
		g.note(" || ");
		one_export(g, e, g.coin() ? a : b);
	}
}
SUBCHECK(export_large, 60, 800, "computations of thousands, at times 200000, gates (64-bit multiplication and division, long chains); non-trivial as above", 60000) {
	ExProg e;
	e.n1 = 64; e.n2 = 64;
	for (size_t i = 0; i < 128; ++i) e.in.push_back(g.coin());
	size_t k = 1 + g.draw(2);
	for (size_t i = 0; i < k; ++i) {
		int op = g.of<int>({S_MUL, S_DIV, S_CHAIN, S_ADD});
		e.body.s.push_back(Step{op, (size_t)g.draw(63), (size_t)g.draw(127), 0, op == S_CHAIN ? (int)g.size(1000, g.chance(1, 3) ? 200000 : 20000, {65536, 32768, 131072}) : (int)g.of<int>({32, 64}), g.draw(0xffff)});
	}
	for (int i = 0; i < 64; ++i) e.outs.push_back(i);
	describe(g, e);
	TmpFile f;
	one_export(g, e, f);
}
// Public values fed through the protocol are constants of the recorded circuit.
SUBCHECK(fed_constants, 12000, 200000, "inputs of both parties and up to 6 public values fed through the protocol interface in one array each, combined pairwise and revealed; the file checked as above on every input (up to 64); non-trivial: at least one public value and one AND with it") {
	size_t n1 = g.size(0, 3), n2 = g.size(n1 ? 0 : 1, 3), np = g.size(0, 6);
	std::vector<char> pv(np);
	for (auto &x : pv) x = (char)g.coin();
	struct Op { int k; size_t a, b; };
	std::vector<Op> ops(g.size(1, 12));
	size_t w = n1 + n2 + np;
	bool andp = false;
	g.note("%zu+%zu inputs, public", n1, n2);
	for (char x : pv) g.note(" %d", x);
	for (auto &o : ops) {
		o = {(int)g.draw(2), (size_t)g.draw(w - 1), (size_t)g.draw(w - 1)};
		g.note(", %s %zu %zu", (const char *[]){"and", "xor", "not"}[o.k], o.a, o.b);
		andp |= o.k == 0 && ((o.a >= n1 + n2 && o.a < n1 + n2 + np) || (o.b >= n1 + n2 && o.b < n1 + n2 + np));
		++w;
	}
	g.nontrivial(np && andp);
	auto ref = [&](const std::vector<bool> &in) {
		std::vector<bool> v = in;
		for (char x : pv) v.push_back(x);
		for (auto &o : ops) v.push_back(o.k == 0 ? v[o.a] && v[o.b] : o.k == 1 ? v[o.a] != v[o.b] : !v[o.a]);
		return v;
	};
	std::vector<bool> in0;
	for (size_t i = 0; i < n1 + n2; ++i) in0.push_back(g.coin());
	auto want0 = ref(in0);
	TmpFile f;
	emp::setup_plain_prot(true, f.c());
	std::vector<block> l(n1 + n2 + np);
	Heap<bool> b(n1 + n2 + np + 1);
	for (size_t i = 0; i < l.size(); ++i) b.data()[i] = want0[i];
	if (n1) ProtocolExecution::prot_exec->feed(l.data(), ALICE, b.data(), (int)n1);
	if (n2) ProtocolExecution::prot_exec->feed(l.data() + n1, BOB, b.data() + n1, (int)n2);
	if (np) ProtocolExecution::prot_exec->feed(l.data() + n1 + n2, PUBLIC, b.data() + n1 + n2, (int)np);
	std::vector<Bit> v;
	for (auto &x : l) v.push_back(Bit(x));
	for (auto &o : ops) v.push_back(o.k == 0 ? v[o.a] & v[o.b] : o.k == 1 ? v[o.a] ^ v[o.b] : !v[o.a]);
	std::vector<bool> got0;
	for (auto &x : v) got0.push_back(x.reveal<bool>(PUBLIC));
	emp::finalize_plain_prot();
	CircuitExecution::circ_exec = nullptr;
	ProtocolExecution::prot_exec = nullptr;
	REQUIRE(got0 == want0, "the recorded run itself gives a wrong result");
	ParsedFormat p = parse_format(slurp(f.c()));
	REQUIRE(p.n1 == (int)n1 && p.n2 == (int)n2 && p.n3 == (int)v.size(), "header says %d %d %d inputs and outputs, used %zu %zu %zu", p.n1, p.n2, p.n3, n1, n2, v.size());
	for (u64 k = 0; k < 1ULL << (n1 + n2); ++k) {
		std::vector<bool> in;
		for (size_t i = 0; i < n1 + n2; ++i) in.push_back(k >> i & 1);
		REQUIRE(p.c.eval(in) == ref(in), "on input %llx the circuit gives other outputs", (unsigned long long)k);
	}
}
PBT_MAIN
