// With THREADING, each thread has its own backend.
#include "acts.hpp"
static std::vector<bool> ref_run(const Prog &p) {
	RefExec rx; RefProt rp;
	Session r(&rx, &rp);
	r.all(p);
	std::vector<bool> v;
	for (auto &b : r.w) v.push_back(blo(b.bit));
	return v;
}
struct Job { int kind; Prog p; std::vector<bool> want; u64 seed; unsigned yields; std::string problem; };
enum { J_PLAIN, J_HALF, J_PF, J_REF, J_IDLE };
static const char *jobn[] = {"plain", "half-gates", "privacy-free", "counting", "idle"};
template <template <class> class GEN, template <class> class EVA> static void garbled(Job &j, bool lsb0) {
	RecIO io;
	GEN<RecIO> gen(&io);
	block delta = gen.delta;
	GenProt gp(j.seed, lsb0);
	std::vector<Bit> gw, ew;
	CircuitExecution::circ_exec = &gen;
	ProtocolExecution::prot_exec = &gp;
	for (size_t i = 0; i < j.p.s.size(); ++i) { do_step(j.p.s[i], gw); if ((j.yields >> (i % 32)) & 1) std::this_thread::yield(); }
	REQUIRE(CircuitExecution::circ_exec == &gen && ProtocolExecution::prot_exec == &gp, "the backend of this thread was replaced");
	EVA<RecIO> eva(&io);
	EvaProt ep(gp.zeros, delta);
	CircuitExecution::circ_exec = &eva;
	ProtocolExecution::prot_exec = &ep;
	for (size_t i = 0; i < j.p.s.size(); ++i) { do_step(j.p.s[i], ew); if ((j.yields >> (i % 32)) & 1) std::this_thread::yield(); }
	REQUIRE(CircuitExecution::circ_exec == &eva && ProtocolExecution::prot_exec == &ep, "the backend of this thread was replaced");
	REQUIRE(gw.size() == j.want.size() && ew.size() == j.want.size(), "wires");
	for (size_t i = 0; i < gw.size(); ++i) REQUIRE(same(ew[i].bit, j.want[i] ? bxor(gw[i].bit, delta) : gw[i].bit), "wire %zu", i);
	CircuitExecution::circ_exec = nullptr;
	ProtocolExecution::prot_exec = nullptr;
}
static void run_job(Job &j) {
	try {
		REQUIRE(CircuitExecution::circ_exec == nullptr && ProtocolExecution::prot_exec == nullptr, "a new thread already has a backend");
		switch (j.kind) {
		case J_PLAIN: {
			emp::setup_plain_prot(false, "");
			CircuitExecution *c = CircuitExecution::circ_exec;
			std::vector<Bit> w;
			for (size_t i = 0; i < j.p.s.size(); ++i) { do_step(j.p.s[i], w); if ((j.yields >> (i % 32)) & 1) std::this_thread::yield(); }
			REQUIRE(CircuitExecution::circ_exec == c, "the backend of this thread was replaced");
			REQUIRE(w.size() == j.want.size(), "wires");
			for (size_t i = 0; i < w.size(); ++i) REQUIRE(w[i].reveal<bool>(i & 1 ? PUBLIC : ALICE) == j.want[i], "wire %zu is %d", i, (int)!j.want[i]);
			emp::finalize_plain_prot();
			CircuitExecution::circ_exec = nullptr;
			ProtocolExecution::prot_exec = nullptr;
			break;
		}
		case J_HALF: garbled<emp::HalfGateGen, emp::HalfGateEva>(j, false); break;
		case J_PF: garbled<emp::PrivacyFreeGen, emp::PrivacyFreeEva>(j, true); break;
		case J_REF: {
			RefExec rx; RefProt rp;
			CircuitExecution::circ_exec = &rx;
			ProtocolExecution::prot_exec = &rp;
			std::vector<Bit> w;
			for (size_t i = 0; i < j.p.s.size(); ++i) { do_step(j.p.s[i], w); if ((j.yields >> (i % 32)) & 1) std::this_thread::yield(); }
			RefExec r2;
			Session s(&r2, &rp);
			CircuitExecution::circ_exec = nullptr;
			s.all(j.p);
			REQUIRE(rx.ands == r2.ands && rx.xors == r2.xors && rx.nots == r2.nots, "gate counts %llu/%llu/%llu, alone %llu/%llu/%llu: gates went to another backend", (unsigned long long)rx.ands, (unsigned long long)rx.xors, (unsigned long long)rx.nots, (unsigned long long)r2.ands, (unsigned long long)r2.xors, (unsigned long long)r2.nots);
			for (size_t i = 0; i < w.size(); ++i) REQUIRE((bool)blo(w[i].bit) == j.want[i], "wire %zu", i);
			break;
		}
		default:
			for (int i = 0; i < 20; ++i) { std::this_thread::yield(); REQUIRE(CircuitExecution::circ_exec == nullptr && ProtocolExecution::prot_exec == nullptr, "a thread that set no backend has one"); }
		}
	} catch (pbt::Failure &f) { j.problem = f.msg; }
}
SUBCHECK(threads, 6000, 150000, "2 to 7 threads, each with its own backend (plain, half-gates, privacy-free, counting, or none) and its own generated program, running at once; results as when run alone, backends stay in their thread, the main thread keeps its own; non-trivial: at least 2 threads compute", 30000) {
	seed_rd(g);
	size_t n = 2 + g.draw(5);
	std::vector<Job> js(n);
	int comp = 0;
	for (auto &j : js) {
		j.kind = (int)g.weighted({3, 3, 2, 2, 1});
		j.p = gen_prog(g, 25);
		j.seed = g.draw(0xffffffff);
		j.yields = (unsigned)g.draw(0xffffffff);
		if (j.kind == J_PF) { /* any program */ }
		g.note("%s[%s] ", jobn[j.kind], j.p.str().substr(0, 150).c_str());
		if (j.kind != J_IDLE) { j.want = ref_run(j.p); ++comp; }
	}
	g.nontrivial(comp >= 2);
	RefExec mine; RefProt mp;
	CircuitExecution::circ_exec = &mine;
	ProtocolExecution::prot_exec = &mp;
	std::vector<std::thread> ts;
	for (auto &j : js) ts.emplace_back([&j] { run_job(j); });
	for (auto &t : ts) t.join();
	bool kept = CircuitExecution::circ_exec == &mine && ProtocolExecution::prot_exec == &mp;
	Session::leave();
	for (size_t i = 0; i < n; ++i) REQUIRE(js[i].problem.empty(), "thread %zu (%s): %s", i, jobn[js[i].kind], js[i].problem.c_str());
	REQUIRE(kept, "the main thread lost its backend");
	REQUIRE(mine.ands + mine.xors + mine.nots == 0, "gates of other threads went to the main thread's backend");
}
SUBCHECK(library, 300, 8000, "2 to 6 threads, each running 1 to 4 uses of any object of the library (channels, pools, groups, hashes, circuits, recording, garbling, generators, integers, sorting, floats); each use computes what it computes alone; non-trivial: at least 2 threads use the same kind", 60000) {
	size_t n = 2 + g.draw(4);
	std::vector<std::vector<Act>> v(n);
	std::vector<std::vector<u64>> want(n), got(n);
	std::vector<std::string> problem(n);
	std::map<int, std::set<size_t>> users;
	bool same_kind = false;
	stub_keccak();
	bool focus = g.coin();
	int kind = 0;
	for (size_t t = 0; t < n; ++t) {
		size_t k = 1 + g.draw(3);
		for (size_t i = 0; i < k; ++i) {
			v[t].push_back(gen_act(g));
			if (t == 0 && i == 0) kind = v[0][0].kind;
			if (focus) v[t][i].kind = kind;
			users[v[t][i].kind].insert(t);
			same_kind |= users[v[t][i].kind].size() > 1;
		}
		g.note("| ");
	}
	if (focus) g.note("all %s", an[kind]);
	g.nontrivial(same_kind);
	for (size_t t = 0; t < n; ++t) for (auto &a : v[t]) want[t].push_back(act(a));
	std::vector<std::thread> ts;
	for (size_t t = 0; t < n; ++t) ts.emplace_back([&, t] {
		try { for (auto &a : v[t]) got[t].push_back(act(a)); } catch (pbt::Failure &f) { problem[t] = f.msg; }
	});
	for (auto &t : ts) t.join();
	for (size_t t = 0; t < n; ++t) {
		REQUIRE(problem[t].empty(), "thread %zu: %s", t, problem[t].c_str());
		for (size_t i = 0; i < v[t].size(); ++i) REQUIRE(got[t][i] == want[t][i], "thread %zu, use %zu (%s): another result than alone", t, i, an[v[t][i].kind]);
	}
}
PBT_MAIN

