// Reading and running circuit files.
#include "circ.hpp"

struct GC { Circ c; std::vector<int> in, out; };   // group sizes
static std::vector<int> gen_groups(G &g, size_t maxn, int maxlen) {
	std::vector<int> v;
	size_t n = 1 + g.draw(maxn - 1);
	for (size_t i = 0; i < n; ++i) v.push_back((int)g.size(i ? 0 : 1, maxlen));
	return v;
}
// Gates in an order that respects their inputs, outputs last, numbering of the
// inner wires arbitrary.
static GC gen_circ(G &g, bool two_groups, bool withor, int maxgate = 60) {
	GC r;
	if (two_groups) { r.in = {(int)g.size(0, 12), 0}; r.in[1] = (int)g.size(r.in[0] ? 0 : 1, 12); r.out = {(int)g.size(0, 8)}; }
	else { r.in = gen_groups(g, 4, 9); r.out = gen_groups(g, 3, 6); }
	int ni = 0, no = 0;
	for (int x : r.in) ni += x;
	for (int x : r.out) no += x;
	int ng = (int)g.size(no, std::max(no, maxgate));
	Circ &c = r.c;
	c.nin = ni; c.nout = no; c.nw = ni + ng;
	// inner wires get a shuffled numbering; the last no gates of the list of
	// definitions define the output wires, which may be in any order too
	std::vector<int> id(ng);
	for (int i = 0; i < ng; ++i) id[i] = ni + i;
	u64 s = g.draw(0xffff);
	if (s) {
		pbt::Rng rr(s);
		for (int i = ng - 1; i > 0; --i) std::swap(id[i], id[rr.below(i + 1)]);
	}
	std::vector<int> have;
	for (int i = 0; i < ni; ++i) have.push_back(i);
	for (int i = 0; i < ng; ++i) {
		Gate x;
		x.t = (int)g.weighted({4, 4, 2, (unsigned)(withor ? 3 : 0)});
		x.a = have[have.size() - 1 - g.draw(have.size() - 1)];
		x.b = x.t == 2 ? 0 : have[have.size() - 1 - g.draw(have.size() - 1)];
		x.o = id[i];
		have.push_back(x.o);
		c.g.push_back(x);
	}
	return r;
}
static std::string ws(pbt::Rng &r, int style) {
	if (style == 0) return " ";
	static const char *w[] = {" ", "  ", "\t", "   "};
	return w[r.below(4)];
}
static std::string gates_text(const Circ &c, pbt::Rng &r, int style) {
	std::string s;
	for (auto &x : c.g) {
		s += x.t == 2 ? "1" + ws(r, style) + "1" : "2" + ws(r, style) + "1";
		s += ws(r, style) + std::to_string(x.a);
		if (x.t != 2) s += ws(r, style) + std::to_string(x.b);
		s += ws(r, style) + std::to_string(x.o) + ws(r, style) + gname[x.t];
		if (style && r.below(3) == 0) s += " ";
		s += style == 2 && r.below(4) == 0 ? "\n\n" : "\n";
	}
	if (style == 2 && !s.empty() && r.below(2)) s.pop_back();
	return s;
}
static std::string fmt_text(const GC &c, pbt::Rng &r, int style) {
	return fmt("%zu %d\n%d %d%s%d\n%s", c.c.g.size(), c.c.nw, c.in[0], c.in[1], style ? "   " : " ", c.out[0], style != 1 ? "\n" : "") + gates_text(c.c, r, style);
}
static std::string fash_text(const GC &c, pbt::Rng &r, int style) {
	std::string s = fmt("%zu %d\n%zu", c.c.g.size(), c.c.nw, c.in.size());
	for (int x : c.in) s += ws(r, style) + std::to_string(x);
	s += fmt("\n%zu", c.out.size());
	for (int x : c.out) s += ws(r, style) + std::to_string(x);
	s += style != 1 ? "\n\n" : "\n";
	return s + gates_text(c.c, r, style);
}
static std::vector<bool> rnd_in(G &g, size_t n) {
	u64 s = g.draw(0xffff);
	std::vector<bool> v(n);
	for (size_t i = 0; i < n; ++i) v[i] = s == 0 ? false : s == 1 ? true : pbt::mix64(s + i) & 1;
	return v;
}
struct Ref {
	RefExec x; RefProt p;
	Ref() { CircuitExecution::circ_exec = &x; ProtocolExecution::prot_exec = &p; }
	~Ref() { CircuitExecution::circ_exec = nullptr; ProtocolExecution::prot_exec = nullptr; }
};
static std::string desc(const GC &c) {
	std::string s = "in";
	for (int x : c.in) s += fmt(" %d", x);
	s += " out";
	for (int x : c.out) s += fmt(" %d", x);
	s += ":";
	for (auto &x : c.c.g) { if (s.size() > 500) { s += ".."; break; } s += x.t == 2 ? fmt(" %d=INV(%d)", x.o, x.a) : fmt(" %d=%s(%d,%d)", x.o, gname[x.t], x.a, x.b); }
	return s;
}
// Runs a loaded circuit on in through compute over the given backend and
// compares outputs (and the AND gates executed).
template <class RUN> static void compare(const Circ &c, const std::vector<bool> &in, RUN run, const char *what) {
	std::vector<bool> want = c.eval(in);
	{
		Ref r;
		std::vector<block> x(in.size() + 1), o(c.nout + 1, mkblk(77, 77));
		for (size_t i = 0; i < in.size(); ++i) x[i] = mkblk(0, in[i]);
		run((block *)x.data(), (block *)o.data());
		for (int i = 0; i < c.nout; ++i) REQUIRE(same(o[i], mkblk(0, want[i])), "%s: output %d is %s, expected %d", what, i, bs(o[i]).c_str(), (int)want[i]);
		REQUIRE(same(o[c.nout], mkblk(77, 77)), "%s: wrote past the outputs", what);
		for (size_t i = 0; i < in.size(); ++i) REQUIRE(same(x[i], mkblk(0, in[i])), "%s: changed its input %zu", what, i);
		REQUIRE(r.x.ands == c.ands(), "%s: executed %llu AND gates of %zu", what, (unsigned long long)r.x.ands, c.ands());
	}
	{
		Opaque e(in.size() * 7 + c.g.size());
		OpaqueProt op(&e);
		CircuitExecution::circ_exec = &e; ProtocolExecution::prot_exec = &op;
		std::vector<block> x(in.size() + 1), o(c.nout + 1);
		for (size_t i = 0; i < in.size(); ++i) x[i] = e.lab(in[i]);
		run((block *)x.data(), (block *)o.data());
		CircuitExecution::circ_exec = nullptr; ProtocolExecution::prot_exec = nullptr;
		for (int i = 0; i < c.nout; ++i) REQUIRE(e.val(o[i]) == (int)want[i], "%s over another back end: output %d is %d", what, i, e.val(o[i]));
	}
	{
		Plain pl;
		std::vector<Bit> x, o(c.nout);
		for (size_t i = 0; i < in.size(); ++i) x.push_back(Bit(in[i], i % 3 == 0 ? PUBLIC : i % 2 ? ALICE : BOB));
		run((block *)x.data(), (block *)o.data());
		for (int i = 0; i < c.nout; ++i) REQUIRE(o[i].reveal<bool>() == want[i], "%s over plain: output %d", what, i);
	}
}

SUBCHECK(format, 60000, 1200000, "a generated circuit written in the simple format (spacing varied), read and run on several inputs; object reloaded with another circuit; non-trivial: at least 2 gates and one output") {
	GC c = gen_circ(g, true, false);
	g.note("%s", desc(c).c_str());
	g.nontrivial(c.c.g.size() >= 2 && c.c.nout);
	TmpFile f;
	auto put = [&](const GC &c) { pbt::Rng r(g.draw(0xffff)); f.put(fmt_text(c, r, (int)g.draw(2))); };
	auto check = [&](emp::BristolFormat &bf, const GC &c, const char *what) {
		REQUIRE(bf.n1 == c.in[0] && bf.n2 == c.in[1] && bf.n3 == c.out[0] && bf.num_gate == (int)c.c.g.size() && bf.num_wire == c.c.nw, "%s: counts", what);
		for (size_t k = 0, n = 1 + g.draw(2); k < n; ++k) {
			auto in = rnd_in(g, c.c.nin);
			compare(c.c, in, [&](block *x, block *o) {
				// the two inputs in separate, exactly sized arrays
				Heap<block> a(c.in[0]), b(c.in[1]);
				memcpy(a.p, x, c.in[0] * sizeof(block));
				memcpy(b.p, x + c.in[0], c.in[1] * sizeof(block));
				if (c.c.nout <= c.in[0] && g.chance(1, 4)) {  // in place
					bf.compute(a.p, a.p, b.p);
					memcpy(o, a.p, c.c.nout * sizeof(block));
				} else
					bf.compute(o, a.p, b.p);
			}, what);
			g.label("runs");
		}
	};
	put(c);
	std::unique_ptr<emp::BristolFormat> bf;
	if (g.coin()) bf.reset(new emp::BristolFormat(f.c()));
	else { FILE *fp = fopen(f.c(), "r"); bf.reset(new emp::BristolFormat(fp)); fclose(fp); }
	check(*bf, c, "loaded");
	if (g.chance(1, 2)) {
		g.label("reloaded");
		GC d = gen_circ(g, true, false);
		g.note(" | then %s", desc(d).c_str());
		put(d);
		bf->from_file(f.c());
		check(*bf, d, "reloaded");
		c = d;
	}
	if (g.chance(1, 2)) {  // through the C array form
		g.label("through to_file");
		TmpFile t;
		bf->to_file(t.c(), "pfx");
		std::string s = slurp(t.c());
		auto val = [&](const char *n) {
			std::string k = std::string("int pfx_") + n + " =";
			size_t p = s.find(k);
			REQUIRE(p != std::string::npos, "to_file: no %s", n);
			return atoi(s.c_str() + p + k.size());
		};
		int ng = val("num_gate"), nw = val("num_wire"), n1 = val("n1"), n2 = val("n2"), n3 = val("n3");
		size_t p = s.find("{");
		REQUIRE(p != std::string::npos && s.find("pfx_gate_arr") != std::string::npos, "to_file: no array");
		std::vector<int> arr;
		const char *q = s.c_str() + p + 1;
		char *e;
		for (;;) {
			while (*q == ',' || isspace((unsigned char)*q)) ++q;
			long v = strtol(q, &e, 10);
			if (e == q) break;
			arr.push_back((int)v);
			q = e;
		}
		long dim = 0;
		for (size_t k = s.find('[', s.find("pfx_gate_arr")) + 1; k < s.size() && (isspace((unsigned char)s[k]) || isdigit((unsigned char)s[k])); ++k) if (isdigit((unsigned char)s[k])) dim = 10 * dim + (s[k] - '0');
		REQUIRE(dim == 0 || dim >= (long)arr.size(), "to_file: an array of %ld for %zu numbers", dim, arr.size());
		REQUIRE((int)arr.size() == 4 * ng && ng == (int)c.c.g.size(), "to_file: %zu numbers for %d gates", arr.size(), ng);
		arr.push_back(0);
		emp::BristolFormat b2(ng, nw, n1, n2, n3, arr.data());
		check(b2, c, "from the array");
	}
}
SUBCHECK(fashion, 60000, 1200000, "the same for the format with several input and output values; non-trivial: at least 2 gates and one output") {
	GC c = gen_circ(g, false, false);
	g.note("%s", desc(c).c_str());
	g.nontrivial(c.c.g.size() >= 2 && c.c.nout);
	TmpFile f;
	auto put = [&](const GC &c) { pbt::Rng r(g.draw(0xffff)); f.put(fash_text(c, r, (int)g.draw(2))); };
	auto check = [&](emp::BristolFashion &bf, const GC &c, const char *what) {
		REQUIRE(bf.num_input == c.c.nin && bf.num_output == c.c.nout && bf.num_gate == (int)c.c.g.size() && bf.num_wire == c.c.nw, "%s: counts", what);
		for (size_t k = 0, n = 1 + g.draw(2); k < n; ++k) {
			auto in = rnd_in(g, c.c.nin);
			compare(c.c, in, [&](block *x, block *o) {
				Heap<block> a(c.c.nin);
				memcpy(a.p, x, c.c.nin * sizeof(block));
				if (c.c.nout <= c.c.nin && g.chance(1, 4)) {  // in place
					bf.compute(a.p, a.p);
					memcpy(o, a.p, c.c.nout * sizeof(block));
				} else
					bf.compute(o, a.p);
			}, what);
		}
	};
	put(c);
	std::unique_ptr<emp::BristolFashion> bf;
	if (g.coin()) bf.reset(new emp::BristolFashion(f.c()));
	else { FILE *fp = fopen(f.c(), "r"); bf.reset(new emp::BristolFashion(fp)); fclose(fp); }
	check(*bf, c, "loaded");
	for (size_t k = g.draw(2); k > 0; --k) {
		g.label("reloaded");
		GC d = gen_circ(g, false, false);
		g.note(" | then %s", desc(d).c_str());
		put(d);
		if (g.coin()) bf->from_file(f.c());
		else { FILE *fp = fopen(f.c(), "r"); bf->from_file(fp); fclose(fp); }
		check(*bf, d, "reloaded");
	}
}
SUBCHECK(gate_array, 60000, 1200000, "execute_circuit on a generated gate array (AND, XOR, NOT, OR; 16-, 32- and 64-bit indices); every wire compared; non-trivial: at least 2 gates") {
	GC c = gen_circ(g, false, true);
	g.note("%s", desc(c).c_str());
	g.nontrivial(c.c.g.size() >= 2);
	Circ all = c.c;
	auto in = rnd_in(g, all.nin);
	all.nout = all.nw;
	auto want = all.eval(in);
	Ref r;
	Heap<block> w(all.nw + 1);
	for (int i = 0; i <= all.nw; ++i) w[i] = mkblk(5, 5);
	for (int i = 0; i < all.nin; ++i) w[i] = mkblk(0, in[i]);
	auto run = [&](auto z) {
		typedef decltype(z) T;
		Heap<T> a(all.g.size() * 4);
		for (size_t i = 0; i < all.g.size(); ++i) { a[4 * i] = (T)all.g[i].a; a[4 * i + 1] = (T)all.g[i].b; a[4 * i + 2] = (T)all.g[i].o; a[4 * i + 3] = (T)all.g[i].t; }
		emp::execute_circuit<T>(w.p, a.p, all.g.size());
	};
	u64 k = g.draw(2);
	if (k == 0) run((int)0); else if (k == 1) run((uint16_t)0); else run((int64_t)0);
	for (int i = 0; i < all.nw; ++i) REQUIRE(same(w[i], mkblk(0, want[i])), "wire %d", i);
	REQUIRE(same(w[all.nw], mkblk(5, 5)), "wrote past the wires");
}
SUBCHECK(large, 120, 1600, "circuits of up to 150000 gates and thousands of inputs and outputs in both formats; all non-trivial", 60000) {
	bool two = g.coin();
	GC c;
	int big = g.chance(1, 3) ? 100000 : 500;
	c.in = {(int)g.size(1, big, {65536}), (int)g.size(0, big, {65536})};
	c.out = {(int)g.size(1, std::min(big, 20000))};
	int ng = (int)g.size(c.out[0], g.chance(1, 3) ? 150000 : 20000, {1000, 10000, 65536});
	c.c.nin = c.in[0] + c.in[1]; c.c.nout = c.out[0]; c.c.nw = c.c.nin + ng;
	pbt::Rng r(g.draw(0xffffffff));
	for (int i = 0; i < ng; ++i) { int n = c.c.nin + i; c.c.g.push_back(Gate{(int)r.below(3), (int)r.below(n), (int)r.below(n), n}); }
	for (auto &x : c.c.g) if (x.t == 2) x.b = 0;
	g.note("%d gates, %d+%d inputs, %d outputs", ng, c.in[0], c.in[1], c.out[0]);
	g.nontrivial();
	auto in = rnd_in(g, c.c.nin);
	TmpFile f;
	if (two) {
		f.put(fmt_text(c, r, 0));
		emp::BristolFormat bf(f.c());
		compare(c.c, in, [&](block *x, block *o) { bf.compute(o, x, x + c.in[0]); }, "format");
	} else {
		f.put(fash_text(c, r, 0));
		emp::BristolFashion bf(f.c());
		compare(c.c, in, [&](block *x, block *o) { bf.compute(o, x); }, "fashion");
	}
}
PBT_MAIN
