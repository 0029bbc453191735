// An independent circuit representation, reader, writer and evaluator.
#pragma once
#include <atomic>
#include "gc.hpp"
#include <sstream>
struct Gate { int t, a, b, o; };  // t: 0 AND 1 XOR 2 INV 3 OR
struct Circ {
	int nw = 0, nin = 0, nout = 0;
	std::vector<Gate> g;
	std::vector<bool> eval(const std::vector<bool> &in) const {
		std::vector<bool> w(nw);
		for (int i = 0; i < nin; ++i) w[i] = in[i];
		for (auto &x : g) {
			bool a = w[x.a], b = x.t == 2 ? false : (bool)w[x.b];
			w[x.o] = x.t == 0 ? a && b : x.t == 1 ? a != b : x.t == 2 ? !a : a || b;
		}
		return std::vector<bool>(w.end() - nout, w.end());
	}
	size_t ands() const { size_t n = 0; for (auto &x : g) n += x.t == 0 || x.t == 3; return n; }
};
static const char *gname[] = {"AND", "XOR", "INV", "OR"};
// Strict reader of the simple format; throws Failure on anything malformed.
struct ParsedFormat { Circ c; int n1, n2, n3; long gates, wires; };
inline ParsedFormat parse_format(const std::string &txt) {
	std::istringstream is(txt);
	ParsedFormat p;
	if (!(is >> p.gates >> p.wires >> p.n1 >> p.n2 >> p.n3)) throw pbt::Failure{"circuit file: unreadable header"};
	p.c.nw = (int)p.wires; p.c.nin = p.n1 + p.n2; p.c.nout = p.n3;
	std::vector<char> def(p.wires > 0 ? p.wires : 0, 0);
	for (int i = 0; i < p.c.nin; ++i) { if (i >= p.wires) throw pbt::Failure{"circuit file: more inputs than wires"}; def[i] = 1; }
	int ni;
	long n = 0;
	while (is >> ni) {
		int no, a, b = 0, o;
		std::string t;
		if (!(is >> no) || no != 1 || (ni != 1 && ni != 2)) throw pbt::Failure{fmt("circuit file: bad arity in gate %ld", n)};
		is >> a;
		if (ni == 2) is >> b;
		if (!(is >> o >> t)) throw pbt::Failure{fmt("circuit file: gate %ld cut short", n)};
		int ty = ni == 2 ? (t == "AND" ? 0 : t == "XOR" ? 1 : -1) : (t == "INV" ? 2 : -1);
		if (ty < 0) throw pbt::Failure{fmt("circuit file: gate %ld is '%s' with %d inputs", n, t.c_str(), ni)};
		if (a < 0 || a >= p.wires || o < 0 || o >= p.wires || b < 0 || b >= p.wires) throw pbt::Failure{fmt("circuit file: gate %ld has a wire outside 0..%ld", n, p.wires - 1)};
		if (!def[a] || (ni == 2 && !def[b])) throw pbt::Failure{fmt("circuit file: gate %ld reads a wire before it is set", n)};
		if (def[o]) throw pbt::Failure{fmt("circuit file: gate %ld sets wire %d again", n, o)};
		def[o] = 1;
		p.c.g.push_back(Gate{ty, a, b, o});
		++n;
	}
	if (n != p.gates) throw pbt::Failure{fmt("circuit file: header says %ld gates, there are %ld", p.gates, n)};
	if (p.n3 > p.wires) throw pbt::Failure{"circuit file: more outputs than wires"};
	for (long i = 0; i < p.wires; ++i) if (!def[i]) throw pbt::Failure{fmt("circuit file: wire %ld of %ld is never set", i, p.wires)};
	return p;
}
inline std::string slurp(const char *f) {
	FILE *fp = fopen(f, "rb");
	if (!fp) throw pbt::Failure{fmt("no file %s", f)};
	std::string s;
	char b[65536];
	size_t k;
	while ((k = fread(b, 1, sizeof b, fp)) > 0) s.append(b, k);
	fclose(fp);
	return s;
}
struct TmpFile {
	std::string name;
	TmpFile() { static std::atomic<int> n{0}; name = fmt("/tmp/pbtc_%d_%d", (int)getpid(), n.fetch_add(1)); }
	~TmpFile() { unlink(name.c_str()); }
	const char *c() const { return name.c_str(); }
	void put(const std::string &s) { FILE *f = fopen(c(), "wb"); if (!f) throw pbt::Failure{"cannot write a scratch file"}; fwrite(s.data(), 1, s.size(), f); fclose(f); }
};
