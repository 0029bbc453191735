// The multi-instance tweakable hash: every call uses fresh keys S ^ tweak.
#include "common.hpp"
#include <set>
template <int BS> struct Model {
	block S;
	u64 gid = 0;          // next tweak
	int used = BS;
	block keys[BS];
	void renew() { for (int i = 0; i < BS; ++i) keys[i] = mkblk(bhi(S) ^ gid++, blo(S)); used = 0; }
	block key(int) { return keys[used]; }
};
template <int BS, int K, int H> static void call(G &g, emp::MITCCRH<BS> &h, Model<BS> &m, bool cir, std::set<std::pair<u64, u64>> &seen) {
	Heap<block> b(K * H);
	std::vector<block> in(K * H);
	u64 kind = g.draw(2);
	if (kind == 0) for (auto &x : in) x = gen_block(g);
	else if (kind == 1) { block c = gen_block(g); for (auto &x : in) x = c; }
	else g.bytes(in.data(), in.size() * 16);
	memcpy(b.p, in.data(), in.size() * 16);
	if (cir) h.template hash_cir<K, H>(b.p);
	else h.template hash<K, H>(b.p);
	if (m.used + K > BS) m.renew();
	for (int k = 0; k < K; ++k) {
		block key = m.keys[m.used + k];
		REQUIRE(seen.insert({bhi(key), blo(key)}).second, "reference model reuses a key");
		RefAES r(key);
		for (int j = 0; j < H; ++j) {
			block x = in[k * H + j];
			if (cir) x = ref_sigma(x);
			block w = bxor(r.enc(x), x);
			REQUIRE(same(b[k * H + j], w), "hash<%d,%d>: block %d,%d is %s, expected %s", K, H, k, j, bs(b[k * H + j]).c_str(), bs(w).c_str());
		}
	}
	m.used += K;
}
template <int BS> static void history(G &g) {
	emp::MITCCRH<BS> h;
	Model<BS> m;
	std::set<std::pair<u64, u64>> seen;
	m.S = gen_block(g);
	h.setS(m.S);
	g.note("batch %d S %s: ", BS, bs(m.S).c_str());
	size_t n = g.size(1, 24, {4, 8}), calls = 0;
	for (size_t i = 0; i < n; ++i) {
		u64 op = g.weighted({30, 2, 2});
		if (op == 1) {
			m.S = gen_block(g);
			h.setS(m.S);
			m.used = BS;
			seen.clear();
			g.note("setS ");
		} else if (op == 2) {
			u64 v = g.chance(1, 2) ? g.draw(100) : g.u64v();
			h.renew_ks(v);
			m.gid = v;
			m.renew();
			seen.clear();
			g.note("renew(%llu) ", (unsigned long long)v);
		} else {
			bool cir = g.coin();
			u64 k = g.draw(8);
			g.note("%s%d ", cir ? "cir" : "hash", (int)k);
			++calls;
			switch (k) {
			case 0: call<BS, 2, 1>(g, h, m, cir, seen); break;
			case 1: call<BS, 2, 2>(g, h, m, cir, seen); break;
			case 2: call<BS, 1, 1>(g, h, m, cir, seen); break;
			case 3: call<BS, 4, 1>(g, h, m, cir, seen); break;
			case 4: call<BS, 4, 2>(g, h, m, cir, seen); break;
			case 5: call<BS, BS, 1>(g, h, m, cir, seen); break;
			case 6: call<BS, BS, 2>(g, h, m, cir, seen); break;
			case 7: call<BS, 1, 4>(g, h, m, cir, seen); break;
			default: call<BS, 2, 3>(g, h, m, cir, seen);
			}
		}
	}
	g.nontrivial(calls >= 3);
}
SUBCHECK(history8, 60000, 1200000, "up to 24 calls of mixed widths, start-point changes and tweak changes on the default batch of 8, each output compared with AES under S ^ tweak; non-trivial: at least 3 calls") { history<8>(g); }
SUBCHECK(history4, 20000, 300000, "the same with a batch of 4; non-trivial: at least 3 calls") { history<4>(g); }
SUBCHECK(history16, 20000, 300000, "the same with a batch of 16; non-trivial: at least 3 calls") { history<16>(g); }
SUBCHECK(no_reuse, 2000, 30000, "one constant input hashed up to 3000 times from any starting tweak: all outputs differ; non-trivial: at least 20 calls") {
	emp::MITCCRH<8> h;
	h.setS(gen_block(g));
	block c = gen_block(g);
	u64 start = g.u64v();
	bool set = g.coin();
	if (set) h.renew_ks(start);
	size_t n = g.size(2, 3000, {256, 1024});
	g.note("%zu calls, start %llu", n, set ? (unsigned long long)start : 0ULL);
	g.nontrivial(n >= 20);
	std::set<std::pair<u64, u64>> seen;
	bool two = g.coin();
	for (size_t i = 0; i < n; ++i) {
		block b[2] = {c, c};
		if (two) h.hash<2, 1>(b); else h.hash<1, 1>(b);
		for (int k = 0; k <= (int)two; ++k) REQUIRE(seen.insert({bhi(b[k]), blo(b[k])}).second, "call %zu: same output as before for the same input", i);
	}
}
SUBCHECK(parties_agree, 20000, 300000, "the garbler hashes two blocks per key, the evaluator one: with the same call sequence both see the same keys; non-trivial: at least 5 calls") {
	emp::MITCCRH<8> a, b;
	block S = gen_block(g);
	a.setS(S);
	b.setS(S);
	size_t n = g.size(1, 40, {4, 8});
	g.note("%zu calls", n);
	g.nontrivial(n >= 5);
	for (size_t i = 0; i < n; ++i) {
		block x[4], y[2];
		g.bytes(x, 64);
		bool p = g.coin(), q = g.coin();
		y[0] = x[p];
		y[1] = x[2 + q];
		a.hash_cir<2, 2>(x);
		b.hash_cir<2, 1>(y);
		REQUIRE(same(y[0], x[p]) && same(y[1], x[2 + q]), "call %zu", i);
	}
}
PBT_MAIN
