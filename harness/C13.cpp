// The pseudorandom generator: output is a function of seed, stream id and the
// sequence of requests only.
#include "common.hpp"
#include <random>
struct Model {
	block key;
	u64 ctr = 0;
	std::vector<u64> words;  // drawn ahead by operator()
	void reseed(const block &s, u64 id) { key = mkblk(bhi(s), blo(s) ^ id); ctr = 0; words.clear(); }
	std::vector<unsigned char> take(size_t nblk) {
		RefAES a(key);
		std::vector<unsigned char> o(nblk * 16), in(nblk * 16);
		for (size_t i = 0; i < nblk; ++i) { block c = mkblk(0, ctr++); memcpy(&in[16 * i], &c, 16); }
		a.enc(o.data(), in.data(), nblk);
		return o;
	}
	u64 word() {
		if (words.empty()) {
			auto b = take(16);
			words.resize(32);
			memcpy(words.data(), b.data(), 256);
			std::reverse(words.begin(), words.end());
		}
		u64 v = words.back();
		words.pop_back();
		return v;
	}
};
struct Gen { emp::PRG p; Model m; };
static void op(G &g, Gen &x) {
	switch (g.weighted({4, 5, 5, 4, 4, 2})) {
	case 0: {
		size_t n = g.size(0, 80, {8, 16, 7, 9});
		g.note("blocks(%zu) ", n);
		auto w = x.m.take(n);
		AlignedBuf b(n * 16, 16 * g.draw(3));
		x.p.random_block((block *)b.p, (int)n);
		REQUIRE(n == 0 || memcmp(b.p, w.data(), n * 16) == 0, "random_block(%zu)", n);
		REQUIRE(b.intact(), "random_block(%zu) wrote outside", n);
		break;
	}
	case 1: {
		size_t n = g.size(0, 700, {16, 128, 256, 15, 17});
		size_t off = 16 * g.draw(3);
		g.note("data(%zu) ", n);
		auto w = x.m.take((n + 15) / 16);
		AlignedBuf b(n, off);
		x.p.random_data(b.p, (int)n);
		REQUIRE(n == 0 || memcmp(b.p, w.data(), n) == 0, "random_data(%zu)", n);
		REQUIRE(b.intact(), "random_data(%zu) wrote outside", n);
		break;
	}
	case 2: {
		size_t n = g.size(0, 700, {16, 128, 31, 32, 33}), off = g.draw(63);
		g.note("unaligned(%zu@%zu) ", n, off);
		auto w = x.m.take((n + 15) / 16);
		AlignedBuf b(n, off);
		x.p.random_data_unaligned(b.p, (int)n);
		REQUIRE(n == 0 || memcmp(b.p, w.data(), n) == 0, "random_data_unaligned(%zu) at offset %zu gives %s, expected %s", n, off, hex(b.p, n).c_str(), hex(w.data(), n).c_str());
		REQUIRE(b.intact(), "random_data_unaligned(%zu) at offset %zu wrote outside", n, off);
		break;
	}
	case 3: {
		size_t n = g.size(0, 300, {16, 8, 128}), off = g.draw(31);
		g.note("bools(%zu@%zu) ", n, off);
		auto w = x.m.take((n + 15) / 16);
		AlignedBuf b(n, off);
		x.p.random_bool((bool *)b.p, (int)n);
		for (size_t i = 0; i < n; ++i) REQUIRE(b.p[i] == (w[i] & 1), "random_bool(%zu): element %zu is %d", n, i, b.p[i]);
		REQUIRE(b.intact(), "random_bool(%zu) wrote outside", n);
		break;
	}
	case 4: {
		size_t n = g.size(1, 70, {32, 31, 33});
		g.note("words(%zu) ", n);
		for (size_t i = 0; i < n; ++i) { u64 w = x.m.word(), v = x.p(); REQUIRE(v == w, "word %zu is %016llx, expected %016llx", i, (unsigned long long)v, (unsigned long long)w); }
		break;
	}
	default: {
		block s = gen_block(g);
		u64 id = g.chance(1, 3) ? g.u64v() : g.draw(3);
		g.note("reseed(%s,%llu) ", bs(s).c_str(), (unsigned long long)id);
		unsigned char raw[40];
		size_t off = g.draw(15);
		memcpy(raw + off, &s, 16);
		if (id == 0 && g.coin()) x.p.reseed((const block *)(raw + off));
		else x.p.reseed((const block *)(raw + off), id);
		x.m.reseed(s, id);
	}
	}
}
SUBCHECK(history, 60000, 1200000, "up to 14 requests of every kind (blocks, bytes at any alignment, booleans, words, reseeding, copies) on one or two generators, each byte compared with AES counter mode; non-trivial: at least 3 requests") {
	seed_rd(g);
	block s = gen_block(g);
	int id = g.chance(1, 3) ? (int)g.irange(INT_MIN, INT_MAX) : (int)g.draw(3);
	unsigned char raw[40];
	size_t off = g.draw(15);
	memcpy(raw + off, &s, 16);
	std::vector<std::unique_ptr<Gen>> v;
	v.emplace_back(new Gen());
	v[0]->p = emp::PRG(raw + off, id);
	v[0]->m.reseed(s, (u64)(int64_t)id);
	g.note("seed %s id %d: ", bs(s).c_str(), id);
	size_t n = g.size(1, 14);
	for (size_t i = 0; i < n; ++i) {
		if (v.size() < 2 && g.chance(1, 8)) { v.emplace_back(new Gen(*v[0])); g.note("copy "); }
		Gen &x = *v[g.draw(v.size() - 1)];
		op(g, x);
	}
	g.nontrivial(n >= 3);
}
SUBCHECK(ids_differ, 20000, 300000, "two different stream ids or seeds give streams without a common block; non-trivial: same seed") {
	block s = gen_block(g), t = s;
	int i = (int)g.draw(1000), j = (int)g.draw(1000);
	if (g.chance(1, 4)) t = gen_block(g);
	if (same(mkblk(bhi(s), blo(s) ^ (u64)i), mkblk(bhi(t), blo(t) ^ (u64)j))) { if (i == j && same(s, t)) j = i + 1; else return; }
	g.note("seed %s id %d, seed %s id %d", bs(s).c_str(), i, bs(t).c_str(), j);
	g.nontrivial(same(s, t));
	emp::PRG a(&s, i), b(&t, j);
	block x[20], y[20];
	a.random_block(x, 20);
	b.random_block(y, 20);
	for (auto &p : x) for (auto &q : y) REQUIRE(!same(p, q), "a block occurs in both streams");
}
SUBCHECK(long_stream, 30, 400, "a stream of up to 3 MB in one or many requests; all non-trivial", 60000) {
	block s = gen_block(g);
	size_t n = g.size(1 << 16, 3 << 20, {1 << 20, 1 << 16});
	g.note("seed %s, %zu bytes", bs(s).c_str(), n);
	g.nontrivial();
	Model m;
	m.reseed(s, 0);
	emp::PRG p(&s);
	std::vector<unsigned char> w = m.take((n + 15) / 16);
	size_t off = g.draw(31);
	AlignedBuf b(n, off);
	p.random_data_unaligned(b.p, (int)n);
	REQUIRE(memcmp(b.p, w.data(), n) == 0, "stream differs");
	REQUIRE(b.intact(), "wrote outside");
	auto nx = m.take(1);
	block z;
	p.random_block(&z, 1);
	REQUIRE(memcmp(&z, nx.data(), 16) == 0, "the block after it differs");
}
SUBCHECK(large_requests, 300, 5000, "two or three requests of up to 200000 blocks, 3 MB or 300000 booleans each, then a word; all non-trivial", 60000) {
	block s = gen_block(g);
	g.note("seed %s: ", bs(s).c_str());
	g.nontrivial();
	Gen x;
	x.p.reseed(&s);
	x.m.reseed(s, 0);
	size_t k = 2 + g.draw(1);
	for (size_t i = 0; i < k; ++i) {
		u64 kind = g.draw(3);
		size_t n = kind == 0 ? g.size(1000, 200000, {65536, 32768, 131072}) : kind == 3 ? g.size(1000, 300000, {65536, 131072, 32768}) : g.size(10000, 3 << 20, {1 << 16, 1 << 20});
		size_t bytes = kind == 0 ? n * 16 : n;
		auto w = x.m.take((bytes + 15) / 16);
		AlignedBuf b(bytes, kind < 2 ? 16 : g.draw(15));
		g.note("%s(%zu) ", kind == 0 ? "blocks" : kind == 1 ? "data" : kind == 2 ? "unaligned" : "bools", n);
		switch (kind) {
		case 0: x.p.random_block((block *)b.p, (int)n); break;
		case 1: x.p.random_data(b.p, (int)n); break;
		case 2: x.p.random_data_unaligned(b.p, (int)n); break;
		default: x.p.random_bool((bool *)b.p, (int)n); for (auto &c : w) c &= 1;
		}
		for (size_t j = 0; j < bytes; ++j) REQUIRE(b.p[j] == w[j], "request %zu: byte %zu of %zu", i, j, bytes);
		REQUIRE(b.intact(), "request %zu wrote outside", i);
	}
	u64 v = x.p(), w = x.m.word();
	REQUIRE(v == w, "the word after them is %016llx, expected %016llx", (unsigned long long)v, (unsigned long long)w);
}
// the model as a generator of the full 64-bit range
struct FullWords {
	typedef u64 result_type;
	Model &m;
	static constexpr u64 min() { return 0; }
	static constexpr u64 max() { return ~0ULL; }
	u64 operator()() { return m.word(); }
};
SUBCHECK(as_engine, 10000, 150000, "the generator as engine of the standard library (uniform integers over ranges of any size, shuffles, reals), against the same with a full-range 64-bit engine over the expected words; non-trivial: at least 2 draws") {
	block s = gen_block(g);
	Gen x;
	x.p = emp::PRG(&s);
	x.m.reseed(s, 0);
	FullWords e{x.m};
	size_t n = g.size(1, 20);
	g.note("seed %s: ", bs(s).c_str());
	for (size_t i = 0; i < n; ++i) switch (g.draw(2)) {
	case 0: {
		u64 lo = g.u64v(), hi = g.u64v();
		if (lo > hi) std::swap(lo, hi);
		std::uniform_int_distribution<u64> a(lo, hi), b(lo, hi);
		u64 u = a(x.p), v = b(e);
		g.note("%llx..%llx ", (unsigned long long)lo, (unsigned long long)hi);
		REQUIRE(u == v && u >= lo && u <= hi, "uniform integer %016llx, expected %016llx", (unsigned long long)u, (unsigned long long)v);
		break;
	}
	case 1: {
		std::vector<int> a(g.size(0, 60));
		for (size_t k = 0; k < a.size(); ++k) a[k] = (int)k;
		std::vector<int> b = a;
		g.note("shuffle(%zu) ", a.size());
		std::shuffle(a.begin(), a.end(), x.p);
		std::shuffle(b.begin(), b.end(), e);
		REQUIRE(a == b, "shuffle");
		break;
	}
	default: {
		g.note("real ");
		double u = std::uniform_real_distribution<double>()(x.p), v = std::uniform_real_distribution<double>()(e);
		REQUIRE(u == v, "real %.17g, expected %.17g", u, v);
	}
	}
	g.nontrivial(n >= 2);
}
PBT_MAIN
