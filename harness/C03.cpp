// Oblivious selection, swapping and sorting.
#include "lanes.hpp"

SUBCHECK(bit_ops, 64, 64, "all values and owners of three bits; every gate-level operator; all non-trivial") {
	Backend pl(g);
	bool a = g.each(1), b = g.each(1), s = g.each(1);
	int pa = (int)g.each(1) * ALICE, pb = (int)g.each(1) * BOB, ps = (int)g.each(1) * BOB;
	g.note("a=%d b=%d sel=%d owners %d %d %d", a, b, s, pa, pb, ps);
	g.nontrivial();
	Bit x(a, pa), y(b, pb), sel(s, ps);
	REQUIRE((x & y).reveal<bool>() == (a && b), "and");
	REQUIRE((x | y).reveal<bool>() == (a || b), "or");
	REQUIRE((x ^ y).reveal<bool>() == (a != b), "xor");
	REQUIRE((x == y).reveal<bool>() == (a == b), "==");
	REQUIRE((x != y).reveal<bool>() == (a != b), "!=");
	REQUIRE((!x).reveal<bool>() == !a, "not");
	REQUIRE(x.select(sel, y).reveal<bool>() == (s ? b : a), "select");
	REQUIRE(emp::If(sel, x, y).reveal<bool>() == (s ? a : b), "If");
	REQUIRE(x.reveal<std::string>() == (a ? "true" : "false"), "string");
	Bit p = x, q = y;
	emp::swap(sel, p, q);
	REQUIRE(p.reveal<bool>() == (s ? b : a) && q.reveal<bool>() == (s ? a : b), "swap");
	p = x;
	p ^= y;
	REQUIRE(p.reveal<bool>() == (a != b), "xor-assign");
	REQUIRE(x.reveal<bool>() == a && y.reveal<bool>() == b && sel.reveal<bool>() == s, "operand changed");
}

SUBCHECK(swap, 60000, 1000000, "conditional swap of two integers or floats; non-trivial: the values differ") {
	Backend pl(g);
	bool s = g.coin();
	Bit sel(s, gen_party(g));
	if (g.chance(1, 3)) {
		uint32_t a = (uint32_t)g.u64v(), b = (uint32_t)g.u64v();
		g.note("floats %08x %08x sel %d", a, b, s);
		g.nontrivial(a != b);
		float fa, fb;
		memcpy(&fa, &a, 4);
		memcpy(&fb, &b, 4);
		Float x(fa, gen_party(g)), y(fb, gen_party(g));
		auto open = [](const Float &f) { uint32_t v = 0; for (int i = 0; i < 32; ++i) v |= (uint32_t)f[i].reveal<bool>() << i; return v; };
		REQUIRE(open(x) == a && open(y) == b, "float input");
		Float c = emp::If(sel, x, y);
		REQUIRE(open(c) == (s ? a : b), "If");
		emp::swap(sel, x, y);
		REQUIRE(open(x) == (s ? b : a) && open(y) == (s ? a : b), "swap");
		return;
	}
	size_t n = (size_t)g.size(1, 100, {32, 64});
	Bits a = gen_bits(g, n), b = gen_bits(g, n);
	g.note("width %zu: %s %s sel %d", n, sbits(a).c_str(), sbits(b).c_str(), s);
	g.nontrivial(a != b);
	Integer x = gen_int(g, a), y = gen_int(g, b);
	emp::swap(sel, x, y);
	REQUIRE(open_bits(x) == (s ? b : a) && open_bits(y) == (s ? a : b), "swap");
	emp::swap(sel, x, x);
	REQUIRE(open_bits(x) == (s ? b : a), "swap of a value with itself");
	Integer z = y;
	emp::swap(sel, z, y);
	REQUIRE(open_bits(y) == (s ? a : b) && open_bits(z) == (s ? a : b), "swap of equal values");
}

static int64_t sval(const Bits &b) {
	int64_t v = 0;
	for (size_t i = 0; i < b.size(); ++i) v |= (int64_t)b[i] << i;
	if (b.back()) v |= ~(int64_t)0 << (b.size() - 1) << 1 | (b.size() < 64 ? ~(int64_t)0 << b.size() : 0);
	return v;
}
SUBCHECK(sort_pairs, 24000, 400000, "0..70 keys with many ties, with and without payload, either direction (public or secret); non-trivial: at least 3 keys not already in order") {
	Backend pl(g);
	size_t n = (size_t)g.size(0, 70, {7, 8, 9, 15, 16, 17, 31, 32, 33, 64});
	size_t w = (size_t)g.of<int>({8, 2, 1, 3, 16, 32, 40});
	int pay = (int)g.draw(3);   // 0 none, 1 integer, 2 bit, 3 float
	bool acc = !g.chance(1, 3);
	bool dflt = acc && g.chance(1, 3);
	u64 shape = g.weighted({5, 1, 1, 1, 1});
	std::vector<Bits> k(n);
	for (auto &x : k) x = gen_bits(g, w);
	if (shape) std::sort(k.begin(), k.end(), [&](const Bits &a, const Bits &b) { return shape == 2 ? sval(b) < sval(a) : sval(a) < sval(b); });
	if (shape == 3 && n > 1) std::swap(k[0], k[n - 1]);
	if (shape == 4) std::reverse(k.begin() + n / 2, k.end());
	std::vector<Integer> key, pi;
	std::vector<Bit> pb;
	std::vector<Float> pf;
	std::vector<std::pair<int64_t, u64>> in, out;
	for (size_t i = 0; i < n; ++i) {
		key.push_back(gen_int(g, k[i]));
		u64 tag = i + 1;
		if (pay == 1) pi.push_back(Integer(12, (int64_t)tag, i % 3));
		else if (pay == 2) { tag = g.coin(); pb.push_back(Bit(tag, i % 3)); }
		else if (pay == 3) { float f = 1.5f * tag; pf.push_back(Float(f, i % 3)); uint32_t t; memcpy(&t, &f, 4); tag = t; }
		else tag = 0;
		in.push_back({sval(k[i]), tag});
	}
	g.note("%zu keys of %zu bits, payload %d, %s:", n, w, pay, acc ? "ascending" : "descending");
	for (auto &p : in) g.note(" %lld", (long long)p.first);
	bool ordered = true;
	for (size_t i = 1; i < n; ++i) if (acc ? in[i - 1].first > in[i].first : in[i - 1].first < in[i].first) ordered = false;
	g.nontrivial(n >= 3 && !ordered);
	g.label(fmt("payload %d", pay));
	g.label((n & (n - 1)) ? "length not a power of two" : "length a power of two");
	Bit dir(acc, gen_party(g));
	// sort a sub-range of exactly n elements; sentinels around it must not move
	std::vector<Integer> kk;
	kk.push_back(Integer((int)w, -1, PUBLIC));
	for (auto &x : key) kk.push_back(x);
	kk.push_back(Integer((int)w, 0, PUBLIC));
	if (pay == 0) { if (dflt) emp::sort(kk.data() + 1, (int)n); else emp::sort(kk.data() + 1, (int)n, (Bit *)nullptr, dir); }
	else if (pay == 1) { if (dflt) emp::sort(kk.data() + 1, (int)n, pi.data()); else emp::sort(kk.data() + 1, (int)n, pi.data(), dir); }
	else if (pay == 2) emp::sort(kk.data() + 1, (int)n, pb.data(), dir);
	else emp::sort(kk.data() + 1, (int)n, pf.data(), dir);
	REQUIRE(sval(open_bits(kk[0])) == -1 && sval(open_bits(kk[n + 1])) == 0, "element outside the range changed");
	for (size_t i = 0; i < n; ++i) {
		u64 t = 0;
		if (pay == 1) t = pi[i].reveal<uint64_t>();
		else if (pay == 2) t = pb[i].reveal<bool>();
		else if (pay == 3) for (int b = 0; b < 32; ++b) t |= (u64)pf[i][b].reveal<bool>() << b;
		out.push_back({sval(open_bits(kk[i + 1])), t});
	}
	for (size_t i = 1; i < n; ++i)
		REQUIRE(acc ? out[i - 1].first <= out[i].first : out[i - 1].first >= out[i].first, "not sorted at %zu: %lld %lld", i, (long long)out[i - 1].first, (long long)out[i].first);
	std::sort(in.begin(), in.end());
	std::sort(out.begin(), out.end());
	REQUIRE(in == out, "result is not a permutation of the (key, payload) pairs");
}

SUBCHECK(sort_large, 400, 8000, "70..3000 keys with payload, random or 0/1 valued; non-trivial: all") {
	Backend pl(g);
	size_t n = (size_t)g.size(70, 3000, {127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 2047, 2048, 2049});
	bool acc = g.coin(), bin = g.coin();
	u64 seed = g.draw(0xffffffff);
	g.note("%zu %s keys, seed %llu, %s", n, bin ? "0/1" : "12-bit", (unsigned long long)seed, acc ? "ascending" : "descending");
	g.nontrivial();
	pbt::Rng r(seed);
	size_t cut = bin ? r.below(n + 1) : 0;
	std::vector<Integer> k, d;
	std::vector<std::pair<int, int>> in, out;
	for (size_t i = 0; i < n; ++i) {
		int v = bin ? (int)(r.below(n) < cut) : (int)r.below(4000) - 2000;
		k.push_back(Integer(12, v, (int)(i % 3)));
		d.push_back(Integer(13, (int)i, PUBLIC));
		in.push_back({v, (int)i});
	}
	emp::sort(k.data(), (int)n, d.data(), Bit(acc, ALICE));
	for (size_t i = 0; i < n; ++i) out.push_back({(int)sval(open_bits(k[i])), d[i].reveal<int32_t>()});
	for (size_t i = 1; i < n; ++i) REQUIRE(acc ? out[i - 1].first <= out[i].first : out[i - 1].first >= out[i].first, "not sorted at %zu", i);
	std::sort(in.begin(), in.end());
	std::sort(out.begin(), out.end());
	REQUIRE(in == out, "result is not a permutation of the (key, payload) pairs");
}

SUBCHECK(zero_one, 32, 32, "every 0/1 key vector of one length up to 15, either direction; non-trivial: length >= 3") {
	Backend pl(g);
	size_t n = g.each(15);
	bool acc = g.each(1) == 0;
	g.note("all 0/1 inputs of length %zu, %s", n, acc ? "ascending" : "descending");
	g.nontrivial(n >= 3);
	for (u64 m = 0; m < (1ULL << n); ++m) {
		std::vector<Integer> k;
		for (size_t i = 0; i < n; ++i) k.push_back(Integer(2, (int64_t)((m >> i) & 1), ALICE));
		emp::sort(k.data(), (int)n, (Bit *)nullptr, Bit(acc, PUBLIC));
		size_t ones = __builtin_popcountll(m);
		for (size_t i = 0; i < n; ++i) {
			bool w = acc ? i >= n - ones : i < ones;
			REQUIRE((k[i].reveal<uint32_t>() == 1) == w, "input %llx wrong at %zu", (unsigned long long)m, i);
		}
	}
}
SUBCHECK(zero_one_lanes, 48, 60, "every 0/1 key vector of one length up to 18 (thorough: 22), ascending, descending or the direction secret; by the 0-1 principle these lengths sort correctly for all keys; non-trivial: length >= 3", 60000, 0, true) {
	LaneBackend lb;
	size_t n = g.each(19);
	int dir = (int)g.each(2);   // 0 ascending, 1 descending, 2 differs between computations
	if (n == 19) n = 22;
	g.note("all 0/1 inputs of length %zu, %s", n, (const char *[]){"ascending", "descending", "either"}[dir]);
	g.nontrivial(n >= 3);
	for (u64 m = 0; m < (1ULL << n); m += 128) {
		Bit acc;
		u64 up[128];
		for (u64 j = 0; j < 128; ++j) up[j] = dir == 0 ? 1 : dir == 1 ? 0 : pbt::mix64(m + j) & 1;
		to_lanes(up, &acc, 1);
		std::vector<Integer> k(n + 1);
		for (size_t i = 0; i < n; ++i) {
			u64 v[128];
			for (u64 j = 0; j < 128; ++j) v[j] = (m + j) >> i & 1;
			k[i] = lane_int(v, 2);
		}
		emp::sort(k.data(), (int)n, (Bit *)nullptr, acc);
		for (size_t i = 0; i < n; ++i) {
			u64 v[128];
			from_lanes(k[i].bits.data(), v, 2);
			for (u64 j = 0; j < 128; ++j) {
				size_t ones = (size_t)__builtin_popcountll((m + j) & ((1ULL << n) - 1));
				REQUIRE(v[j] == (up[j] ? i >= n - ones : i < ones), "input %llx (%s) wrong at %zu", (unsigned long long)(m + j), up[j] ? "ascending" : "descending", i);
			}
		}
	}
}
SUBCHECK(sort_lanes, 3000, 60000, "128 arrays of one length up to 150 at once: keys of 1 to 10 bits (ties), payloads, each array with its own secret direction; non-trivial: length >= 3", 60000) {
	LaneBackend lb;
	size_t n = g.size(0, 150, {8, 16, 32, 64, 128}), kw = 1 + g.draw(9);
	u64 seed = g.draw(~0ULL);
	bool pay = g.coin();
	g.note("%zu keys of %zu bits%s", n, kw, pay ? ", payload" : "");
	g.nontrivial(n >= 3);
	pbt::Rng r(seed);
	Bit acc;
	u64 up[128];
	for (auto &u : up) u = r.below(2);
	to_lanes(up, &acc, 1);
	std::vector<std::vector<u64>> key(n, std::vector<u64>(128));
	std::vector<Integer> k(n + 1), d(n + 1);
	for (size_t i = 0; i < n; ++i) {
		u64 id[128];
		for (int j = 0; j < 128; ++j) { key[i][j] = r.next() & ((1ULL << kw) - 1); id[j] = i; }
		k[i] = lane_int(key[i].data(), kw);
		d[i] = lane_int(id, 8);
	}
	if (pay) emp::sort(k.data(), (int)n, d.data(), acc); else emp::sort(k.data(), (int)n, (Integer *)nullptr, acc);
	std::vector<std::vector<u64>> ok(n, std::vector<u64>(128)), od(n, std::vector<u64>(128));
	for (size_t i = 0; i < n; ++i) { from_lanes(k[i].bits.data(), ok[i].data(), kw); from_lanes(d[i].bits.data(), od[i].data(), 8); }
	for (int j = 0; j < 128; ++j) {
		std::vector<int64_t> a, b;
		std::vector<char> seen(n);
		auto sg = [&](u64 v) { return (int64_t)(v << (64 - kw)) >> (64 - kw); };
		for (size_t i = 0; i < n; ++i) { a.push_back(sg(key[i][j])); b.push_back(sg(ok[i][j])); }
		std::sort(a.begin(), a.end());
		if (!up[j]) std::reverse(a.begin(), a.end());
		REQUIRE(a == b, "%zu keys are not sorted %s", n, up[j] ? "upwards" : "downwards");
		if (pay) for (size_t i = 0; i < n; ++i) {
			REQUIRE(od[i][j] < n && !seen[od[i][j]] && key[od[i][j]][j] == ok[i][j], "a payload is not with its key");
			seen[od[i][j]] = 1;
		}
	}
}
SUBCHECK(aliased, 30000, 500000, "the selecting bit is itself a bit of one of the values, and results are stored over operands; integers, floats and bits; non-trivial: the values differ") {
	Backend pl(g);
	int kind = (int)g.draw(6);
	if (g.chance(1, 3)) {
		uint32_t a = (uint32_t)g.u64v(), b = (uint32_t)g.u64v();
		int k = (int)g.draw(31);
		g.note("floats %08x %08x, bit %d, form %d", a, b, k, kind);
		g.nontrivial(a != b);
		float fa, fb;
		memcpy(&fa, &a, 4);
		memcpy(&fb, &b, 4);
		Float x(fa, gen_party(g)), y(fb, gen_party(g));
		auto open = [](const Float &f) { uint32_t v = 0; for (int i = 0; i < 32; ++i) v |= (uint32_t)f[i].reveal<bool>() << i; return v; };
		bool sx = a >> k & 1, sy = b >> k & 1;
		switch (kind) {
		case 0: emp::swap(x[k], x, y); REQUIRE(open(x) == (sx ? b : a) && open(y) == (sx ? a : b), "swap by a bit of the first"); break;
		case 1: emp::swap(y[k], x, y); REQUIRE(open(x) == (sy ? b : a) && open(y) == (sy ? a : b), "swap by a bit of the second"); break;
		case 2: x = emp::If(x[k], x, y); REQUIRE(open(x) == (sx ? a : b) && open(y) == b, "If by a bit of the first"); break;
		case 3: y = emp::If(y[k], x, y); REQUIRE(open(y) == (sy ? a : b) && open(x) == a, "If by a bit of the second"); break;
		case 4: x = x.If(x[k], y); REQUIRE(open(x) == (sx ? b : a) && open(y) == b, "member If by a bit of the first"); break;
		case 5: x ^= x; REQUIRE(open(x) == 0, "xor-assign with itself"); break;
		default: x = x.If(y[k], x); REQUIRE(open(x) == a && open(y) == b, "If between a value and itself");
		}
		return;
	}
	size_t n = (size_t)g.size(1, 100, {32, 64});
	Bits a = gen_bits(g, n), b = gen_bits(g, n);
	size_t k = g.draw(n - 1);
	g.note("width %zu: %s %s, bit %zu, form %d", n, sbits(a).c_str(), sbits(b).c_str(), k, kind);
	g.nontrivial(a != b);
	Integer x = gen_int(g, a), y = gen_int(g, b);
	bool sx = a[k], sy = b[k];
	switch (kind) {
	case 0: emp::swap(x[k], x, y); REQUIRE(open_bits(x) == (sx ? b : a) && open_bits(y) == (sx ? a : b), "swap by a bit of the first"); break;
	case 1: emp::swap(y[k], x, y); REQUIRE(open_bits(x) == (sy ? b : a) && open_bits(y) == (sy ? a : b), "swap by a bit of the second"); break;
	case 2: x = emp::If(x[k], x, y); REQUIRE(open_bits(x) == (sx ? a : b) && open_bits(y) == b, "If by a bit of the first"); break;
	case 3: y = emp::If(y[k], x, y); REQUIRE(open_bits(y) == (sy ? a : b) && open_bits(x) == a, "If by a bit of the second"); break;
	case 4: x = x.select(x[k], y); REQUIRE(open_bits(x) == (sx ? b : a) && open_bits(y) == b, "select by a bit of the first"); break;
	case 5: {
		size_t j = g.draw(n - 1);
		emp::swap(x[k], x[j], y[k]);   // bits of one integer: the selector may be the first operand
		Bits wa = a, wb = b;
		if (sx) { wa[j] = b[k]; wb[k] = a[j]; }
		REQUIRE(open_bits(x) == wa && open_bits(y) == wb, "swap of two bits by bit %zu", k);
		break;
	}
	default: {
		Bit p = x[k];
		p = p.select(p, p); REQUIRE(p.reveal<bool>() == sx, "a bit selected by itself from itself");
		p = p.select(p, y[k]); REQUIRE(p.reveal<bool>() == (sx ? sy : sx), "a bit selected by itself");
		p ^= p; REQUIRE(!p.reveal<bool>(), "a bit xored with itself");
	}
	}
}
PBT_MAIN
