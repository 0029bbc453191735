// Arithmetic in GF(2^128) = GF(2)[X]/(X^128+X^7+X^2+X+1).
#include "common.hpp"
struct P256 { u64 w[4]; };  // bit i = coefficient of X^i
static P256 clmul(const block &a, const block &b) {
	P256 r = {{0, 0, 0, 0}};
	u64 x[2] = {blo(a), bhi(a)}, y[2] = {blo(b), bhi(b)};
	for (int i = 0; i < 128; ++i)
		if ((x[i / 64] >> (i % 64)) & 1)
			for (int j = 0; j < 2; ++j) {
				int s = i + 64 * j;
				r.w[s / 64] ^= y[j] << (s % 64);
				if (s % 64) r.w[s / 64 + 1] ^= y[j] >> (64 - s % 64);
			}
	return r;
}
static block red(P256 p) {
	for (int i = 255; i >= 128; --i)
		if ((p.w[i / 64] >> (i % 64)) & 1) {
			static const int taps[5] = {128, 7, 2, 1, 0};
			for (int t : taps) { int s = i - 128 + t; p.w[s / 64] ^= 1ULL << (s % 64); }
		}
	return mkblk(p.w[1], p.w[0]);
}
static block fmul(const block &a, const block &b) { return red(clmul(a, b)); }
static block rev(const block &a) {
	u64 lo = 0, hi = 0;
	for (int i = 0; i < 128; ++i) {
		int bit = i < 64 ? (blo(a) >> i) & 1 : (bhi(a) >> (i - 64)) & 1;
		int j = 127 - i;
		if (bit) { if (j < 64) lo |= 1ULL << j; else hi |= 1ULL << (j - 64); }
	}
	return mkblk(hi, lo);
}
static block gfb(G &g) {
	switch (g.weighted({6, 2, 1, 1, 4})) {
	case 0: return gen_block(g);
	case 1: { unsigned i = g.draw(127); return i < 64 ? mkblk(0, 1ULL << i) : mkblk(1ULL << (i - 64), 0); }
	case 2: { unsigned i = g.draw(127); return i < 64 ? mkblk(0, (1ULL << i) - 1) : mkblk((1ULL << (i - 64)) - 1, ~0ULL); }
	case 3: return mkblk(~0ULL, ~0ULL);
	default: { u64 l = g.draw(~0ULL); return mkblk(g.draw(~0ULL), l); }
	}
}
SUBCHECK(mul, 60000, 1500000, "gfmul, gfmul_reflect, mul128, reduce and reduce_reflect of generated elements (sparse, dense, boundary) against schoolbook polynomial arithmetic, the field laws, and results stored over an operand; non-trivial: both operands have at least 2 bits set and the product needs reduction") {
	block a = gfb(g), b = gfb(g), c = gfb(g);
	g.note("a=%s b=%s c=%s", bs(a).c_str(), bs(b).c_str(), bs(c).c_str());
	P256 p = clmul(a, b);
	g.nontrivial((p.w[2] || p.w[3]) && __builtin_popcountll(blo(a)) + __builtin_popcountll(bhi(a)) > 1 && __builtin_popcountll(blo(b)) + __builtin_popcountll(bhi(b)) > 1);
	block r1, r2, r, want = red(p);
	emp::mul128(a, b, &r1, &r2);
	REQUIRE(blo(r1) == p.w[0] && bhi(r1) == p.w[1] && blo(r2) == p.w[2] && bhi(r2) == p.w[3], "mul128 gives (%s,%s)", bs(r1).c_str(), bs(r2).c_str());
	emp::gfmul(a, b, &r);
	REQUIRE(same(r, want), "gfmul gives %s, expected %s", bs(r).c_str(), bs(want).c_str());
	// any 256-bit polynomial, not only products
	P256 q = {{blo(a), bhi(a), blo(c), bhi(c)}};
	r = emp::reduce(a, c);
	REQUIRE(same(r, red(q)), "reduce(%s,%s) gives %s, expected %s", bs(a).c_str(), bs(c).c_str(), bs(r).c_str(), bs(red(q)).c_str());
	emp::gfmul_reflect(a, b, &r);
	want = rev(fmul(rev(a), rev(b)));
	REQUIRE(same(r, want), "gfmul_reflect gives %s, expected %s", bs(r).c_str(), bs(want).c_str());
	// field laws
	block ab, bc, l, m, ac, s, t;
	emp::gfmul(a, b, &ab); emp::gfmul(b, c, &bc);
	emp::gfmul(ab, c, &l); emp::gfmul(a, bc, &m);
	REQUIRE(same(l, m), "(ab)c != a(bc)");
	emp::gfmul(b, a, &t);
	REQUIRE(same(ab, t), "ab != ba");
	emp::gfmul(a, c, &ac); emp::gfmul(a, bxor(b, c), &s);
	REQUIRE(same(s, bxor(ab, ac)), "a(b+c) != ab+ac");
	emp::gfmul(a, mkblk(0, 1), &t);
	REQUIRE(same(t, a), "1 is not neutral");
	block x = a;
	emp::gfmul(x, b, &x);
	REQUIRE(same(x, ab), "gfmul over its first operand");
	x = b;
	emp::gfmul(a, x, &x);
	REQUIRE(same(x, ab), "gfmul over its second operand");
}
template <int N> static void tpl(block *res, block *nr, block *co, block *xs, block *a, block *b, block seed) {
	emp::vector_inn_prdt_sum_red<N>(res, a, b);
	emp::vector_inn_prdt_sum_no_red<N>(nr, a, b);
	emp::uni_hash_coeff_gen<N>(co, seed);
	emp::vector_self_xor<N>(xs, a);
}
SUBCHECK(vectors, 8000, 160000, "inner products (reduced and not), hash coefficients and XOR sums of vectors of 0 to 300 elements, run-time and compile-time lengths; non-trivial: length at least 2") {
	size_t n;
	bool t = g.chance(1, 4);
	static const std::vector<size_t> tn = {1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 12, 13, 16, 17, 128, 131};
	n = t ? g.of(tn) : g.chance(1, 6) ? g.size(0, 1500, {128, 256, 1024}) : g.size(0, 40, {4, 8, 16, 32});
	Heap<block> a(n + 1), b(n + 1), co(n + 1);
	for (size_t i = 0; i < n; ++i) { a[i] = gfb(g); b[i] = gfb(g); }
	block seed = gfb(g), guard = mkblk(0x1234567, 0x89abcdef);
	g.note("n=%zu seed=%s", n, bs(seed).c_str());
	g.nontrivial(n >= 2);
	block wr = mkblk(0, 0), wx = mkblk(0, 0);
	P256 wn = {{0, 0, 0, 0}};
	for (size_t i = 0; i < n; ++i) {
		P256 p = clmul(a[i], b[i]);
		for (int j = 0; j < 4; ++j) wn.w[j] ^= p.w[j];
		wx = bxor(wx, a[i]);
	}
	wr = red(wn);
	block res = guard, nr[3] = {guard, guard, guard}, xs = guard;
	for (size_t i = 0; i <= n; ++i) co[i] = guard;
	if (t) {
		switch (n) {
#define T(N) case N: tpl<N>(&res, nr, co.data(), &xs, a.data(), b.data(), seed); break;
		T(1) T(2) T(3) T(4) T(5) T(6) T(7) T(8) T(9) T(11) T(12) T(13) T(16) T(17) T(128) T(131)
		}
		g.label("compile-time length");
	} else {
		emp::vector_inn_prdt_sum_red(&res, a.data(), b.data(), (int)n);
		emp::vector_inn_prdt_sum_no_red(nr, a.data(), b.data(), (int)n);
		emp::uni_hash_coeff_gen(co.data(), seed, (int)n);
		emp::vector_self_xor(&xs, a.data(), (int)n);
	}
	REQUIRE(same(res, wr), "reduced inner product of %zu elements", n);
	REQUIRE(blo(nr[0]) == wn.w[0] && bhi(nr[0]) == wn.w[1] && blo(nr[1]) == wn.w[2] && bhi(nr[1]) == wn.w[3], "unreduced inner product of %zu elements", n);
	REQUIRE(same(nr[2], guard), "unreduced inner product writes more than two blocks");
	REQUIRE(same(xs, wx), "XOR of %zu elements", n);
	block pw = seed;
	for (size_t i = 0; i < n; ++i) {
		REQUIRE(same(co[i], pw), "coefficient %zu of %zu is %s, expected seed^%zu = %s", i, n, bs(co[i]).c_str(), i + 1, bs(pw).c_str());
		pw = fmul(pw, seed);
	}
	REQUIRE(same(co[n], guard), "coefficients written past %zu", n);
}
SUBCHECK(packing, 2500, 50000, "packing of 128 elements equals the sum of v[i]*X^i, and for 0/1 elements the integer with these bits; all non-trivial") {
	static emp::GaloisFieldPacking pk;
	Heap<block> v(128);
	bool bitsonly = g.chance(1, 3);
	u64 lo = g.u64v(), hi = g.u64v();
	for (int i = 0; i < 128; ++i) v[i] = bitsonly ? mkblk(0, i < 64 ? (lo >> i) & 1 : (hi >> (i - 64)) & 1) : gfb(g);
	g.note("%s %016llx%016llx v0=%s", bitsonly ? "bits" : "elements", (unsigned long long)hi, (unsigned long long)lo, bs(v[0]).c_str());
	g.nontrivial();
	block r;
	pk.packing(&r, v.data());
	block w = mkblk(0, 0);
	for (int i = 0; i < 128; ++i) w = bxor(w, fmul(v[i], i < 64 ? mkblk(0, 1ULL << i) : mkblk(1ULL << (i - 64), 0)));
	REQUIRE(same(r, w), "packing gives %s, expected %s", bs(r).c_str(), bs(w).c_str());
	if (bitsonly) REQUIRE(same(r, mkblk(hi, lo)), "packing of bits gives %s", bs(r).c_str());
}
SUBCHECK(vectors_large, 50, 1000, "inner products, hash coefficients and XOR sums of vectors of up to 150000 elements; non-trivial: more than 4096 elements", 60000) {
	size_t n = g.size(1000, g.chance(1, 2) ? 150000 : 20000, {65536, 32768, 131072, 4096});
	std::vector<block> a(n), b(n), co(n + 1);
	g.bytes(a.data(), n * 16);
	g.bytes(b.data(), n * 16);
	block seed = gfb(g), guard = mkblk(0x1234567, 0x89abcdef);
	g.note("n=%zu seed=%s", n, bs(seed).c_str());
	g.nontrivial(n > 4096);
	block wx = mkblk(0, 0), res = guard, nr[3] = {guard, guard, guard}, xs = guard;
	P256 wn = {{0, 0, 0, 0}};
	for (size_t i = 0; i < n; ++i) {
		P256 p = clmul(a[i], b[i]);
		for (int j = 0; j < 4; ++j) wn.w[j] ^= p.w[j];
		wx = bxor(wx, a[i]);
	}
	co[n] = guard;
	emp::vector_inn_prdt_sum_red(&res, a.data(), b.data(), (int)n);
	emp::vector_inn_prdt_sum_no_red(nr, a.data(), b.data(), (int)n);
	emp::uni_hash_coeff_gen(co.data(), seed, (int)n);
	emp::vector_self_xor(&xs, a.data(), (int)n);
	REQUIRE(same(res, red(wn)), "reduced inner product of %zu elements", n);
	REQUIRE(blo(nr[0]) == wn.w[0] && bhi(nr[0]) == wn.w[1] && blo(nr[1]) == wn.w[2] && bhi(nr[1]) == wn.w[3] && same(nr[2], guard), "unreduced inner product of %zu elements", n);
	REQUIRE(same(xs, wx), "XOR of %zu elements", n);
	block pw = seed;
	for (size_t i = 0; i < n; ++i) {
		REQUIRE(same(co[i], pw), "coefficient %zu of %zu", i, n);
		pw = fmul(pw, seed);
	}
	REQUIRE(same(co[n], guard), "coefficients written past %zu", n);
}
PBT_MAIN
