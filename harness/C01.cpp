// Integer arithmetic is two's complement modulo 2^n at every width.
#include "lanes.hpp"

static size_t gen_width(G &g) {
	return (size_t)g.size(1, 130, {8, 16, 31, 32, 33, 63, 64, 65, 127, 128});
}
static BN bn_shl1(size_t n) { BN m; BN_zero(m.n); BN_set_bit(m.n, (int)n); return m; }
static BN ref(int op, const Bits &a, const Bits &b) {
	BN x = bn_signed(a), y = bn_signed(b), r;
	switch (op) {
	case 0: BN_add(r.n, x.n, y.n); break;
	case 1: BN_sub(r.n, x.n, y.n); break;
	case 2: BN_mul(r.n, x.n, y.n, bnctx()); break;
	case 3: BN_div(r.n, nullptr, x.n, y.n, bnctx()); break;   // truncates
	case 4: BN_div(nullptr, r.n, x.n, y.n, bnctx()); break;   // sign of the dividend
	case 5: BN_zero(r.n); BN_sub(r.n, r.n, x.n); break;
	default: r = x; BN_set_negative(r.n, 0);
	}
	return r;
}
static const char *opn[] = {"+", "-", "*", "/", "%", "neg", "abs"};
static Integer app(int op, const Integer &x, const Integer &y) {
	switch (op) {
	case 0: return x + y;
	case 1: return x - y;
	case 2: return x * y;
	case 3: return x / y;
	case 4: return x % y;
	case 5: return -x;
	default: return x.abs();
	}
}
static bool is_zero(const Bits &b) { for (bool x : b) if (x) return false; return true; }

SUBCHECK(binop, 400000, 6000000, "operands of a generated width 1..130 and origin (either party, public, mixed per bit); non-trivial: width >= 2 and both operands non-zero") {
	Backend pl(g);
	int op = (int)g.weighted({3, 3, 3, 4, 4, 1, 1});
	size_t n = gen_width(g);
	Bits a = gen_bits(g, n), b = gen_bits(g, n);
	bool alias = g.chance(1, 12);
	if (alias) b = a;
	if ((op == 3 || op == 4) && is_zero(b)) { b[0] = true; if (alias) a = b; }
	g.note("width %zu: %s %s %s", n, sbits(a).c_str(), opn[op], sbits(b).c_str());
	g.label(std::string("op ") + opn[op]);
	g.label(n > 64 ? "width > 64" : n > 32 ? "width 33..64" : "width <= 32");
	g.nontrivial(n >= 2 && !is_zero(a) && !is_zero(b));
	Integer x = gen_int(g, a), y = alias ? x : gen_int(g, b);
	Integer r = alias ? app(op, x, x) : app(op, x, y);
	Bits want = bits_of(ref(op, a, b), n);
	REQUIRE(r.size() == n, "result has %zu bits", r.size());
	Bits got = open_bits(r);
	REQUIRE(got == want, "got %s want %s", sbits(got).c_str(), sbits(want).c_str());
	REQUIRE(open_bits(x) == a && open_bits(y) == b, "operand changed");
}

SUBCHECK(small_exhaustive, 84, 84, "one operation at one width 1..6, all operand pairs; non-trivial: width >= 2") {
	Backend pl(g);
	int op = (int)g.each(6);
	size_t n = 1 + g.each(5);
	bool sec = g.each(1) == 0;
	g.note("all pairs at width %zu for %s", n, opn[op]);
	g.nontrivial(n >= 2);
	for (u64 i = 0; i < (1u << n); ++i)
		for (u64 j = 0; j < (1u << n); ++j) {
			if ((op == 3 || op == 4) && j == 0) continue;
			Bits a(n), b(n);
			for (size_t k = 0; k < n; ++k) { a[k] = (i >> k) & 1; b[k] = (j >> k) & 1; }
			Bits got = open_bits(app(op, make_int(a, sec ? ALICE : PUBLIC), make_int(b, sec ? BOB : PUBLIC)));
			Bits want = bits_of(ref(op, a, b), n);
			REQUIRE(got == want, "%s %s %s: got %s want %s", sbits(a).c_str(), opn[op], sbits(b).c_str(), sbits(got).c_str(), sbits(want).c_str());
		}
}

SUBCHECK(expression, 60000, 800000, "sequences of 3..12 operations over a pool of registers of one width, results feeding later operations; non-trivial: at least 4 operations") {
	Backend pl(g);
	size_t n = (size_t)g.size(2, 40, {8, 16, 32, 33});
	size_t nr = 2 + g.draw(2), ns = 3 + g.draw(9);
	std::vector<Integer> v;
	std::vector<Bits> m;
	for (size_t i = 0; i < nr; ++i) { m.push_back(gen_bits(g, n)); v.push_back(gen_int(g, m.back())); }
	g.note("width %zu;", n);
	g.nontrivial(ns >= 4);
	for (size_t s = 0; s < ns; ++s) {
		int op = (int)g.weighted({3, 3, 3, 2, 2, 1, 1});
		size_t i = g.draw(nr - 1), j = g.draw(nr - 1), d = g.draw(nr - 1);
		if ((op == 3 || op == 4) && is_zero(m[j])) op = 0;
		g.note(" r%zu=r%zu%sr%zu", d, i, opn[op], j);
		Bits w = bits_of(ref(op, m[i], m[j]), n);
		v[d] = app(op, v[i], v[j]);
		m[d] = w;
		Bits got = open_bits(v[d]);
		REQUIRE(got == w, "step %zu %s: got %s want %s", s, opn[op], sbits(got).c_str(), sbits(w).c_str());
	}
	for (size_t i = 0; i < nr; ++i) REQUIRE(open_bits(v[i]) == m[i], "register %zu changed", i);
}

SUBCHECK(division_identity, 60000, 900000, "dividend and divisor of a generated width; a == (a/b)*b + a%b and |a%b| < |b| in the circuit's own arithmetic; non-trivial: |b| > 1") {
	Backend pl(g);
	size_t n = gen_width(g);
	Bits a = gen_bits(g, n), b = gen_bits(g, n);
	if (is_zero(b)) b[0] = true;
	g.note("width %zu: %s divmod %s", n, sbits(a).c_str(), sbits(b).c_str());
	BN one(1), bb = bn_signed(b);
	BN_set_negative(bb.n, 0);
	g.nontrivial(BN_cmp(bb.n, one.n) > 0);
	Integer x = gen_int(g, a), y = gen_int(g, b);
	Integer q = x / y, r = x % y;
	REQUIRE(open_bits(q * y + r) == a, "quotient and remainder do not recombine");
	BN rr = bn_signed(open_bits(r));
	REQUIRE(BN_is_zero(rr.n) || BN_is_negative(rr.n) == (int)a[n - 1], "remainder has the sign of the divisor");
	BN_set_negative(rr.n, 0);
	REQUIRE(BN_cmp(rr.n, bb.n) < 0, "remainder not smaller than the divisor");
}

SUBCHECK(modexp, 20000, 200000, "base, exponent and modulus with 2 <= modulus < 2^(n-1), 0 <= base < 2^(n-1); non-trivial: exponent >= 2 and base >= 2") {
	Backend pl(g);
	size_t n = 3 + g.draw(17), pn = 1 + g.draw(9);
	Bits a = gen_bits(g, n), p = gen_bits(g, pn), q = gen_bits(g, n);
	a[n - 1] = false;
	q[n - 1] = false;
	BN qq = bn_of(q);
	if (BN_is_zero(qq.n) || BN_is_one(qq.n)) { q[1] = true; qq = bn_of(q); }
	g.note("width %zu: %s ^ %s mod %s", n, sbits(a).c_str(), sbits(p).c_str(), sbits(q).c_str());
	BN r, A = bn_of(a), P = bn_of(p);
	BN_mod_exp(r.n, A.n, P.n, qq.n, bnctx());
	g.nontrivial(BN_num_bits(A.n) > 1 && BN_num_bits(P.n) > 1);
	g.label(2 * BN_num_bits(qq.n) >= (int)n ? "products exceed the width" : "products fit");
	Integer x = gen_int(g, a);
	Integer res = x.modExp(gen_int(g, p), gen_int(g, q));
	Bits got = open_bits(res), want = bits_of(r, n);
	REQUIRE(got == want, "got %s want %s", sbits(got).c_str(), sbits(want).c_str());
}
SUBCHECK(wide, 4000, 60000, "one operation at a width of up to 3000 bits (products, quotients and remainders up to 400); non-trivial: width above 130", 60000) {
	Backend pl(g);
	int op = (int)g.weighted({3, 3, 2, 2, 2, 1, 1});
	bool quad = op >= 2 && op <= 4;
	size_t n = (size_t)g.size(100, quad ? 400 : 3000, {256, 255, 512, 1024, 2048, 384});
	Bits a = gen_bits(g, n), b = gen_bits(g, n);
	if ((op == 3 || op == 4) && is_zero(b)) b[0] = true;
	if ((op == 3 || op == 4) && g.chance(1, 2)) { size_t k = g.draw(n - 1); for (size_t i = k; i < n; ++i) b[i] = false; if (is_zero(b)) b[0] = true; }
	g.note("width %zu: %s %s %s", n, sbits(a).c_str(), opn[op], sbits(b).c_str());
	g.label(std::string("op ") + opn[op]);
	g.nontrivial(n > 130);
	Integer x = gen_int(g, a), y = gen_int(g, b);
	Integer r = app(op, x, y);
	Bits want = bits_of(ref(op, a, b), n);
	REQUIRE(r.size() == n, "result has %zu bits", r.size());
	Bits got = open_bits(r);
	REQUIRE(got == want, "got %s want %s", sbits(got).c_str(), sbits(want).c_str());
	REQUIRE(open_bits(x) == a && open_bits(y) == b, "operand changed");
}
static u64 msk(u64 v, size_t n) { return n >= 64 ? v : v & ((1ULL << n) - 1); }
static int64_t sgn(u64 v, size_t n) { return (int64_t)(v << (64 - n)) >> (64 - n); }
static u64 ref64(int op, u64 a, u64 b, size_t n) {
	__int128 x = sgn(a, n), y = sgn(b, n), r;
	switch (op) {
	case 0: r = x + y; break;
	case 1: r = x - y; break;
	case 2: return msk(a * b, n);
	case 3: r = x / y; break;
	case 4: r = x % y; break;
	case 5: r = -x; break;
	default: r = x < 0 ? -x : x;
	}
	return msk((u64)r, n);
}
static void lanes128(int op, size_t n, const u64 *a, const u64 *b) {
	u64 o[128];
	Integer x = lane_int(a, n), y = lane_int(b, n), z = app(op, x, y);
	REQUIRE(z.size() == n, "%s of %zu bits has %zu bits", opn[op], n, z.size());
	from_lanes(z.bits.data(), o, n);
	for (int j = 0; j < 128; ++j) {
		if ((op == 3 || op == 4) && b[j] == 0) continue;
		u64 w = ref64(op, a[j], b[j], n);
		REQUIRE(o[j] == w, "width %zu: %llx %s %llx: got %llx want %llx", n, (unsigned long long)a[j], opn[op], (unsigned long long)b[j], (unsigned long long)o[j], (unsigned long long)w);
	}
}
SUBCHECK(lanes, 24000, 600000, "4096 operand pairs of one width up to 64 at once: any values, neighbours, multiples and near multiples of each other; one operation; non-trivial: width >= 2", 60000) {
	LaneBackend lb;
	int op = (int)g.weighted({3, 3, 3, 4, 4, 1, 1});
	size_t n = g.size(1, 64, {8, 16, 31, 32, 33, 63, 64});
	u64 seed = g.draw(~0ULL);
	g.note("width %zu, %s", n, opn[op]);
	g.nontrivial(n >= 2);
	pbt::Rng r(seed);
	for (int k = 0; k < 32; ++k) {
		u64 a[128], b[128];
		for (int j = 0; j < 128; ++j) {
			b[j] = msk(pat(r), n);
			switch (r.below(6)) {
			case 0: a[j] = msk(b[j] + r.below(5) - 2, n); break;
			case 1: a[j] = msk(b[j] * pat(r) + r.below(3) - 1, n); break;
			case 2: a[j] = msk((0 - b[j]) + r.below(5) - 2, n); break;
			default: a[j] = msk(pat(r), n);
			}
		}
		lanes128(op, n, a, b);
	}
}
SUBCHECK(exhaustive, 480, 7168, "every operand pair at every width up to 9 (thorough: 13), in parts; non-trivial: width >= 2", 60000, 0, true) {
	LaneBackend lb;
	// parts of 2^18 pairs: one for each width up to 9, 4^(n-9) above
	u64 i = g.each(7 * 1024 - 1);
	int op = (int)(i % 7);
	u64 p = i / 7;
	size_t n = 1;
	while (n < 14) { u64 parts = n <= 9 ? 1 : 1ULL << (2 * (n - 9)); if (p < parts) break; p -= parts; ++n; }
	if (n >= 14) { g.note("past the last part"); return; }
	g.note("width %zu, %s, part %llu", n, opn[op], (unsigned long long)p);
	g.nontrivial(n >= 2);
	u64 total = 1ULL << (2 * n), from = p << 18, to = std::min<u64>(total, from + (1ULL << 18));
	for (u64 k = from; k < to; k += 128) {
		u64 a[128], b[128];
		for (u64 j = 0; j < 128; ++j) { u64 v = (k + j) % total; a[j] = msk(v, n); b[j] = msk(v >> n, n); }
		lanes128(op, n, a, b);
	}
}
#ifndef NO_WHITEBOX
// The word-level addition and subtraction the operators are made of.
SUBCHECK(carries, 150000, 2000000, "addition and subtraction of bit arrays of 0..130 bits with and without a carry or borrow in and out; non-trivial: width >= 2 and a carry in") {
	Backend pl(g);
	size_t n = g.chance(1, 10) ? g.draw(2) : gen_width(g);
	bool sub = g.coin(), cin = g.chance(2, 3), cout = g.chance(2, 3), c = g.coin();
	if (n == 0) cin = true;
	Bits a = gen_bits(g, n), b = gen_bits(g, n);
	if (g.chance(1, 4)) for (size_t i = 0; i < n; ++i) b[i] = sub ? a[i] : !a[i];   // carries run through
	if (!cin) c = false;
	g.note("%zu bits: %s %s %s%s%s", n, sbits(a).c_str(), sub ? "-" : "+", sbits(b).c_str(), cin ? c ? ", 1 in" : ", 0 in" : "", cout ? ", out" : "");
	g.nontrivial(n >= 2 && cin);
	Integer x = n ? gen_int(g, a) : Integer(), y = n ? gen_int(g, b) : Integer();
	Bit ci(c, gen_party(g)), co(!c, PUBLIC);
	std::vector<Bit> d(n + 1, Bit(true, PUBLIC));
	Bit *dest = d.data();
	(sub ? emp::sub_full : emp::add_full)(dest, cout ? &co : nullptr, x.bits.data(), y.bits.data(), cin ? &ci : nullptr, (int)n);
	Bits want(n);
	bool k = c;
	for (size_t i = 0; i < n; ++i) {
		want[i] = a[i] ^ b[i] ^ k;
		k = sub ? (!a[i] && (b[i] || k)) || (b[i] && k) : (a[i] && b[i]) || (k && (a[i] || b[i]));
	}
	for (size_t i = 0; i < n; ++i) REQUIRE(dest[i].reveal<bool>() == want[i], "bit %zu", i);
	if (cout) REQUIRE(co.reveal<bool>() == k, "%s out", sub ? "borrow" : "carry");
	REQUIRE(ci.reveal<bool>() == c, "carry in changed");
	REQUIRE(d[n].reveal<bool>(), "written past the end");
}
#endif
PBT_MAIN
