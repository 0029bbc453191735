// Integer comparisons, logic, shifts, selection, resizing, counting, and
// conversion to and from native values.
#include "lanes.hpp"

static size_t gen_width(G &g) { return (size_t)g.size(1, 130, {8, 16, 31, 32, 33, 63, 64, 65, 127, 128}); }
static int cmpS(const Bits &a, const Bits &b) { BN x = bn_signed(a), y = bn_signed(b); return BN_cmp(x.n, y.n); }

SUBCHECK(compare, 200000, 3000000, "two operands of one width, often equal or differing in one bit; all six comparisons; non-trivial: width >= 2") {
	Backend pl(g);
	size_t n = gen_width(g);
	Bits a = gen_bits(g, n), b;
	u64 rel = g.weighted({3, 1, 2});
	if (rel == 0) b = gen_bits(g, n);
	else { b = a; if (rel == 2) { size_t k = g.draw(n - 1); b[k] = !b[k]; } }
	g.note("width %zu: compare %s with %s", n, sbits(a).c_str(), sbits(b).c_str());
	g.label(rel == 0 ? "independent" : rel == 1 ? "equal" : "differ in one bit");
	g.nontrivial(n >= 2);
	Integer x = gen_int(g, a), y = gen_int(g, b);
	int c = cmpS(a, b);
	REQUIRE((x >= y).reveal<bool>() == (c >= 0), ">=");
	REQUIRE((x > y).reveal<bool>() == (c > 0), ">");
	REQUIRE((x <= y).reveal<bool>() == (c <= 0), "<=");
	REQUIRE((x < y).reveal<bool>() == (c < 0), "<");
	REQUIRE((x == y).reveal<bool>() == (c == 0), "==");
	REQUIRE((x != y).reveal<bool>() == (c != 0), "!=");
	REQUIRE(x.geq(y).reveal<bool>() == (c >= 0), "geq");
	REQUIRE(x.equal(y).reveal<bool>() == (c == 0), "equal");
}

SUBCHECK(logic, 150000, 2000000, "bitwise operations and selection on two operands of one width; non-trivial: width >= 2") {
	Backend pl(g);
	size_t n = gen_width(g);
	Bits a = gen_bits(g, n), b = gen_bits(g, n);
	bool s = g.coin();
	g.note("width %zu: %s, %s, sel %d", n, sbits(a).c_str(), sbits(b).c_str(), s);
	g.nontrivial(n >= 2);
	Integer x = gen_int(g, a), y = gen_int(g, b);
	Bit sel(s, gen_party(g));
	Bits A(n), O(n), X(n);
	for (size_t i = 0; i < n; ++i) { A[i] = a[i] && b[i]; O[i] = a[i] || b[i]; X[i] = a[i] != b[i]; }
	REQUIRE(open_bits(x & y) == A, "and");
	REQUIRE(open_bits(x | y) == O, "or");
	REQUIRE(open_bits(x ^ y) == X, "xor");
	REQUIRE(open_bits(x.select(sel, y)) == (s ? b : a), "select");
	REQUIRE(open_bits(x.If(sel, y)) == (s ? b : a), "If member");
	REQUIRE(open_bits(emp::If(sel, x, y)) == (s ? a : b), "If");
	Integer z = x;
	z ^= y;
	REQUIRE(open_bits(z) == X, "xor-assign");
	REQUIRE(open_bits(x) == a && open_bits(y) == b, "operand changed");
	size_t k = g.draw(n - 1);
	REQUIRE(x[k].reveal<bool>() == a[k], "bit %zu", k);
	z[k] = sel;
	X[k] = s;
	REQUIRE(open_bits(z) == X, "assigning a bit");
}

SUBCHECK(shift_public, 100000, 1500000, "shift by a public amount, from 0 to beyond the width; non-trivial: 0 < amount < width") {
	Backend pl(g);
	size_t n = gen_width(g);
	Bits a = gen_bits(g, n);
	size_t s = g.chance(1, 12) ? (size_t)g.size(0, 1ULL << 62, {1ULL << 31, 1ULL << 32}) : g.chance(1, 3) ? (size_t)g.size(0, n + 3) : (size_t)g.draw(n + 2);
	g.note("width %zu: %s shifted by %zu", n, sbits(a).c_str(), s);
	g.nontrivial(s > 0 && s < n);
	g.label(s == 0 ? "by 0" : s < n ? "inside" : s == n ? "by the width" : "beyond the width");
	Integer x = gen_int(g, a);
	Bits L(n), R(n);
	for (size_t i = 0; i < n; ++i) {
		L[i] = i >= s ? a[i - s] : false;
		R[i] = s < n - i ? a[i + s] : false;
	}
	Bits l = open_bits(x << s), r = open_bits(x >> s);
	REQUIRE(l == L, "left: got %s want %s", sbits(l).c_str(), sbits(L).c_str());
	REQUIRE(r == R, "right: got %s want %s", sbits(r).c_str(), sbits(R).c_str());
	REQUIRE(open_bits(x) == a, "operand changed");
}

SUBCHECK(shift_secret, 100000, 1500000, "shift by an integer value 0 <= s < width, amount held in any width that can represent it; non-trivial: s > 0") {
	Backend pl(g);
	size_t n = gen_width(g);
	Bits a = gen_bits(g, n);
	size_t s = (size_t)g.draw(n - 1);
	size_t need = 1;
	while ((s >> (need - 1)) != 0) ++need;   // bits of s plus a sign bit
	size_t w = need + (size_t)g.size(0, 70, {n > need ? n - need : 0});
	Bits sb(w);
	for (size_t i = 0; i < w; ++i) sb[i] = i < 64 && ((s >> i) & 1);
	g.note("width %zu: %s shifted by secret %zu held in %zu bits", n, sbits(a).c_str(), s, w);
	g.nontrivial(s > 0);
	Integer x = gen_int(g, a), y = gen_int(g, sb);
	Bits L(n), R(n);
	for (size_t i = 0; i < n; ++i) {
		L[i] = i >= s ? a[i - s] : false;
		R[i] = i + s < n ? a[i + s] : false;
	}
	Bits l = open_bits(x << y), r = open_bits(x >> y);
	REQUIRE(l == L, "left: got %s want %s", sbits(l).c_str(), sbits(L).c_str());
	REQUIRE(r == R, "right: got %s want %s", sbits(r).c_str(), sbits(R).c_str());
	REQUIRE(open_bits(x) == a && open_bits(y) == sb, "operand changed");
}

SUBCHECK(resize_count, 100000, 1500000, "resizing to another width with and without sign extension, population count, leading zeros; non-trivial: new width differs") {
	Backend pl(g);
	size_t n = gen_width(g), m = gen_width(g);
	Bits a = gen_bits(g, n);
	bool sg = g.coin(), dflt = g.chance(1, 4);
	g.note("width %zu -> %zu %s: %s", n, m, sg ? "signed" : "unsigned", sbits(a).c_str());
	g.nontrivial(m != n);
	g.label(m > n ? "wider" : m < n ? "narrower" : "same");
	Integer x = gen_int(g, a);
	Integer y = x;
	Integer &ret = dflt ? y.resize(m) : y.resize(m, sg);
	if (dflt) sg = true;
	Bits W(m);
	for (size_t i = 0; i < m; ++i) W[i] = i < n ? a[i] : (sg ? (bool)a[n - 1] : false);
	REQUIRE(y.size() == m && open_bits(y) == W, "resize: got %s want %s", sbits(open_bits(y)).c_str(), sbits(W).c_str());
	REQUIRE(&ret == &y, "resize returns another object");
	size_t pc = 0, lz = 0;
	for (bool b : a) pc += b;
	for (size_t i = n; i-- > 0 && !a[i];) ++lz;
	BN p = bn_of(open_bits(x.hamming_weight())), l = bn_of(open_bits(x.leading_zeros()));
	REQUIRE(BN_is_word(p.n, pc), "population count %s want %zu", p.str().c_str(), pc);
	REQUIRE(BN_is_word(l.n, lz), "leading zeros %s want %zu", l.str().c_str(), lz);
	REQUIRE(open_bits(x) == a, "operand changed");
}

SUBCHECK(native, 150000, 2000000, "native value or memory -> integer -> native value, all entry points; non-trivial: width >= 8") {
	Backend pl(g);
	size_t n = gen_width(g);
	int party = gen_party(g);
	g.nontrivial(n >= 8);
	u64 how = g.draw(4);
	Bits want(n);
	Integer x;
	if (how == 0) {
		int64_t v = (int64_t)g.u64v();
		g.note("Integer(%zu, %lld)", n, (long long)v);
		x = Integer((int)n, v, party);
		for (size_t i = 0; i < n; ++i) want[i] = i < 64 ? (v >> i) & 1 : v < 0;
	} else if (how == 1) {
		auto mem = g.bytes((n + 7) / 8);
		g.note("Integer(%zu, memory %s)", n, hex(mem.data(), mem.size()).c_str());
		Heap<uint8_t> hb(mem.size());
		memcpy(hb.p, mem.data(), mem.size());
		x = Integer((int)n, hb.p, party);
		for (size_t i = 0; i < n; ++i) want[i] = (mem[i / 8] >> (i % 8)) & 1;
		REQUIRE(memcmp(hb.p, mem.data(), mem.size()) == 0, "input memory changed");
	} else {
		u64 v[4];
		for (auto &e : v) e = g.u64v();
		u64 ty = g.draw(4);
		g.note("Integer from a native object, kind %d, %016llx", (int)ty, (unsigned long long)v[0]);
		if (ty == 0) { uint8_t t = (uint8_t)v[0]; x = Integer(&t, party); n = 8; }
		else if (ty == 1) { uint16_t t = (uint16_t)v[0]; x = Integer(&t, party); n = 16; }
		else if (ty == 2) { int32_t t = (int32_t)v[0]; x = Integer(&t, party); n = 32; }
		else if (ty == 3) { int64_t t = (int64_t)v[0]; x = Integer(&t, party); n = 64; }
		else { struct S { u64 a[4]; } t; memcpy(&t, v, 32); x = Integer(&t, party); n = 256; }
		want.resize(n);
		for (size_t i = 0; i < n; ++i) want[i] = (v[i / 64] >> (i % 64)) & 1;
	}
	REQUIRE(x.size() == n, "%zu bits", x.size());
	REQUIRE(open_bits(x) == want, "bits %s want %s", sbits(open_bits(x)).c_str(), sbits(want).c_str());
	std::string s = x.reveal<std::string>();
	REQUIRE(s.size() == n, "string of %zu", s.size());
	for (size_t i = 0; i < n; ++i) REQUIRE((s[i] == '1') == want[i] && (s[i] == '0' || s[i] == '1'), "string bit %zu", i);
	u64 lo = 0;
	for (size_t i = 0; i < n && i < 64; ++i) lo |= (u64)want[i] << i;
	u64 m64 = n >= 64 ? ~0ULL : (1ULL << n) - 1, m32 = n >= 32 ? 0xffffffffULL : m64;
	REQUIRE((x.reveal<uint32_t>() & m32) == (lo & m32), "uint32");
	REQUIRE(((uint32_t)x.reveal<int32_t>() & m32) == (lo & m32), "int32");
	REQUIRE((x.reveal<uint64_t>() & m64) == lo, "uint64");
	REQUIRE(((uint64_t)x.reveal<int64_t>() & m64) == lo, "int64");
	REQUIRE(n >= 64 || (x.reveal<uint64_t>() >> n) == 0, "unsigned reveal not zero-extended");
	REQUIRE(n >= 32 || (x.reveal<uint32_t>() >> n) == 0, "unsigned reveal not zero-extended");
	// writing into memory touches exactly the n bits
	auto back = g.bytes((n + 7) / 8);
	Heap<uint8_t> out(back.size());
	memcpy(out.p, back.data(), back.size());
	x.reveal(out.p, PUBLIC);
	for (size_t i = 0; i < back.size() * 8; ++i) {
		bool got = (out[i / 8] >> (i % 8)) & 1;
		bool w = i < n ? (bool)want[i] : (bool)((back[i / 8] >> (i % 8)) & 1);
		REQUIRE(got == w, "memory bit %zu", i);
	}
}
SUBCHECK(wide, 3000, 50000, "widths of up to 5000 bits: comparison of operands that differ in at most one bit, shifts by public and secret amounts, resizing, counting, selection, memory round trip; non-trivial: width above 130", 60000) {
	Backend pl(g);
	size_t n = (size_t)g.size(100, 5000, {256, 255, 257, 512, 1024, 2048, 4096});
	Bits a = gen_bits(g, n), b = a;
	u64 rel = g.draw(2);
	if (rel == 0) b = gen_bits(g, n);
	else if (rel == 1) { size_t k = g.draw(n - 1); b[k] = !b[k]; }
	size_t s = (size_t)g.size(0, n - 1, {256, 1024, 4096});
	g.note("width %zu: %s, %s, shift %zu", n, sbits(a).c_str(), sbits(b).c_str(), s);
	g.nontrivial(n > 130);
	Integer x = gen_int(g, a), y = gen_int(g, b);
	int c = cmpS(a, b);
	REQUIRE((x >= y).reveal<bool>() == (c >= 0), ">=");
	REQUIRE((x > y).reveal<bool>() == (c > 0), ">");
	REQUIRE((x <= y).reveal<bool>() == (c <= 0), "<=");
	REQUIRE((x < y).reveal<bool>() == (c < 0), "<");
	REQUIRE((x == y).reveal<bool>() == (c == 0), "==");
	REQUIRE((x != y).reveal<bool>() == (c != 0), "!=");
	Bits L(n), R(n), A(n), O(n), X(n);
	for (size_t i = 0; i < n; ++i) {
		L[i] = i >= s ? a[i - s] : false;
		R[i] = i + s < n ? a[i + s] : false;
		A[i] = a[i] && b[i]; O[i] = a[i] || b[i]; X[i] = a[i] != b[i];
	}
	Integer sh(g.of<int>({20, 16, 33, 64}), (int64_t)s, gen_party(g));
	REQUIRE(open_bits(x << s) == L, "left by %zu", s);
	REQUIRE(open_bits(x >> s) == R, "right by %zu", s);
	REQUIRE(open_bits(x << sh) == L, "left by secret %zu", s);
	REQUIRE(open_bits(x >> sh) == R, "right by secret %zu", s);
	REQUIRE(open_bits(x & y) == A && open_bits(x | y) == O && open_bits(x ^ y) == X, "bitwise operations");
	bool sb = g.coin();
	Bit sel(sb, gen_party(g));
	REQUIRE(open_bits(x.select(sel, y)) == (sb ? b : a), "select");
	size_t m = (size_t)g.size(1, 5000, {n, 256, 1024}), pc = 0, lz = 0;
	bool sg = g.coin();
	Integer z = x;
	z.resize(m, sg);
	Bits W(m);
	for (size_t i = 0; i < m; ++i) W[i] = i < n ? (bool)a[i] : (sg ? (bool)a[n - 1] : false);
	REQUIRE(open_bits(z) == W, "resize to %zu", m);
	if (g.coin()) { size_t k = g.draw(n); for (size_t i = k; i < n; ++i) a[i] = false; x = gen_int(g, a); }
	for (bool v : a) pc += v;
	for (size_t i = n; i-- > 0 && !a[i];) ++lz;
	BN p = bn_of(open_bits(x.hamming_weight())), l = bn_of(open_bits(x.leading_zeros()));
	REQUIRE(BN_is_word(p.n, pc), "population count %s want %zu", p.str().c_str(), pc);
	REQUIRE(BN_is_word(l.n, lz), "leading zeros %s want %zu", l.str().c_str(), lz);
	std::vector<unsigned char> mem((n + 7) / 8);
	for (size_t i = 0; i < n; ++i) mem[i / 8] |= (unsigned char)(a[i] << (i % 8));
	Integer q((int)n, mem.data(), gen_party(g));
	REQUIRE(open_bits(q) == a, "from memory");
	AlignedBuf out(mem.size(), 0);
	memset(out.p, 0, mem.size());
	q.reveal(out.p, PUBLIC);
	REQUIRE(!memcmp(out.p, mem.data(), mem.size()) && out.intact(), "to memory");
}
SUBCHECK(single_bits, 20000, 300000, "single bits: construction with and without a party, all operators, opening as bool and text, the batching helpers, the default arguments of the integer constructors; all non-trivial") {
	Backend pl(g);
	bool a = g.coin(), b = g.coin(), s = g.coin();
	int64_t v = (int64_t)g.u64v();
	int n = (int)g.size(1, 70);
	g.note("%d %d %d %lld %d", a, b, s, (long long)v, n);
	g.nontrivial();
	Bit x(a, gen_party(g)), y(b, gen_party(g)), c(s), d;
	REQUIRE(Bit(a, PUBLIC).reveal<bool>() == a && c.reveal<bool>() == s, "construction");
	d = x;
	REQUIRE(d.reveal<bool>() == a, "assignment");
	REQUIRE((x & y).reveal<bool>() == (a && b) && (x | y).reveal<bool>() == (a || b) && (x ^ y).reveal<bool>() == (a != b), "logic");
	REQUIRE((!x).reveal<bool>() == !a && (x == y).reveal<bool>() == (a == b) && (x != y).reveal<bool>() == (a != b), "negation, equality");
	REQUIRE(x.select(c, y).reveal<bool>() == (s ? b : a) && x.If(c, y).reveal<bool>() == (s ? b : a) && emp::If(c, x, y).reveal<bool>() == (s ? a : b), "selection");
	d ^= y;
	REQUIRE(d.reveal<bool>() == (a != b), "xor-assign");
	int party = gen_party(g);
	REQUIRE(x.reveal<std::string>(party) == (a ? "true" : "false") && y.reveal<std::string>() == (b ? "true" : "false"), "as text");
	bool m[3] = {!a, !a, !a};
	Bit::bool_data(m + 1, a);
	REQUIRE(m[1] == a && m[0] == !a && m[2] == !a && Bit::bool_size(a) == 1, "batching helpers");
	Integer z(n, v), w(n, v, PUBLIC), q;
	REQUIRE(q.size() == 0 && open_bits(z) == open_bits(w), "default party");
	int nk = std::min(n, 64);
	Integer k(nk, &v), k2(nk, &v, PUBLIC);
	REQUIRE(open_bits(k) == open_bits(k2) && open_bits(k) == open_bits(Integer(nk, v)), "default party, from memory");
	REQUIRE(z.reveal<std::string>() == z.reveal<std::string>(PUBLIC), "default party on opening");
	std::vector<Bit> vb(w.bits);
	Integer o(vb);
	REQUIRE((size_t)o.size() == vb.size() && open_bits(o) == open_bits(w), "from single bits");
	for (size_t i = 0; i < vb.size(); ++i) REQUIRE(o[(int)i].reveal<bool>() == (((i < 64 ? v >> i : v >> 63) & 1) != 0), "bit %zu", i);
}
static u64 msk(u64 v, size_t n) { return n >= 64 ? v : v & ((1ULL << n) - 1); }
static int64_t sgn(u64 v, size_t n) { return (int64_t)(v << (64 - n)) >> (64 - n); }
static void cmp128(size_t n, const u64 *a, const u64 *b) {
	Integer x = lane_int(a, n), y = lane_int(b, n);
	Bit c[6] = {x >= y, x > y, x <= y, x < y, x == y, x != y};
	Integer l[3] = {x & y, x | y, x ^ y}, s = x.select(c[1], y);
	u64 o[4][128];
	for (int k = 0; k < 3; ++k) from_lanes(l[k].bits.data(), o[k], n);
	from_lanes(s.bits.data(), o[3], n);
	for (int j = 0; j < 128; ++j) {
		int64_t p = sgn(a[j], n), q = sgn(b[j], n);
		bool w[6] = {p >= q, p > q, p <= q, p < q, p == q, p != q};
		for (int k = 0; k < 6; ++k) REQUIRE(lane(c[k], j) == w[k], "width %zu: %llx %s %llx is %d", n, (unsigned long long)a[j], (const char *[]){">=", ">", "<=", "<", "==", "!="}[k], (unsigned long long)b[j], (int)!w[k]);
		REQUIRE(o[0][j] == (a[j] & b[j]) && o[1][j] == (a[j] | b[j]) && o[2][j] == (a[j] ^ b[j]) && o[3][j] == (p > q ? b[j] : a[j]), "width %zu: logic or selection on %llx, %llx", n, (unsigned long long)a[j], (unsigned long long)b[j]);
	}
}
static void unary128(size_t n, const u64 *a, const u64 *s, size_t sw) {
	Integer x = lane_int(a, n), y = lane_int(s, sw);
	Integer l = x << y, r = x >> y, h = x.hamming_weight(), z = x.leading_zeros();
	REQUIRE(l.size() == n && r.size() == n, "a shift changes the width");
	u64 ol[128], ori[128], oh[128], oz[128];
	from_lanes(l.bits.data(), ol, n);
	from_lanes(r.bits.data(), ori, n);
	from_lanes(h.bits.data(), oh, std::min<size_t>(64, h.size()));
	from_lanes(z.bits.data(), oz, std::min<size_t>(64, z.size()));
	for (int j = 0; j < 128; ++j) {
		u64 wl = msk(a[j] << s[j], n), wr = a[j] >> s[j];
		REQUIRE(ol[j] == wl, "width %zu: %llx << %llu gives %llx", n, (unsigned long long)a[j], (unsigned long long)s[j], (unsigned long long)ol[j]);
		REQUIRE(ori[j] == wr, "width %zu: %llx >> %llu gives %llx", n, (unsigned long long)a[j], (unsigned long long)s[j], (unsigned long long)ori[j]);
		REQUIRE(oh[j] == (u64)__builtin_popcountll(a[j]), "width %zu: population count of %llx gives %llu", n, (unsigned long long)a[j], (unsigned long long)oh[j]);
		u64 lz = a[j] ? (u64)__builtin_clzll(a[j]) - (64 - n) : n;
		REQUIRE(oz[j] == lz, "width %zu: leading zeros of %llx gives %llu", n, (unsigned long long)a[j], (unsigned long long)oz[j]);
	}
}
SUBCHECK(lanes, 24000, 600000, "4096 operand pairs of one width up to 64 at once: comparisons, logic and selection of any, equal and neighbouring values, or shifts by secret amounts and counts; non-trivial: width >= 2", 60000) {
	LaneBackend lb;
	size_t n = g.size(1, 64, {8, 16, 31, 32, 33, 63, 64});
	bool shifts = g.coin();
	size_t need = 1;
	while (((n - 1) >> (need - 1)) != 0) ++need;
	size_t sw = need + g.draw(8);
	u64 seed = g.draw(~0ULL);
	g.note("width %zu, %s", n, shifts ? "shifts and counts" : "comparisons and logic");
	g.nontrivial(n >= 2);
	pbt::Rng r(seed);
	for (int k = 0; k < 32; ++k) {
		u64 a[128], b[128];
		for (int j = 0; j < 128; ++j) {
			a[j] = msk(pat(r), n);
			if (shifts) { b[j] = r.below(n); continue; }
			switch (r.below(5)) {
			case 0: b[j] = a[j]; break;
			case 1: b[j] = a[j] ^ (1ULL << r.below(n)); break;
			case 2: b[j] = msk(a[j] + r.below(5) - 2, n); break;
			default: b[j] = msk(pat(r), n);
			}
		}
		if (shifts) unary128(n, a, b, sw); else cmp128(n, a, b);
	}
}
SUBCHECK(exhaustive, 160, 1200, "every operand pair at every width up to 10 (thorough: 13) for comparisons, logic and selection; every value and shift amount at every width up to 14 (thorough: 18); in parts; non-trivial: width >= 2", 60000, 0, true) {
	LaneBackend lb;
	u64 i = g.each(1199), p = i / 2;
	bool shifts = i % 2;
	size_t n = 1;
	while (n < 19) {
		u64 all = shifts ? (u64)n << n : 1ULL << (2 * n), parts = (all + (1 << 18) - 1) >> 18;
		if (p < parts) break;
		p -= parts;
		++n;
	}
	if (n >= (shifts ? 19 : 14)) { g.note("past the last part"); return; }
	g.note("width %zu, %s, part %llu", n, shifts ? "shifts and counts" : "comparisons and logic", (unsigned long long)p);
	g.nontrivial(n >= 2);
	u64 total = shifts ? (u64)n << n : 1ULL << (2 * n), from = p << 18, to = std::min<u64>(total, from + (1ULL << 18));
	size_t need = 1;
	while (((n - 1) >> (need - 1)) != 0) ++need;
	for (u64 k = from; k < to; k += 128) {
		u64 a[128], b[128];
		for (u64 j = 0; j < 128; ++j) { u64 v = (k + j) % total; a[j] = msk(v, n); b[j] = v >> n; }
		if (shifts) unary128(n, a, b, need); else cmp128(n, a, b);
	}
}
SUBCHECK(aliased, 30000, 500000, "one integer as both operands, results stored over an operand; comparison, logic, shifts by the integer itself; non-trivial: width >= 2") {
	Backend pl(g);
	size_t n = gen_width(g);
	Bits a = gen_bits(g, n);
	int kind = (int)g.draw(6);
	if (kind == 5) {   // as its own shift amount, below the width
		size_t s = (size_t)g.draw(n - 1);
		for (size_t i = 0; i < n; ++i) a[i] = i < 64 && (s >> i & 1);
		if (n < 64 && a[n - 1]) a[n - 1] = false;
	}
	g.note("width %zu: %s, form %d", n, sbits(a).c_str(), kind);
	g.nontrivial(n >= 2);
	Integer x = gen_int(g, a), z = x;
	const Bits zero(n, false);
	switch (kind) {
	case 0:
		REQUIRE((x >= x).reveal<bool>() && (x <= x).reveal<bool>() && (x == x).reveal<bool>(), "equal to itself");
		REQUIRE(!(x > x).reveal<bool>() && !(x < x).reveal<bool>() && !(x != x).reveal<bool>(), "not different from itself");
		break;
	case 1: REQUIRE(open_bits(x & x) == a && open_bits(x | x) == a && open_bits(x ^ x) == zero, "logic with itself"); break;
	case 2: z ^= z; REQUIRE(open_bits(z) == zero, "xor-assign with itself"); break;
	case 3: z = z & z; z = z | z; z = z ^ x; REQUIRE(open_bits(z) == zero, "stored over the operand"); break;
	case 4: {
		size_t s = g.size(0, n);
		z = z << s; z = z >> s;
		Bits w = a;
		for (size_t i = 0; i < n; ++i) if (i + s >= n) w[i] = false;
		REQUIRE(open_bits(z) == w, "shifted left and right by %zu", s);
		break;
	}
	case 5: {
		u64 s = 0;
		for (size_t i = 0; i < n && i < 64; ++i) s |= (u64)a[i] << i;
		Bits L(n), R(n);
		for (size_t i = 0; i < n; ++i) { L[i] = i >= s ? a[i - s] : false; R[i] = i + s < n ? a[i + s] : false; }
		REQUIRE(open_bits(x << x) == L, "shifted left by itself");
		REQUIRE(open_bits(x >> x) == R, "shifted right by itself");
		z = z << z;
		REQUIRE(open_bits(z) == L, "shifted left by itself in place");
		break;
	}
	default: {
		Bit c = x >= x;
		z = z.select(c, z); REQUIRE(open_bits(z) == a, "selected from itself");
		z.resize(2 * n, false); z.resize(n); REQUIRE(open_bits(z) == a, "resized and back");
	}
	}
	REQUIRE(open_bits(x) == a, "operand changed");
}
PBT_MAIN
