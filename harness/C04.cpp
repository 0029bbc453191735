// Single-precision arithmetic agrees with IEEE 754 bit for bit.
#include "lanes.hpp"
#include <cfenv>

static uint32_t fb(float f) { uint32_t v; memcpy(&v, &f, 4); return v; }
static float bf(uint32_t v) { float f; memcpy(&f, &v, 4); return f; }
static uint32_t opn(const Float &f) {
	uint32_t v = 0;
	for (int i = 0; i < 32; ++i) v |= (uint32_t)f[i].reveal<bool>() << i;
	return v;
}
// zero, normal or infinite; biased to equal exponents, all-ones and
// power-of-two significands, and the ends of the exponent range
static uint32_t gen_float(G &g, bool have = false, uint32_t near = 0) {
	uint32_t s = g.coin(), e, m;
	switch (g.weighted({4, have ? 6u : 0u, 2, 2, 1, 1})) {
	case 0: e = 1 + (uint32_t)g.draw(253); break;
	case 1: { int x = (int)((near >> 23) & 255) + (int)g.irange(-26, 26); e = x < 1 ? 1 : x > 254 ? 254 : x; break; }
	case 2: e = 254 - (uint32_t)g.draw(24); break;
	case 3: e = 1 + (uint32_t)g.draw(24); break;
	case 4: return s << 31;
	default: return s << 31 | 0x7f800000;
	}
	switch (g.weighted({3, 2, 2, 1, 1, have ? 2u : 0u})) {
	case 0: m = (uint32_t)g.draw(0x7fffff); break;
	case 1: m = 1u << g.draw(22); break;
	case 2: m = 0x7fffff ^ (g.coin() ? 1u << g.draw(22) : 0); break;
	case 3: m = 0; break;
	case 4: m = ((1u << g.draw(22)) - 1) << g.draw(22) & 0x7fffff; break;
	default: m = ((near & 0x7fffff) + (uint32_t)g.irange(-2, 2)) & 0x7fffff;
	}
	return s << 31 | e << 23 | m;
}
static const double MINN = 1.1754943508222875e-38;   // 2^-126

SUBCHECK(binop, 900000, 12000000, "pairs of zero/normal/infinite operands whose exact result is zero, normal or overflows; +, -, *, /; non-trivial: both operands finite and non-zero") {
	Backend pl(g);
	uint32_t a = gen_float(g), b = g.chance(1, 16) ? a ^ (uint32_t)(g.draw(1) << 31) : gen_float(g, true, a);
	int op = (int)g.draw(3);
	float x = bf(a), y = bf(b), w;
	double ex;
	switch (op) {
	case 0: w = x + y; ex = (double)x + y; break;
	case 1: w = x - y; ex = (double)x - y; break;
	case 2: w = x * y; ex = (double)x * y; break;
	default: w = x / y; ex = (double)x / y;
	}
	g.note("%08x %c %08x", a, "+-*/"[op], b);
	if (std::isnan(w) || (ex != 0 && std::fabs(ex) < MINN)) { g.label("outside the claim"); return; }
	bool fin = std::isfinite(x) && std::isfinite(y) && x != 0 && y != 0;
	g.nontrivial(fin);
	g.label(std::string("op ") + "+-*/"[op]);
	if (fin && std::isinf(w)) g.label("overflow");
	if (fin && w == 0) g.label("exact cancellation");
	int pa = gen_party(g), pb = gen_party(g);
	Float u(x, pa), v(y, pb), r;
	switch (op) {
	case 0: r = u + v; break;
	case 1: r = u - v; break;
	case 2: r = u * v; break;
	default: r = u / v;
	}
	uint32_t got = opn(r);
	REQUIRE(got == fb(w), "got %08x want %08x (%.9g)", got, fb(w), w);
	REQUIRE(opn(u) == a && opn(v) == b, "operand changed");
}

SUBCHECK(compare, 900000, 12000000, "pairs of zero/normal/infinite operands, often neighbours or equal; ==, <, <=; non-trivial: same sign and exponent within 1, or equal") {
	Backend pl(g);
	uint32_t a = gen_float(g), b;
	switch (g.weighted({3, 1, 2, 1})) {
	case 0: b = gen_float(g, true, a); break;
	case 1: b = a; break;
	case 2: b = a ^ (1u << g.draw(31)); break;
	default: b = a ^ 0x80000000u;
	}
	auto bad = [](uint32_t v) { return ((v >> 23) & 255) == 0 ? (v & 0x7fffff) != 0 : ((v >> 23) & 255) == 255 && (v & 0x7fffff); };
	if (bad(b)) b = a;
	g.note("compare %08x %08x", a, b);
	int de = (int)((a >> 23) & 255) - (int)((b >> 23) & 255);
	g.nontrivial(a == b || ((a ^ b) >> 31 == 0 && de >= -1 && de <= 1));
	float x = bf(a), y = bf(b);
	Float u(x, gen_party(g)), v(y, gen_party(g));
	REQUIRE(u.equal(v).reveal<bool>() == (x == y), "equal");
	REQUIRE(u.less_than(v).reveal<bool>() == (x < y), "less_than");
	REQUIRE(u.less_equal(v).reveal<bool>() == (x <= y), "less_equal");
}

SUBCHECK(unary, 250000, 12000000, "square and square root of any bit pattern; negation, absolute value, selection, conversion; non-trivial: normal or subnormal operand") {
	Backend pl(g);
	uint32_t a = g.chance(1, 3) ? (uint32_t)g.u64v() : gen_float(g);
	float x = bf(a);
	uint32_t b = (uint32_t)g.u64v();
	g.note("unary on %08x", a);
	g.nontrivial(std::isfinite(x) && x != 0);
	Float u(x, gen_party(g));
	REQUIRE(opn(u) == a, "input");
	auto eq = [](uint32_t got, float w) { return std::isnan(w) ? std::isnan(bf(got)) : got == fb(w); };
	uint32_t s = opn(u.sqr()), q = opn(u.sqrt());
	REQUIRE(eq(s, x * x), "square %08x want %08x", s, fb(x * x));
	REQUIRE(eq(q, std::sqrt(x)), "square root %08x want %08x", q, fb(std::sqrt(x)));
	REQUIRE(opn(-u) == (a ^ 0x80000000u), "negation");
	REQUIRE(opn(u.abs()) == (a & 0x7fffffffu), "absolute value");
	Float v(bf(b), gen_party(g));
	bool c = g.coin();
	Bit sel(c, gen_party(g));
	REQUIRE(opn(u.If(sel, v)) == (c ? b : a), "selection");
	REQUIRE(opn(u ^ v) == (a ^ b) && opn(u & v) == (a & b), "bitwise");
	REQUIRE(u.size() == 32, "a single has %zu bits", (size_t)u.size());
	double d = u.reveal<double>();
	REQUIRE(std::isnan(x) ? std::isnan(d) : (d == (double)x && std::signbit(d) == std::signbit(x)), "reveal double %.17g", d);
	REQUIRE(std::isnan(x) || u.reveal<std::string>() == std::to_string(x), "reveal string %s", u.reveal<std::string>().c_str());
}
static Float lane_float(const uint32_t v[128]) {
	u64 w[128];
	for (int j = 0; j < 128; ++j) w[j] = v[j];
	Float f(0.f, PUBLIC);
	to_lanes(w, f.value.data(), 32);
	return f;
}
static void lane_val(const Float &f, uint32_t v[128]) {
	u64 w[128];
	from_lanes(f.value.data(), w, 32);
	for (int j = 0; j < 128; ++j) v[j] = (uint32_t)w[j];
}
// zero, normal or infinite
static uint32_t rnd_float(pbt::Rng &r, int style, uint32_t near) {
	uint32_t s = (uint32_t)r.below(2), e, m;
	int d;
	switch (style) {
	case 0: e = 1 + (uint32_t)r.below(254); break;
	case 1: d = (int)((near >> 23) & 255) + (int)r.below(53) - 26; e = d < 1 ? 1 : d > 254 ? 254 : d; break;
	case 2: d = (int)((near >> 23) & 255) + (int)r.below(3) - 1; e = d < 1 ? 1 : d > 254 ? 254 : d; break;
	case 3: d = 254 - (int)((near >> 23) & 255) + (int)r.below(5) - 2; e = d < 1 ? 1 : d > 254 ? 254 : d; break;    // the product is around 1
	case 4: d = (int)((near >> 23) & 255) + (r.below(2) ? 126 : -127) + (int)r.below(5) - 2; e = d < 1 ? 1 : d > 254 ? 254 : d; break;   // the quotient is at an end of the range
	default: d = (r.below(2) ? 381 : 127) - (int)((near >> 23) & 255) + (int)r.below(5) - 2; e = d < 1 ? 1 : d > 254 ? 254 : d;         // so is the product
	}
	switch (r.below(8)) {
	case 0: m = 1u << r.below(23); break;
	case 1: m = 0x7fffff ^ (1u << r.below(23)); break;
	case 2: m = (uint32_t)(r.next() & r.next() & r.next()) & 0x7fffff; break;
	case 3: m = (uint32_t)(r.next() | r.next() | r.next()) & 0x7fffff; break;
	case 4: m = (near + (uint32_t)r.below(9) - 4) & 0x7fffff; break;
	case 5: m = r.below(3) ? 0x7fffff - (uint32_t)r.below(4) : (uint32_t)r.below(4); break;
	default: m = (uint32_t)r.next() & 0x7fffff;
	}
	if (r.below(200) == 0) return s << 31 | (r.below(2) ? 0x7f800000u : 0);
	return s << 31 | e << 23 | m;
}
static uint32_t inv_odd(uint32_t q) { uint32_t x = q; for (int i = 0; i < 5; ++i) x *= 2 - q * x; return x; }   // modulo 2^32
static uint32_t small_or_power(pbt::Rng &r) { return r.below(2) ? 1u << r.below(23) : (uint32_t)r.below(16); }
// Replace the significands so that the exact result lies at, or by a single
// low bit beside, the middle of two neighbouring floats (or a float itself).
static void hard(pbt::Rng &r, int op, uint32_t &a, uint32_t &b) {
	uint32_t ma = 0, mb = 0;
	if (!((a >> 23) & 255) || !((b >> 23) & 255) || ((a >> 23) & 255) == 255 || ((b >> 23) & 255) == 255) return;
	if (op == 3) {
		for (int tries = 0; tries < 20; ++tries) {
			// a * 2^s = q * b + d with an odd 25-bit q: halfway, plus or minus d/b
			int s = 24 + (int)r.below(2);
			uint32_t q = (1u << 24) | ((r.below(6) ? (uint32_t)r.next() : r.below(2) ? 0xffffffu : 0) & 0xffffff) | 1;
			int64_t d = small_or_power(r);
			if (r.below(2)) d = -d;
			if (r.below(8) == 0) { q &= ~1u; }
			uint64_t y;
			if (q & 1) y = (uint64_t)(uint32_t)((uint32_t)-d * inv_odd(q)) & ((1u << 24) - 1);
			else y = 0x800000 | (r.next() & 0x7fffff);
			int64_t n = (int64_t)q * (int64_t)y + d;
			if (y < 0x800000 || n <= 0 || n >> s < 0x800000 || n >> s > 0xffffff || ((n & ((1ll << s) - 1)) && (q & 1))) continue;
			ma = (uint32_t)(n >> s); mb = (uint32_t)y;
			break;
		}
		if (!ma) return;
	} else if (op == 2) {
		ma = 0x800001 | ((uint32_t)r.next() & 0x7fffff);
		uint32_t low = (uint32_t)r.below(2) << (22 + r.below(2)), d = r.below(3) ? small_or_power(r) : 0;
		low = r.below(2) ? low + d : low - d;
		mb = (low * inv_odd(ma)) & 0xffffff;
		if (mb < 0x800000) {
			// the 23 low bits can be had with either top bit
			mb |= 0x800000;
		}
		if (r.below(2)) std::swap(ma, mb);
	} else {
		int x = (a >> 23) & 255, y = (b >> 23) & 255, d = x > y ? x - y : y - x;
		if (d < 1 || d > 26) return;
		uint32_t &lo = x > y ? b : a, mask = d >= 23 ? 0x7fffff : (1u << d) - 1;
		uint32_t t = (r.below(3) ? (1u << (d - 1)) : 0) + (r.below(2) ? 0u : r.below(2) ? small_or_power(r) : 0u - small_or_power(r));
		lo = (lo & ~mask) | (t & mask);
		return;
	}
	a = (a & 0xff800000u) | (ma & 0x7fffff);
	b = (b & 0xff800000u) | (mb & 0x7fffff);
}
SUBCHECK(binop_lanes, 60000, 2400000, "8192 pairs at once in one of the styles: any exponents, exponents within 26 or 1 of each other, products and quotients around 1 or at the ends of the range, a third of them with significands solved for so that the result is at or beside a rounding boundary; +, -, *, /, ==, <, <= as above; non-trivial: at least 1000 pairs inside the claim", 60000) {
	LaneBackend lb;
	u64 seed = g.draw(~0ULL);
	int op = (int)g.weighted({4, 4, 3, 3, 1, 1, 1}), style = (int)g.draw(5);
	g.note("%s, style %d", (const char *[]){"+", "-", "*", "/", "==", "<", "<="}[op], style);
	pbt::Rng r(seed);
	u64 in = 0;
	for (int k = 0; k < (op > 3 ? 512 : 64); ++k) {
		uint32_t a[128], b[128], o[128];
		for (int j = 0; j < 128; ++j) {
			a[j] = rnd_float(r, 0, 0);
			b[j] = r.below(40) ? rnd_float(r, style, a[j]) : a[j] ^ (uint32_t)(r.below(2) << 31);
			if (op <= 3 && r.below(3) == 0) hard(r, op, a[j], b[j]);
		}
		Float x = lane_float(a), y = lane_float(b), z(0.f, PUBLIC);
		Bit c;
		switch (op) {
		case 0: z = x + y; break;
		case 1: z = x - y; break;
		case 2: z = x * y; break;
		case 3: z = x / y; break;
		case 4: c = x.equal(y); break;
		case 5: c = x.less_than(y); break;
		default: c = x.less_equal(y);
		}
		if (op <= 3) lane_val(z, o);
		for (int j = 0; j < 128; ++j) {
			float u = bf(a[j]), v = bf(b[j]), w = 0;
			double ex = 0;
			switch (op) {
			case 0: w = u + v; ex = (double)u + v; break;
			case 1: w = u - v; ex = (double)u - v; break;
			case 2: w = u * v; ex = (double)u * v; break;
			case 3: w = u / v; ex = (double)u / v; break;
			case 4: ++in; REQUIRE(lane(c, j) == (u == v), "%08x == %08x", a[j], b[j]); continue;
			case 5: ++in; REQUIRE(lane(c, j) == (u < v), "%08x < %08x", a[j], b[j]); continue;
			default: ++in; REQUIRE(lane(c, j) == (u <= v), "%08x <= %08x", a[j], b[j]); continue;
			}
			if (std::isnan(w) || (ex != 0 && std::fabs(ex) < MINN)) continue;
			++in;
			REQUIRE(o[j] == fb(w), "%08x %c %08x: got %08x want %08x", a[j], "+-*/"[op], b[j], o[j], fb(w));
		}
	}
	g.nontrivial(in >= 1000);
}
// one of 65536 parts of the space of all floats, each with all of the upper halves
static uint32_t part(u64 k, u64 j, u64 salt) { return (uint32_t)(j << 16 | ((k * 40503 + pbt::mix64(j + salt)) & 0xffff)); }
template <int OP> static void check1(const uint32_t *a) {
	uint32_t o[128];
	Float x = lane_float(a), z = OP ? x.sqrt() : x.sqr();
	lane_val(z, o);
	for (int i = 0; i < 128; ++i) {
		float u = bf(a[i]), w = OP ? std::sqrt(u) : u * u;
		REQUIRE(std::isnan(w) ? std::isnan(bf(o[i])) : o[i] == fb(w), "%s of %08x: got %08x want %08x", OP ? "square root" : "square", a[i], o[i], fb(w));
	}
}
template <int OP> static void whole(G &g) {
	LaneBackend lb;
	u64 k = g.each(65535);
	g.note("part %llu", (unsigned long long)k);
	g.nontrivial(true);
	for (u64 j = 0; j < 65536; j += 128) {
		uint32_t a[128];
		for (int i = 0; i < 128; ++i) a[i] = part(k, j + i, 0);
		check1<OP>(a);
	}
}
// every significand, with an even and with an odd exponent: which of them, and the sign, vary
template <int OP> static void significands(G &g) {
	LaneBackend lb;
	u64 k = g.each(255), salt = g.draw(~0ULL);
	g.note("significands %06llx.., %s exponents", (unsigned long long)(k & 127) << 16, k >> 7 ? "odd" : "even");
	g.nontrivial(true);
	for (u64 j = 0; j < 65536; j += 128) {
		uint32_t a[128];
		for (int i = 0; i < 128; ++i) {
			u64 r = pbt::mix64(salt + j + i), e = OP ? 2 + r % 252 : 64 + r % 126;
			a[i] = (uint32_t)(((e & ~1ULL) | k >> 7) << 23 | (k & 127) << 16 | (j + i)) | (OP ? 0 : (uint32_t)(r >> 63) << 31);
		}
		check1<OP>(a);
	}
}
SUBCHECK(square_all, 2500, 65536, "the square of 65536 floats per case, every exponent and sign among them; the thorough run squares all 2^32; all non-trivial", 60000, 0, true) { whole<0>(g); }
SUBCHECK(sqrt_all, 2500, 65536, "the same for the square root; the thorough run covers all 2^32", 60000, 0, true) { whole<1>(g); }
SUBCHECK(square_significands, 512, 8192, "the square of 65536 floats per case, with each of the 2^23 significands (256 cases cover all of them with even and with odd exponents); all non-trivial", 60000, 0, true) { significands<0>(g); }
SUBCHECK(sqrt_significands, 512, 8192, "the same for the square root", 60000, 0, true) { significands<1>(g); }
SUBCHECK(aliased, 60000, 1000000, "one float as both operands, results stored over an operand; +, -, *, /, ==, <, <=; non-trivial: finite and non-zero") {
	Backend pl(g);
	uint32_t a = gen_float(g);
	float x = bf(a), w;
	int op = (int)g.draw(4);
	switch (op) { case 0: w = x + x; break; case 1: w = x - x; break; case 2: w = x * x; break; case 3: w = x / x; break; default: w = 0; }
	g.note("%08x with itself, operation %d", a, op);
	if (std::isnan(w) || (w != 0 && std::fabs(w) < MINN) || (op == 2 && w == 0 && x != 0)) { g.label("outside the claim"); return; }
	g.nontrivial(std::isfinite(x) && x != 0);
	Float u(x, gen_party(g)), r = u;
	switch (op) {
	case 0: r = r + r; break;
	case 1: r = r - r; break;
	case 2: r = r * r; break;
	case 3: r = r / r; break;
	default:
		REQUIRE(u.equal(u).reveal<bool>() && u.less_equal(u).reveal<bool>() && !u.less_than(u).reveal<bool>(), "compared with itself");
		return;
	}
	REQUIRE(opn(r) == fb(w), "got %08x want %08x", opn(r), fb(w));
}
PBT_MAIN
