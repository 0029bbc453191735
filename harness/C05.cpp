// Accuracy of the elementary functions.
#include "lanes.hpp"
static uint32_t fb(float f) { uint32_t v; memcpy(&v, &f, 4); return v; }
static float bf(uint32_t v) { float f; memcpy(&f, &v, 4); return f; }
static uint32_t opn(const Float &f) {
	uint32_t v = 0;
	for (int i = 0; i < 32; ++i) v |= (uint32_t)f[i].reveal<bool>() << i;
	return v;
}
static float gen_arg(G &g, int lo, int hi, bool sign) {   // biased exponents lo..hi
	uint32_t s = sign ? g.coin() : 0;
	uint32_t e = (uint32_t)(g.chance(1, 3) ? g.range(1, 254) : g.range(lo, hi)), m;
	switch (g.weighted({4, 2, 2, 1, 2})) {
	case 0: m = (uint32_t)g.draw(0x7fffff); break;
	case 1: m = 1u << g.draw(22); break;
	case 2: m = 0x7fffff ^ (1u << g.draw(22)); break;
	case 3: m = (uint32_t)g.draw(3); break;
	default: m = 0x7fffff - (uint32_t)g.draw(3);
	}
	return bf(s << 31 | e << 23 | m);
}
SUBCHECK(sincos, 120000, 3000000, "sin(pi x) and cos(pi x) for finite zero or normal x of any magnitude; non-trivial: |x| > 2^-20 and not an integer") {
	Backend pl(g);
	float x = g.chance(1, 60) ? bf((uint32_t)g.coin() << 31) : gen_arg(g, 107, 150, true);
	bool cs = g.coin();
	g.note("%s(pi*%a)", cs ? "cos" : "sin", x);
	g.nontrivial(std::fabs(x) > 9.5e-7 && x != std::floor(x));
	g.label(std::fabs(x) > 16777216.f ? "beyond 2^24" : std::fabs(x) > 2 ? "beyond one period" : "first period");
	Float u(x, gen_party(g));
	float got = bf(opn(cs ? u.cos() : u.sin()));
	long double r = fmodl((long double)x, 2.0L);
	double w = (double)(cs ? cosl(M_PIl * r) : sinl(M_PIl * r));
	REQUIRE(std::fabs(got - w) <= 1e-6, "got %.9g want %.9g", got, w);
	REQUIRE(opn(u) == fb(x), "operand changed");
}
SUBCHECK(exponential, 120000, 3000000, "2^x and e^x for finite zero or normal x; non-trivial: the result is a finite normal number other than 1") {
	Backend pl(g);
	float x = g.chance(1, 60) ? bf((uint32_t)g.coin() << 31) : gen_arg(g, 103, 134, true);
	bool two = g.coin();
	g.note("%s(%a)", two ? "exp2" : "exp", x);
	Float u(x, gen_party(g));
	float got = bf(opn(two ? u.exp2() : u.exp()));
	long double w = two ? exp2l((long double)x) : expl((long double)x);
	const long double MX = 3.40282347e38L, MN = 1.17549435e-38L;
	bool over = w > MX * (1 + 5e-7L), under = w < MN * (1 - 5e-7L);
	bool edge = !over && !under && (w > MX * (1 - 5e-7L) || w < MN * (1 + 5e-7L));
	g.nontrivial(!over && !under && got != 1);
	g.label(over ? "overflow" : under ? "underflow" : edge ? "edge" : "in range");
	if (over) REQUIRE(got == INFINITY, "got %.9g want infinity", got);
	else if (under) REQUIRE(got == 0, "got %.9g want 0", got);
	else if (edge) REQUIRE(w > 1 ? got > 3.4e38f : (got >= 0 && got < 1.2e-38f), "got %.9g want about %.9Lg", got, w);
	else REQUIRE(std::fabs((double)got - (double)w) <= 2.5e-7 * (double)w, "got %.9g want %.9Lg", got, w);
}
SUBCHECK(logarithm, 120000, 3000000, "ln x and log2 x for positive normal x, with extra weight around 1; non-trivial: x != 1") {
	Backend pl(g);
	float x = gen_arg(g, 124, 129, false);
	bool two = g.coin();
	g.note("%s(%a)", two ? "log2" : "ln", x);
	g.nontrivial(x != 1);
	Float u(x, gen_party(g));
	float got = bf(opn(two ? u.log2() : u.ln()));
	long double w = two ? log2l((long double)x) : logl((long double)x);
	REQUIRE(std::fabs((double)got - (double)w) <= 2.5e-7 * std::fabs((double)w) + 1e-7, "got %.9g want %.9Lg", got, w);
}
static Float lane_float(const uint32_t v[128]) {
	u64 w[128];
	for (int j = 0; j < 128; ++j) w[j] = v[j];
	Float f(0.f, PUBLIC);
	to_lanes(w, f.value.data(), 32);
	return f;
}
static void lane_val(const Float &f, uint32_t v[128]) {
	u64 w[128];
	from_lanes(f.value.data(), w, 32);
	for (int j = 0; j < 128; ++j) v[j] = (uint32_t)w[j];
}
// one of 65536 parts of the space of all floats, each with all of the upper halves
static uint32_t part(u64 k, u64 j) { return (uint32_t)(j << 16 | ((k * 40503 + pbt::mix64(j)) & 0xffff)); }
enum { F_SIN, F_COS, F_EXP2, F_EXP, F_LN, F_LOG2 };
template <int F> static void check1(const uint32_t *a) {
	uint32_t o[128];
	Float x = lane_float(a);
	switch (F) {
	case F_SIN: lane_val(x.sin(), o); break;
	case F_COS: lane_val(x.cos(), o); break;
	case F_EXP2: lane_val(x.exp2(), o); break;
	case F_EXP: lane_val(x.exp(), o); break;
	case F_LN: lane_val(x.ln(), o); break;
	default: lane_val(x.log2(), o);
	}
	for (int i = 0; i < 128; ++i) {
		float u = bf(a[i]), got = bf(o[i]);
		uint32_t e = a[i] >> 23 & 255;
		if (e == 255 || (e == 0 && (a[i] << 1) != 0)) continue;
		if (F >= F_LN && e == 0) continue;
		if (F == F_SIN || F == F_COS) {
			double q = std::fmod((double)u, 2.0);   // exact
			double w = F == F_SIN ? std::sin(M_PI * q) : std::cos(M_PI * q);
			REQUIRE(std::fabs(got - w) <= 1e-6, "%s(pi*%a): got %.9g want %.9g", F == F_SIN ? "sin" : "cos", u, got, w);
		} else if (F == F_EXP2 || F == F_EXP) {
			double w = F == F_EXP2 ? std::exp2((double)u) : std::exp((double)u);
			const double MX = 3.40282347e38, MN = 1.17549435e-38;
			const char *f = F == F_EXP2 ? "exp2" : "exp";
			bool over = w > MX * (1 + 5e-7), under = w < MN * (1 - 5e-7), edge = !over && !under && (w > MX * (1 - 5e-7) || w < MN * (1 + 5e-7));
			if (over) REQUIRE(got == INFINITY, "%s(%a): got %.9g want infinity", f, u, got);
			else if (under) REQUIRE(got == 0, "%s(%a): got %.9g want 0", f, u, got);
			else if (edge) REQUIRE(w > 1 ? got > 3.4e38f : (got >= 0 && got < 1.2e-38f), "%s(%a): got %.9g want about %.9g", f, u, got, w);
			else REQUIRE(std::fabs(got - w) <= 2.5e-7 * w, "%s(%a): got %.9g want %.9g", f, u, got, w);
		} else {
			double w = F == F_LN ? std::log((double)u) : std::log2((double)u);
			REQUIRE(std::fabs(got - w) <= 2.5e-7 * std::fabs(w) + 1e-7, "%s(%a): got %.9g want %.9g", F == F_LN ? "ln" : "log2", u, got, w);
		}
	}
}
template <int F> static void whole(G &g) {
	LaneBackend lb;
	u64 k = g.each(65535);
	g.note("part %llu", (unsigned long long)k);
	g.nontrivial(true);
	for (u64 j = 0; j < (F >= F_LN ? 32768 : 65536); j += 128) {
		uint32_t a[128];
		for (int i = 0; i < 128; ++i) a[i] = part(k, j + i);
		check1<F>(a);
	}
}
// every significand, with exponents of the range in which the function is neither
// trivial nor out of range: the first groups fix the exponent, the last mixes them
template <int F> static void significands(G &g) {
	LaneBackend lb;
	static const int lo = F <= F_COS ? 110 : F <= F_EXP ? 103 : 1, hi = F <= F_COS ? 149 : F <= F_EXP ? 133 : 254;
	static const int fixed[3][3] = {{127, 126, 128}, {130, 126, 132}, {127, 126, 128}};
	u64 k = g.each(4 * 128 - 1), salt = g.draw(~0ULL), grp = k >> 7;
	g.note("significands %06llx.., exponents %s", (unsigned long long)(k & 127) << 16, grp < 3 ? std::to_string(fixed[F / 2][grp]).c_str() : "mixed");
	g.nontrivial(true);
	for (u64 j = 0; j < 65536; j += 128) {
		uint32_t a[128];
		for (int i = 0; i < 128; ++i) {
			u64 r = pbt::mix64(salt + j + i), e = grp < 3 ? fixed[F / 2][grp] : lo + r % (hi - lo + 1);
			a[i] = (uint32_t)(e << 23 | (k & 127) << 16 | (j + i)) | (F >= F_LN ? 0 : (uint32_t)(r >> 63) << 31);
		}
		check1<F>(a);
	}
}
SUBCHECK(sin_significands, 512, 8192, "sin(pi x) of 65536 floats per case: 128 cases take each of the 2^23 significands at one exponent, three exponents near 1 and then mixed ones; all non-trivial", 120000, 0, true) { significands<F_SIN>(g); }
SUBCHECK(cos_significands, 512, 8192, "the same for cos(pi x)", 120000, 0, true) { significands<F_COS>(g); }
SUBCHECK(exp2_significands, 512, 8192, "the same for 2^x, |x| about 1, 8 and 32 and mixed", 120000, 0, true) { significands<F_EXP2>(g); }
SUBCHECK(exp_significands, 512, 8192, "the same for e^x", 120000, 0, true) { significands<F_EXP>(g); }
SUBCHECK(ln_significands, 512, 8192, "the same for ln x, x > 0", 120000, 0, true) { significands<F_LN>(g); }
SUBCHECK(log2_significands, 512, 8192, "the same for log2 x, x > 0", 120000, 0, true) { significands<F_LOG2>(g); }
SUBCHECK(sin_all, 600, 65536, "sin(pi x) of 65536 floats per case, every exponent and sign among them, finite zero or normal; the thorough run covers all 2^32; all non-trivial", 120000, 0, true) { whole<F_SIN>(g); }
SUBCHECK(cos_all, 600, 65536, "the same for cos(pi x)", 120000, 0, true) { whole<F_COS>(g); }
SUBCHECK(exp2_all, 400, 65536, "the same for 2^x", 120000, 0, true) { whole<F_EXP2>(g); }
SUBCHECK(exp_all, 400, 65536, "the same for e^x", 120000, 0, true) { whole<F_EXP>(g); }
SUBCHECK(ln_all, 600, 65536, "the same for ln x, x > 0", 120000, 0, true) { whole<F_LN>(g); }
SUBCHECK(log2_all, 600, 65536, "the same for log2 x, x > 0", 120000, 0, true) { whole<F_LOG2>(g); }
PBT_MAIN
