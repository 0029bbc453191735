// The elliptic-curve group and its scalars.
#include "ec.hpp"
#include "gc.hpp"
static BN gen_big(G &g) {
	BN r;
	if (g.chance(1, 4)) { BN_set_word(r.n, g.u64v()); return r; }
	unsigned char b[80];
	size_t n = g.chance(1, 4) ? g.draw(80) : 32;
	g.bytes(b, n);
	BN_bin2bn(b, (int)n, r.n);
	return r;
}
static void eqb(const emp::BigInt &x, const BN &w, const char *what) {
	emp::BigInt c(x);
	REQUIRE(BN_cmp(c.n, w.n) == 0, "%s gives %s, expected %s", what, [&] { BN t; BN_copy(t.n, c.n); return t.str(); }().c_str(), w.str().c_str());
	std::vector<unsigned char> e(BN_num_bytes(w.n));
	BN_bn2bin(w.n, e.data());
	REQUIRE((size_t)c.size() == e.size(), "%s: size() is %d, expected %zu", what, c.size(), e.size());
	AlignedBuf b(e.size(), 0);
	c.to_bin(b.p);
	REQUIRE(b.intact() && (e.empty() || !memcmp(b.p, e.data(), e.size())), "%s: to_bin gives %s, expected %s", what, hex(b.p, e.size()).c_str(), hex(e.data(), e.size()).c_str());
}
SUBCHECK(bigint, 12000, 200000, "histories of up to 10 operations over a pool of big integers (parse, copy, assign, self-assign, add, mul, mod, add_mod, mul_mod with repeated operands), every value compared with a reference after each step and serialised both ways; non-trivial: at least one arithmetic operation on nonzero values") {
	BN_CTX *ctx = BN_CTX_new();
	struct F { BN_CTX *c; ~F() { BN_CTX_free(c); } } f{ctx};
	std::vector<emp::BigInt> v;
	std::vector<BN> m;
	for (int i = 0; i < 3; ++i) { BN x = gen_big(g); m.push_back(x); v.push_back(to_big(x)); g.note("%s ", x.str().c_str()); }
	size_t n = g.size(1, 10);
	for (size_t s = 0; s < n; ++s) {
		size_t i = g.draw(2), j = g.draw(2), k = g.draw(2), d = g.draw(2);
		BN r;
		const char *w = "";
		switch (g.weighted({2, 1, 1, 3, 3, 3, 3, 3})) {
		case 0: {
			std::vector<unsigned char> b = g.bytes(g.size(0, 40, {32, 33}));
			if (g.chance(1, 3) && !b.empty()) b[0] = 0;
			BN_bin2bn(b.data(), (int)b.size(), r.n);
			Heap<unsigned char> h(b.size() + 1);
			memcpy(h.data(), b.data(), b.size());
			v[d].from_bin(h.data(), (int)b.size());
			w = "from_bin";
			break;
		}
		case 1: { emp::BigInt t(v[i]); v[d] = t; r = m[i]; w = "copy"; break; }
		case 2: v[d] = v[d]; r = m[d]; w = "self-assignment"; break;
		case 3: BN_add(r.n, m[i].n, m[j].n); v[d] = v[i].add(v[j]); w = "add"; break;
		case 4: BN_mul(r.n, m[i].n, m[j].n, ctx); v[d] = v[i].mul(v[j], ctx); w = "mul"; break;
		case 5: if (BN_is_zero(m[j].n)) continue; BN_mod(r.n, m[i].n, m[j].n, ctx); v[d] = v[i].mod(v[j], ctx); w = "mod"; break;
		case 6: if (BN_is_zero(m[k].n)) continue; BN_mod_add(r.n, m[i].n, m[j].n, m[k].n, ctx); v[d] = v[i].add_mod(v[j], v[k], ctx); w = "add_mod"; break;
		default: if (BN_is_zero(m[k].n)) continue; BN_mod_mul(r.n, m[i].n, m[j].n, m[k].n, ctx); v[d] = v[i].mul_mod(v[j], v[k], ctx); w = "mul_mod";
		}
		g.note("%s(%zu,%zu,%zu)->%zu ", w, i, j, k, d);
		if (w[0] == 'a' || w[0] == 'm') g.nontrivial(!BN_is_zero(m[i].n) && !BN_is_zero(m[j].n));
		m[d] = r;
		if (BN_num_bits(r.n) > 4000) { BN_set_word(m[d].n, 3); v[d] = to_big(m[d]); }
		for (int q = 0; q < 3; ++q) eqb(v[q], m[q], q == (int)d ? w : "another value, after it");
	}
}
struct PP { emp::Point p; BN k; };
static std::vector<unsigned char> pbin(emp::Point &p) {
	size_t n = p.size();
	AlignedBuf b(n, 0);
	p.to_bin(b.p, n);
	REQUIRE(b.intact(), "to_bin wrote outside");
	return std::vector<unsigned char>(b.p, b.p + n);
}
static void ppeq(emp::Point &p, const BN &k, const char *what) {
	std::vector<unsigned char> e = mulG(k).enc(), b = pbin(p);
	REQUIRE(b == e, "%s: point is %s, expected %s", what, hex(b.data(), b.size(), 65).c_str(), hex(e.data(), e.size(), 65).c_str());
}
SUBCHECK(group, 1600, 30000, "histories of up to 9 operations over a pool of points of known discrete logarithm in one or two group objects (generator, multiples, sums including equal, opposite and neutral points, inverses, copies, assignment, self-assignment, serialise and parse into fresh and used points, transfer through a channel); every result compared with textbook affine arithmetic; non-trivial: at least two operations on points other than the neutral one") {
	emp::Group grp[2];
	const EC &e = EC::get();
	std::vector<PP> v(3);
	for (auto &x : v) { x.k = gen_scalar(g); x.p = grp[0].mul_gen(to_big(x.k)); g.note("%s ", x.k.str().c_str()); }
	size_t n = g.size(1, 9);
	int real = 0;
	for (size_t s = 0; s < n; ++s) {
		size_t i = g.draw(2), j = g.draw(2), d = g.draw(2);
		BN r;
		std::string w;
		switch (g.weighted({1, 3, 6, 2, 2, 1, 3, 3, 2})) {
		case 0: BN_set_word(r.n, 1); v[d].p = v[d].p.group->get_generator(); w = "generator"; break;
		case 1: { r = gen_scalar(g); w = "mul_gen " + r.str(); emp::BigInt b = to_big(r); v[d].p = v[d].p.group->mul_gen(b); eqb(b, r, "scalar after mul_gen"); break; }
		case 2: {
			if (g.chance(1, 4)) { v[j].p = v[i].p.inv(); BN_sub(v[j].k.n, e.n.n, v[i].k.n); BN_nnmod(v[j].k.n, v[j].k.n, e.n.n, bnctx()); w = "inverse, then "; }
			BN_add(r.n, v[i].k.n, v[j].k.n);
			v[d].p = v[i].p.add(v[j].p);
			w += fmt("add(%zu,%zu)", i, j);
			break;
		}
		case 3: { BN t = gen_scalar(g); BN_mul(r.n, v[i].k.n, t.n, bnctx()); emp::BigInt b = to_big(t); v[d].p = v[i].p.mul(b); w = fmt("mul(%zu,%s)", i, t.str().c_str()); eqb(b, t, "scalar after mul"); break; }
		case 4: BN_sub(r.n, e.n.n, v[i].k.n); v[d].p = v[i].p.inv(); w = fmt("inv(%zu)", i); break;
		case 5: r = v[d].k; v[d].p = v[d].p; w = "self-assignment"; break;
		case 6: { r = v[i].k; emp::Point t(v[i].p); v[d].p = t; w = fmt("copy(%zu)", i); break; }
		case 7: {
			r = v[i].k;
			std::vector<unsigned char> b = pbin(v[i].p);
			emp::Group *q = &grp[g.draw(1)];
			if (g.coin()) { emp::Point t; t.from_bin(q, b.data(), b.size()); v[d].p = t; w = fmt("parse(%zu) fresh", i); }
			else { v[d].p.from_bin(q, b.data(), b.size()); w = fmt("parse(%zu) into a used point", i); }
			break;
		}
		default: {
			r = v[i].k;
			emp::MemIO io((int64_t)g.draw(300));
			io.send_pt(&v[i].p);
			size_t more = g.draw(2);
			for (size_t q = 0; q < more; ++q) io.send_pt(&v[q].p, 1);
			emp::Point t;
			io.recv_pt(&grp[g.draw(1)], &t);
			v[d].p = t;
			w = fmt("transfer(%zu)", i);
		}
		}
		g.note("%s->%zu ", w.c_str(), d);
		BN_nnmod(r.n, r.n, e.n.n, bnctx());
		v[d].k = r;
		if (!BN_is_zero(r.n)) ++real; else g.label("neutral point");
		ppeq(v[d].p, v[d].k, w.c_str());
		for (int q = 0; q < 3; ++q) {
			BN t; BN_nnmod(t.n, v[q].k.n, e.n.n, bnctx());
			bool eq = BN_cmp(t.n, r.n) == 0;
			if (v[q].p.group == v[d].p.group || true)
				REQUIRE((v[q].p == v[d].p) == eq, "%s: comparison of points %d and %zu gives %d", w.c_str(), q, d, !eq);
		}
	}
	for (auto &x : v) ppeq(x.p, x.k, "at the end");
	g.nontrivial(real >= 2);
	BN o;
	BN_copy(o.n, grp[0].order.n);
	REQUIRE(!BN_cmp(o.n, e.n.n), "the order of the group is %s", o.str().c_str());
}
SUBCHECK(random_scalars, 300, 4000, "200 scalars drawn from one or several group objects lie in [0, order), are pairwise distinct and reach the top quarter; all non-trivial") {
	emp::Group a;
	std::unique_ptr<emp::Group> b(g.coin() ? new emp::Group() : nullptr);
	std::set<std::string> seen;
	int top = 0;
	g.note("two groups: %d", (int)!!b);
	g.nontrivial();
	BN q;
	BN_rshift(q.n, EC::get().n.n, 2);
	BN_mul_word(q.n, 3);
	emp::BigInt x;
	for (int i = 0; i < 200; ++i) {
		if (b && (i & 1)) b->get_rand_bn(x); else a.get_rand_bn(x);
		REQUIRE(!BN_is_negative(x.n) && BN_cmp(x.n, EC::get().n.n) < 0, "scalar out of range");
		BN c; BN_copy(c.n, x.n);
		REQUIRE(seen.insert(c.str()).second, "a scalar repeats");
		top += BN_cmp(x.n, q.n) >= 0;
	}
	REQUIRE(top > 0, "none of 200 scalars is in the top quarter");
}
// System randomness scripted at OpenSSL's own entry points: extreme draws
// (all ones, the order itself, the order minus one, a tiny value) come first.
#include <openssl/rand.h>
namespace scripted {
static std::vector<std::vector<unsigned char>> script;
static size_t calls;
static u64 st;
static int bytes(unsigned char *b, int n) {
	if (calls < script.size()) {
		const std::vector<unsigned char> &s = script[calls];
		for (int i = 0; i < n; ++i) b[i] = s[(size_t)i % s.size()];
	} else for (int i = 0; i < n; ++i) { st = pbt::mix64(st + 1); b[i] = (unsigned char)st; }
	++calls;
	return 1;
}
static int status() { return 1; }
}
SUBCHECK(scalar_range, 4000, 60000, "scalars drawn with the system's random bytes scripted: the first 1 to 4 draws are all ones, the order, the order plus or minus a little, values between the order and 2^256, or random; every scalar lies in [0, order) and is a canonical big integer; non-trivial: a scripted draw is not below the order") {
	static emp::Group *grp = new emp::Group();
	static RAND_METHOD m = {nullptr, scripted::bytes, nullptr, nullptr, scripted::bytes, scripted::status};
	const EC &e = EC::get();
	scripted::script.clear();
	scripted::calls = 0;
	scripted::st = g.draw(~0ULL);
	size_t n = 1 + g.draw(3);
	bool hi = false;
	for (size_t i = 0; i < n; ++i) {
		BN x;
		BN_copy(x.n, e.n.n);
		switch (g.draw(4)) {
		case 0: BN_add_word(x.n, g.draw(5)); break;
		case 1: BN_sub_word(x.n, 1 + g.draw(4)); break;
		case 2: { BN lim; BN_set_word(lim.n, 1); BN_lshift(lim.n, lim.n, 256); BN_sub_word(lim.n, 1 + g.draw(3)); x = lim; break; }
		case 3: { BN o; BN_set_word(o.n, g.u64v()); BN_lshift(o.n, o.n, (int)g.draw(160)); BN_add(x.n, x.n, o.n); break; }
		default: { unsigned char b[32]; g.bytes(b, 32); BN_bin2bn(b, 32, x.n); }
		}
		if (BN_num_bits(x.n) > 256) { BN_set_word(x.n, 1); BN_lshift(x.n, x.n, 256); BN_sub_word(x.n, 1); }
		hi |= BN_cmp(x.n, e.n.n) >= 0;
		std::vector<unsigned char> b(32);
		BN_bn2binpad(x.n, b.data(), 32);
		scripted::script.push_back(b);
		g.note("%s ", x.str().c_str());
	}
	g.nontrivial(hi);
	const RAND_METHOD *old = RAND_get_rand_method();
	RAND_set_rand_method(&m);
	std::vector<emp::BigInt> v(n + 1);
	for (auto &x : v) grp->get_rand_bn(x);
	RAND_set_rand_method(old);
	if (!scripted::calls) { g.label("scalars do not come from OpenSSL's generator"); }
	for (auto &x : v) {
		BN c; BN_copy(c.n, x.n);
		REQUIRE(!BN_is_negative(x.n) && BN_cmp(x.n, e.n.n) < 0, "scalar %s is not below the order", c.str().c_str());
	}
}
PBT_MAIN
