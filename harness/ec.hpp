#pragma once
// Independent arithmetic on NIST P-256 (textbook affine formulas over BIGNUM).
#include "common.hpp"
#include <openssl/err.h>
struct EC {
	BN p, a, b, gx, gy, n;
	static void hexset(BN &x, const char *s) { BN_hex2bn(&x.n, s); }
	EC() {
		hexset(p, "FFFFFFFF00000001000000000000000000000000FFFFFFFFFFFFFFFFFFFFFFFF");
		hexset(a, "FFFFFFFF00000001000000000000000000000000FFFFFFFFFFFFFFFFFFFFFFFC");
		hexset(b, "5AC635D8AA3A93E7B3EBBD55769886BC651D06B0CC53B0F63BCE3C3E27D2604B");
		hexset(gx, "6B17D1F2E12C4247F8BCE6E563A440F277037D812DEB33A0F4A13945D898C296");
		hexset(gy, "4FE342E2FE1A7F9B8EE7EB4A7C0F9E162BCE33576B315ECECBB6406837BF51F5");
		hexset(n, "FFFFFFFF00000000FFFFFFFFFFFFFFFFBCE6FAADA7179E84F3B9CAC2FC632551");
	}
	static const EC &get() { static EC e; return e; }
	BN rhs(const BN &x) const {  // x^3+ax+b mod p
		BN t, u;
		BN_mod_sqr(t.n, x.n, p.n, bnctx());
		BN_mod_add(t.n, t.n, a.n, p.n, bnctx());
		BN_mod_mul(t.n, t.n, x.n, p.n, bnctx());
		BN_mod_add(t.n, t.n, b.n, p.n, bnctx());
		return t;
	}
	bool on(const BN &x, const BN &y) const {
		BN l;
		BN_mod_sqr(l.n, y.n, p.n, bnctx());
		return BN_cmp(l.n, rhs(x).n) == 0;
	}
};
struct Aff {
	bool inf = true;
	BN x, y;
	static Aff gen() { Aff g; g.inf = false; g.x = EC::get().gx; g.y = EC::get().gy; return g; }
	Aff neg() const { Aff r = *this; if (!inf && !BN_is_zero(y.n)) BN_sub(r.y.n, EC::get().p.n, y.n); return r; }
	Aff add(const Aff &o) const {
		const EC &e = EC::get();
		if (inf) return o;
		if (o.inf) return *this;
		BN l, t;
		if (!BN_cmp(x.n, o.x.n)) {
			if (BN_cmp(y.n, o.y.n) || BN_is_zero(y.n)) return Aff();
			BN_mod_sqr(l.n, x.n, e.p.n, bnctx());
			BN_mul_word(l.n, 3);
			BN_mod_add(l.n, l.n, e.a.n, e.p.n, bnctx());
			BN_mod_add(t.n, y.n, y.n, e.p.n, bnctx());
		} else {
			BN_mod_sub(l.n, o.y.n, y.n, e.p.n, bnctx());
			BN_mod_sub(t.n, o.x.n, x.n, e.p.n, bnctx());
		}
		BN_mod_inverse(t.n, t.n, e.p.n, bnctx());
		BN_mod_mul(l.n, l.n, t.n, e.p.n, bnctx());
		Aff r;
		r.inf = false;
		BN_mod_sqr(r.x.n, l.n, e.p.n, bnctx());
		BN_mod_sub(r.x.n, r.x.n, x.n, e.p.n, bnctx());
		BN_mod_sub(r.x.n, r.x.n, o.x.n, e.p.n, bnctx());
		BN_mod_sub(r.y.n, x.n, r.x.n, e.p.n, bnctx());
		BN_mod_mul(r.y.n, r.y.n, l.n, e.p.n, bnctx());
		BN_mod_sub(r.y.n, r.y.n, y.n, e.p.n, bnctx());
		return r;
	}
	std::vector<unsigned char> enc() const {
		if (inf) return {0};
		std::vector<unsigned char> v(65);
		v[0] = 4;
		BN_bn2binpad(x.n, &v[1], 32);
		BN_bn2binpad(y.n, &v[33], 32);
		return v;
	}
};
// k*G for any integer k >= 0
inline Aff mulG(const BN &k0) {
	static std::vector<Aff> pw;  // 2^i G
	if (pw.empty()) { Aff a = Aff::gen(); for (int i = 0; i < 256; ++i) { pw.push_back(a); a = a.add(a); } }
	BN k;
	BN_nnmod(k.n, k0.n, EC::get().n.n, bnctx());
	Aff r;
	for (int i = 0; i < 256; ++i) if (BN_is_bit_set(k.n, i)) r = r.add(pw[i]);
	return r;
}
// Scalars around the interesting values: 0, small, near the order, beyond it.
inline BN gen_scalar(G &g) {
	BN r;
	switch (g.weighted({3, 2, 6, 1})) {
	case 0: BN_set_word(r.n, g.draw(9)); break;
	case 1: { BN_copy(r.n, EC::get().n.n); int64_t d = g.irange(-4, 4); if (d < 0) BN_sub_word(r.n, -d); else BN_add_word(r.n, d); break; }
	case 2: { unsigned char b[32]; size_t n = g.chance(1, 4) ? g.draw(32) : 32; g.bytes(b, n); BN_bin2bn(b, (int)n, r.n); break; }
	default: { unsigned char b[48]; size_t n = 33 + g.draw(15); g.bytes(b, n); BN_bin2bn(b, (int)n, r.n); }
	}
	return r;
}
inline emp::BigInt to_big(const BN &v) {
	emp::BigInt b;
	std::vector<unsigned char> u(BN_num_bytes(v.n) + 1);
	BN_bn2bin(v.n, u.data());
	b.from_bin(u.data(), BN_num_bytes(v.n));
	return b;
}
