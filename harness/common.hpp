#pragma once
#include "../engine/pbt.hpp"
#include "emp-tool/emp-tool.h"
#include <dlfcn.h>
#include <openssl/bn.h>
#include <openssl/evp.h>
#include <openssl/sha.h>
#include <random>
#include <type_traits>
using pbt::G;
using pbt::fmt;
using pbt::hex;
using emp::block;
using emp::Bit;
using emp::Integer;
using emp::Float;
using emp::CircuitExecution;
using emp::ProtocolExecution;
using emp::ALICE;
using emp::BOB;
using emp::PUBLIC;
typedef uint64_t u64;
#define REQUIRE(c, ...) PBT_CHECK(c, __VA_ARGS__)

// ---- deterministic "system randomness" ----
// The library seeds itself from std::random_device. Inside a case the numbers
// come from a stream fixed by the case, so that a case replays exactly; with
// rd_real set they come from the system.
namespace rdctl {
inline bool &real() { static bool r = false; return r; }
inline std::atomic<u64> &ctr() { static std::atomic<u64> c{0}; return c; }
inline u64 &key() { static u64 k = 0; return k; }
inline unsigned &flip_word() { static unsigned w = 0; return w; }
inline unsigned &flip_mask() { static unsigned m = 0; return m; }
}
#ifndef NO_RD_INTERPOSE
namespace std {
random_device::result_type random_device::_M_getval() {
	if (rdctl::real()) {
		typedef unsigned (*fn)(random_device *);
		static fn f = (fn)dlsym(RTLD_NEXT, "_ZNSt13random_device9_M_getvalEv");
		return f(this);
	}
	u64 at = rdctl::ctr()++;
	return (unsigned)pbt::mix64(pbt::mix64(rdctl::key()) + at) ^ (at == rdctl::flip_word() ? rdctl::flip_mask() : 0);
}
}
#endif
struct RdInit {
	RdInit() { pbt::per_case_hook() = [](u64 k) { rdctl::key() = k; rdctl::ctr() = 0; rdctl::real() = false; }; }
};
static RdInit rd_init_;
// Make the library's own randomness depend on the case.
inline void seed_rd(G &g) { rdctl::key() = g.draw(0xffffffff); rdctl::ctr() = 0; }

// ---- blocks ----
inline block blk_of(const void *p) { block b; memcpy(&b, p, 16); return b; }
inline bool same(const block &a, const block &b) { return memcmp(&a, &b, 16) == 0; }
inline std::string bs(const block &b) { return hex(&b, 16); }
inline block mkblk(u64 hi, u64 lo) { u64 v[2] = {lo, hi}; return blk_of(v); }
inline u64 blo(const block &b) { u64 v[2]; memcpy(v, &b, 16); return v[0]; }
inline u64 bhi(const block &b) { u64 v[2]; memcpy(v, &b, 16); return v[1]; }
inline block bxor(const block &a, const block &b) { return mkblk(bhi(a) ^ bhi(b), blo(a) ^ blo(b)); }
inline block gen_block(G &g) {
	u64 k = g.weighted({2, 1, 5});
	if (k == 0) return mkblk(0, g.u64v());
	if (k == 1) return mkblk(g.u64v(), 0);
	u64 lo = g.u64v();
	return mkblk(g.u64v(), lo);
}
struct AlignedBuf {  // n bytes at a chosen offset from a 64-byte boundary, with canaries
	std::vector<unsigned char> v;
	unsigned char *p;
	size_t n;
	static const size_t PADB = 96;
	AlignedBuf(size_t n_, size_t off, int fill = 0xEE) : v(n_ + 2 * PADB + 192, 0xC7), n(n_) {
		uintptr_t a = ((uintptr_t)v.data() + PADB + 63) & ~(uintptr_t)63;
		p = (unsigned char *)a + off;
		if (n) memset(p, fill, n);
	}
	bool intact() const {
		for (const unsigned char *q = v.data(); q < p; ++q) if (*q != 0xC7) return false;
		for (const unsigned char *q = p + n; q < v.data() + v.size(); ++q) if (*q != 0xC7) return false;
		return true;
	}
};
// Exact-size heap allocation, so that address sanitizer sees an overrun.
template <class T> struct Heap {
	T *p; size_t n;
	explicit Heap(size_t n_) : p((T *)aligned_alloc(64, ((n_ * sizeof(T) + 63) / 64) * 64)), n(n_) {}
	~Heap() { free(p); }
	T *data() { return p; }
	T &operator[](size_t i) { return p[i]; }
	Heap(const Heap &) = delete;
};

// ---- reference AES-128 (OpenSSL) ----
struct RefAES {
	EVP_CIPHER_CTX *c, *d;
	explicit RefAES(const block &key) {
		c = EVP_CIPHER_CTX_new();
		EVP_EncryptInit_ex(c, EVP_aes_128_ecb(), nullptr, (const unsigned char *)&key, nullptr);
		EVP_CIPHER_CTX_set_padding(c, 0);
		d = EVP_CIPHER_CTX_new();
		EVP_DecryptInit_ex(d, EVP_aes_128_ecb(), nullptr, (const unsigned char *)&key, nullptr);
		EVP_CIPHER_CTX_set_padding(d, 0);
	}
	RefAES(const RefAES &) = delete;
	~RefAES() { EVP_CIPHER_CTX_free(c); EVP_CIPHER_CTX_free(d); }
	block enc(const block &in) {
		block o; int l = 0;
		EVP_EncryptUpdate(c, (unsigned char *)&o, &l, (const unsigned char *)&in, 16);
		if (l != 16) throw pbt::Failure{"reference AES failed"};
		return o;
	}
	void enc(void *out, const void *in, size_t nblk) {
		int l = 0;
		if (nblk) EVP_EncryptUpdate(c, (unsigned char *)out, &l, (const unsigned char *)in, (int)nblk * 16);
	}
	block dec(const block &in) {
		block o; int l = 0;
		EVP_DecryptUpdate(d, (unsigned char *)&o, &l, (const unsigned char *)&in, 16);
		return o;
	}
};
inline block ref_sigma(const block &a) {  // (hi, lo) -> (hi^lo, hi)
	return mkblk(bhi(a) ^ blo(a), bhi(a));
}

// ---- plain backend ----
struct Plain {
	Plain() { emp::setup_plain_prot(false, ""); }
	~Plain() { emp::finalize_plain_prot(); CircuitExecution::circ_exec = nullptr; ProtocolExecution::prot_exec = nullptr; }
};

// ---- a back end that says nothing about its labels ----
// A label is authenticated random; a wire nobody produced is "not a wire", and
// so is everything computed from it. Only opening such a wire is an error.
struct Opaque : public CircuitExecution {
	u64 key, ctr = 0, ands = 0;
	block pub[2];
	explicit Opaque(u64 k) : key(pbt::mix64(k ^ 0x0bad5eed)) { pub[0] = lab(false); pub[1] = lab(true); }
	block lab(bool v) {
		u64 lo = (pbt::mix64(key + 0x9e3779b97f4a7c15ULL * ++ctr) & ~(1ULL << 17)) | (u64)(v != (bool)(key & 1)) << 17;
		return mkblk(pbt::mix64(lo ^ (key * 3 + 1)), lo);
	}
	int val(const block &b) const {  // 0, 1, or -1: not a wire
		if (bhi(b) != pbt::mix64(blo(b) ^ (key * 3 + 1))) return -1;
		return (int)((blo(b) >> 17 & 1) != (key & 1));
	}
	block junk() { u64 h = pbt::mix64(key ^ ++ctr); return mkblk(h, ctr); }
	block and_gate(const block &a, const block &b) override { ++ands; int x = val(a), y = val(b); return x < 0 || y < 0 ? junk() : lab(x && y); }
	block xor_gate(const block &a, const block &b) override { int x = val(a), y = val(b); return x < 0 || y < 0 ? junk() : lab(x != y); }
	block not_gate(const block &a) override { int x = val(a); return x < 0 ? junk() : lab(!x); }
	block public_label(bool b) override { return pub[b]; }
	uint64_t num_and() override { return ands; }
};
struct OpaqueProt : public ProtocolExecution {
	Opaque *e;
	explicit OpaqueProt(Opaque *e) : e(e) {}
	void feed(block *l, int, const bool *b, int n) override { for (int i = 0; i < n; ++i) l[i] = e->lab(b[i]); }
	void reveal(bool *o, int, const block *l, int n) override {
		for (int i = 0; i < n; ++i) {
			int v = e->val(l[i]);
			if (v < 0) throw pbt::Failure{fmt("bit %d of an opened value was never set", i)};
			o[i] = v;
		}
	}
};
// One of the two.
struct Backend {
	std::unique_ptr<Opaque> e;
	std::unique_ptr<OpaqueProt> p;
	explicit Backend(G &g) {
		if (g.chance(1, 4)) {
			e.reset(new Opaque(g.draw(0xffff)));
			p.reset(new OpaqueProt(e.get()));
			CircuitExecution::circ_exec = e.get();
			ProtocolExecution::prot_exec = p.get();
		} else emp::setup_plain_prot(false, "");
	}
	~Backend() { if (!e) emp::finalize_plain_prot(); CircuitExecution::circ_exec = nullptr; ProtocolExecution::prot_exec = nullptr; }
};

// ---- reference integers: BIGNUM modulo 2^n ----
struct BN {
	BIGNUM *n;
	BN() : n(BN_new()) {}
	BN(const BN &o) : n(BN_dup(o.n)) {}
	explicit BN(u64 v) : n(BN_new()) { BN_set_word(n, v); }
	BN &operator=(const BN &o) { BN_copy(n, o.n); return *this; }
	~BN() { BN_free(n); }
	std::string str() const { char *s = BN_bn2hex(n); std::string r = s; OPENSSL_free(s); return r; }
};
inline BN_CTX *bnctx() { static BN_CTX *c = BN_CTX_new(); return c; }
typedef std::vector<bool> Bits;
inline BN bn_of(const Bits &b) {
	BN r;
	BN_zero(r.n);
	for (size_t i = 0; i < b.size(); ++i) if (b[i]) BN_set_bit(r.n, (int)i);
	return r;
}
inline BN bn_signed(const Bits &b) {
	BN r = bn_of(b);
	if (!b.empty() && b.back()) {
		BN m; BN_zero(m.n); BN_set_bit(m.n, (int)b.size());
		BN_sub(r.n, r.n, m.n);
	}
	return r;
}
inline Bits bits_of(const BN &v, size_t n) {
	BN m, r; BN_zero(m.n); BN_set_bit(m.n, (int)n);
	BN_nnmod(r.n, v.n, m.n, bnctx());
	Bits o(n);
	for (size_t i = 0; i < n; ++i) o[i] = BN_is_bit_set(r.n, (int)i);
	return o;
}
inline std::string sbits(const Bits &b) {
	if (b.size() > 40) return bn_of(b).str() + fmt("h/%zu", b.size());
	std::string s;
	for (size_t i = b.size(); i-- > 0;) s += b[i] ? '1' : '0';
	return s.empty() ? "e" : s;
}
inline Bits gen_bits(G &g, size_t n) {
	Bits b(n);
	u64 kind = g.weighted({4, 3, 2, 2, 2, 1, 1});
	// 0: 64-bit pattern word(s); 1: random; 2: small; 3: small negative;
	// 4: single bit / its neighbours; 5: min; 6: max
	switch (kind) {
	case 0:
		for (size_t i = 0; i < n; i += 64) {
			u64 w = g.u64v();
			for (size_t j = i; j < n && j < i + 64; ++j) b[j] = (w >> (j - i)) & 1;
		}
		break;
	case 1: {
		std::vector<unsigned char> v((n + 7) / 8);
		for (size_t i = 0; i < v.size(); i += 8) {
			u64 w = g.draw(~0ULL);
			for (size_t j = i; j < v.size() && j < i + 8; ++j) v[j] = (w >> (8 * (j - i))) & 255;
		}
		for (size_t i = 0; i < n; ++i) b[i] = (v[i / 8] >> (i % 8)) & 1;
		break;
	}
	case 2: {
		u64 w = g.draw(9);
		for (size_t i = 0; i < n; ++i) b[i] = i < 64 && ((w >> i) & 1);
		break;
	}
	case 3: {
		u64 w = ~g.draw(9);
		for (size_t i = 0; i < n; ++i) b[i] = i < 64 ? ((w >> i) & 1) : true;
		break;
	}
	case 4: {
		if (!n) break;
		size_t k = g.draw(n - 1);
		u64 how = g.draw(3);
		for (size_t i = 0; i < n; ++i) b[i] = how == 0 ? i == k : how == 1 ? i < k : how == 2 ? i >= k : i != k;
		break;
	}
	case 5: if (n) b[n - 1] = true; break;
	default: for (size_t i = 0; i + 1 < n; ++i) b[i] = true;
	}
	return b;
}
// How an operand enters the computation.
inline int gen_party(G &g) { return (int)g.of<int>({ALICE, BOB, PUBLIC, ALICE}); }
inline Integer make_int(const Bits &b, int party) {
	std::unique_ptr<bool[]> a(new bool[b.size() + 1]);
	for (size_t i = 0; i < b.size(); ++i) a[i] = b[i];
	Integer r;
	r.init(a.get(), (int)b.size(), party);
	return r;
}
// Bits of mixed origin: party < 0 takes each bit from a random owner.
inline Integer gen_int(G &g, const Bits &b) {
	if (g.chance(1, 5)) {
		u64 s = g.draw(0xffffffff);
		Integer r;
		for (size_t i = 0; i < b.size(); ++i) {
			int p = (int)(pbt::mix64(s + i) % 3);
			r.bits.push_back(Bit(b[i], p));
		}
		return r;
	}
	return make_int(b, gen_party(g));
}
inline Bits open_bits(const Integer &x) {
	std::unique_ptr<bool[]> a(new bool[x.size() + 1]);
	memset(a.get(), 2, x.size() + 1);
	x.revealBools(a.get(), PUBLIC);
	Bits r(x.size());
	for (size_t i = 0; i < x.size(); ++i) {
		unsigned char c;
		memcpy(&c, a.get() + i, 1);
		if (c > 1) throw pbt::Failure{fmt("revealed bit %zu is not 0/1", i)};
		r[i] = c;
	}
	return r;
}
