// 128 computations at once: a wire is 128 bits, one per computation. Whatever
// is written over gates computes all of them; finite input spaces become small.
#pragma once
#include "common.hpp"
struct Lanes : public CircuitExecution {
	u64 ands = 0;
	block and_gate(const block &a, const block &b) override { ++ands; return _mm_and_si128(a, b); }
	block xor_gate(const block &a, const block &b) override { return _mm_xor_si128(a, b); }
	block not_gate(const block &a) override { return _mm_xor_si128(a, _mm_set1_epi32(-1)); }
	block public_label(bool b) override { return b ? _mm_set1_epi32(-1) : _mm_setzero_si128(); }
	uint64_t num_and() override { return ands; }
};
struct LanesProt : public ProtocolExecution {
	void feed(block *l, int, const bool *b, int n) override { for (int i = 0; i < n; ++i) l[i] = b[i] ? _mm_set1_epi32(-1) : _mm_setzero_si128(); }
	void reveal(bool *o, int, const block *l, int n) override { for (int i = 0; i < n; ++i) o[i] = blo(l[i]) & 1; }
};
struct LaneBackend {
	Lanes x;
	LanesProt p;
	LaneBackend() { CircuitExecution::circ_exec = &x; ProtocolExecution::prot_exec = &p; }
	~LaneBackend() { CircuitExecution::circ_exec = nullptr; ProtocolExecution::prot_exec = nullptr; }
};
inline void transpose32(uint32_t a[32]) {
	uint32_t m = 0x0000ffff;
	for (int j = 16; j; j >>= 1, m ^= m << j)
		for (int k = 0; k < 32; k = ((k | j) + 1) & ~j) {
			uint32_t t = ((a[k] >> j) ^ a[k | j]) & m;
			a[k | j] ^= t;
			a[k] ^= t << j;
		}
}
// bit i of v[j] <-> lane j of w[i], n <= 64
inline void to_lanes(const u64 v[128], Bit *w, size_t n) {
	for (size_t h = 0; h < n; h += 32)
		for (int q = 0; q < 4; ++q) {
			uint32_t t[32];
			for (int j = 0; j < 32; ++j) t[j] = (uint32_t)(v[32 * q + j] >> h);
			transpose32(t);
			for (size_t i = 0; i < 32 && h + i < n; ++i) memcpy((char *)&w[h + i].bit + 4 * q, &t[i], 4);
		}
}
inline void from_lanes(const Bit *w, u64 v[128], size_t n) {
	memset(v, 0, 128 * sizeof(u64));
	for (size_t h = 0; h < n; h += 32)
		for (int q = 0; q < 4; ++q) {
			uint32_t t[32];
			for (size_t i = 0; i < 32; ++i) { t[i] = 0; if (h + i < n) memcpy(&t[i], (const char *)&w[h + i].bit + 4 * q, 4); }
			transpose32(t);
			for (int j = 0; j < 32; ++j) v[32 * q + j] |= (u64)t[j] << h;
		}
}
inline bool lane(const Bit &b, int j) { return ((const unsigned char *)&b.bit)[j / 8] >> (j % 8) & 1; }
inline Integer lane_int(const u64 v[128], size_t n) { Integer r; r.bits.resize(n); if (n) to_lanes(v, r.bits.data(), n); return r; }
// a 64-bit value from patterns arithmetic gets wrong, from a fast generator
inline u64 pat(pbt::Rng &r) {
	switch (r.below(10)) {
	case 0: return (u64)1 << r.below(64);
	case 1: return ((u64)1 << r.below(64)) - 1;
	case 2: return (u64)0 - ((u64)1 << r.below(64));
	case 3: return r.below(16);
	case 4: return (u64)0 - r.below(16);
	case 5: return r.next() & r.next() & r.next();
	case 6: return r.next() | r.next() | r.next();
	case 7: return r.next() >> r.below(64);
	default: return r.next();
	}
}
