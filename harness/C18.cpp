// Bit-matrix transposition and block array helpers.
#include "common.hpp"
#include <sstream>
static bool bit(const unsigned char *m, u64 ncols, u64 r, u64 c) { u64 k = r * ncols + c; return (m[k / 8] >> (k % 8)) & 1; }
static void trans_case(G &g, size_t rows, size_t cols) {
	size_t n = rows * cols / 8;
	size_t oi = g.draw(1) * 0, oo = g.draw(15);
	(void)oi;
	AlignedBuf in(n, g.draw(15)), out(n, oo);
	g.bytes(in.p, n);
	std::vector<unsigned char> keep(in.p, in.p + n);
	g.note("%zux%zu", rows, cols);
	g.nontrivial(rows >= 16 || cols >= 16);
	if (rows % 16) g.label("8 rows left over");
	if (rows % 16 && cols % 16) g.label("8x8 corner");
	emp::sse_trans(out.p, in.p, rows, cols);
	for (u64 r = 0; r < rows; ++r)
		for (u64 c = 0; c < cols; ++c)
			REQUIRE(bit(in.p, cols, r, c) == bit(out.p, rows, c, r), "%zux%zu: entry (%llu,%llu) is not at (%llu,%llu) of the result", rows, cols, (unsigned long long)r, (unsigned long long)c, (unsigned long long)c, (unsigned long long)r);
	REQUIRE(out.intact(), "%zux%zu: wrote outside the result", rows, cols);
	REQUIRE(in.intact() && !memcmp(keep.data(), in.p, n), "%zux%zu: input changed", rows, cols);
}
SUBCHECK(transpose, 9000, 180000, "matrices of 8..400 rows and columns (multiples of 8), any alignment, generated bits, every entry checked; non-trivial: larger than 8x8") {
	size_t r = 8 * g.size(1, g.chance(1, 5) ? 50 : 16, {16, 2}), c = 8 * g.size(1, g.chance(1, 5) ? 50 : 16, {16, 2});
	trans_case(g, r, c);
}
SUBCHECK(transpose_wide, 220, 4000, "tall or wide matrices: one side 8..256, the other up to 8192 (the shapes oblivious-transfer extension uses); all non-trivial", 60000) {
	size_t a = g.chance(1, 2) ? 128 : 8 * g.size(1, 32, {16}), b = 8 * g.size(1, 1024, {128, 256, 1024});
	if (g.coin()) trans_case(g, a, b); else trans_case(g, b, a);
}
SUBCHECK(blocks, 30000, 600000, "XOR of block arrays (with an array, with one block, in place), comparison of arrays differing in at most one bit or by equal amounts in several blocks, set_bit, getLSB, makeBlock, printing; non-trivial: at least 2 blocks") {
	size_t n = g.size(0, 70, {8, 16, 4});
	Heap<block> x(n + 1), y(n + 1), z(n + 1);
	for (size_t i = 0; i < n; ++i) { x[i] = gen_block(g); y[i] = gen_block(g); }
	block guard = mkblk(0x77, 0x99), k = gen_block(g);
	x[n] = y[n] = mkblk(1, 2);
	for (size_t i = 0; i <= n; ++i) z[i] = guard;
	g.note("n=%zu k=%s", n, bs(k).c_str());
	g.nontrivial(n >= 2);
	emp::xorBlocks_arr(z.data(), x.data(), y.data(), (int)n);
	for (size_t i = 0; i < n; ++i) REQUIRE(same(z[i], bxor(x[i], y[i])), "array XOR, element %zu of %zu", i, n);
	REQUIRE(same(z[n], guard), "array XOR wrote past the end");
	emp::xorBlocks_arr(z.data(), x.data(), k, (int)n);
	for (size_t i = 0; i < n; ++i) REQUIRE(same(z[i], bxor(x[i], k)), "XOR with one block, element %zu of %zu", i, n);
	REQUIRE(same(z[n], guard), "XOR with one block wrote past the end");
	for (size_t i = 0; i < n; ++i) z[i] = x[i];
	emp::xorBlocks_arr(z.data(), z.data(), y.data(), (int)n);
	for (size_t i = 0; i < n; ++i) REQUIRE(same(z[i], bxor(x[i], y[i])), "in-place array XOR, element %zu of %zu", i, n);
	// comparison: equal, then one bit changed
	for (size_t i = 0; i < n; ++i) z[i] = x[i];
	REQUIRE(emp::cmpBlock(x.data(), z.data(), (int)n), "equal arrays of %zu compare different", n);
	if (n) {
		size_t at = g.draw(n - 1);
		unsigned bt = g.draw(127);
		((unsigned char *)&z[at])[bt / 8] ^= 1u << (bt % 8);
		REQUIRE(!emp::cmpBlock(x.data(), z.data(), (int)n), "arrays of %zu blocks that differ in bit %u of block %zu compare equal", n, bt, at);
		REQUIRE(emp::cmpBlock(x.data(), z.data(), (int)at), "a difference past the compared range matters");
		// the same change in several blocks, possibly at another place of the block
		block d = bxor(z[at], x[at]);
		if (g.coin()) d = gen_block(g);
		size_t many = g.size(2, 20, {4, 8, 16});
		bool any = false;
		for (size_t i = 0; i < n; ++i) z[i] = x[i];
		for (size_t j = 0; j < many && j < n; ++j) {
			size_t q = (at + j * (1 + g.draw(2))) % n;
			block e = g.chance(1, 3) ? mkblk(blo(d), bhi(d)) : d;
			z[q] = bxor(x[q], e);
		}
		for (size_t i = 0; i < n; ++i) any |= !same(x[i], z[i]);
		REQUIRE(emp::cmpBlock(x.data(), z.data(), (int)n) == !any, "arrays of %zu blocks that differ in several blocks compare equal", n);
	}
	unsigned b = g.draw(127);
	block s = emp::set_bit(k, (int)b);
	block w = k;
	((unsigned char *)&w)[b / 8] |= 1u << (b % 8);
	REQUIRE(same(s, w), "set_bit(%s,%u) = %s", bs(k).c_str(), b, bs(s).c_str());
	REQUIRE(emp::getLSB(k) == (bool)(blo(k) & 1), "getLSB(%s)", bs(k).c_str());
	u64 hi = g.u64v(), lo = g.u64v();
	block m = emp::makeBlock(hi, lo);
	REQUIRE(blo(m) == lo && bhi(m) == hi, "makeBlock(%llx,%llx) = %s", (unsigned long long)hi, (unsigned long long)lo, bs(m).c_str());
	std::ostringstream o;
	emp::operator<<(o, m);
	o << 255;
	REQUIRE(o.str() == fmt("%016llx %016llx255", (unsigned long long)hi, (unsigned long long)lo), "printing gives %s", o.str().c_str());
	REQUIRE(same(emp::sigma(k), ref_sigma(k)), "sigma(%s)", bs(k).c_str());
	REQUIRE(same(emp::select_mask[0], mkblk(0, 0)) && same(emp::select_mask[1], mkblk(~0ULL, ~0ULL)) && same(emp::zero_block, mkblk(0, 0)) && same(emp::all_one_block, mkblk(~0ULL, ~0ULL)), "constants");
}
SUBCHECK(transpose_long, 150, 2500, "matrices with one side of 8..128 and the other up to 300000; all non-trivial", 60000) {
	size_t a = 8 * g.size(1, 16, {16, 2}), b = 8 * g.size(1000, 37500, {8192, 4096, 16384, 32768});
	if (g.coin()) trans_case(g, a, b); else trans_case(g, b, a);
}
SUBCHECK(blocks_large, 400, 6000, "XOR and comparison of arrays of up to 200000 blocks differing in at most one bit; non-trivial: more than 4096 blocks", 60000) {
	size_t n = g.size(1000, 200000, {65536, 32768, 131072, 4096});
	std::vector<block> x(n), y(n);
	g.bytes(x.data(), n * 16);
	g.bytes(y.data(), n * 16);
	block k = gen_block(g);
	g.note("n=%zu k=%s", n, bs(k).c_str());
	g.nontrivial(n > 4096);
	AlignedBuf zb(n * 16, 16);
	block *z = (block *)zb.p;
	emp::xorBlocks_arr(z, x.data(), y.data(), (int)n);
	for (size_t i = 0; i < n; ++i) REQUIRE(same(z[i], bxor(x[i], y[i])), "array XOR, element %zu of %zu", i, n);
	emp::xorBlocks_arr(z, x.data(), k, (int)n);
	for (size_t i = 0; i < n; ++i) REQUIRE(same(z[i], bxor(x[i], k)), "XOR with one block, element %zu of %zu", i, n);
	REQUIRE(zb.intact(), "XOR wrote outside");
	memcpy(z, x.data(), n * 16);
	REQUIRE(emp::cmpBlock(x.data(), z, (int)n), "equal arrays of %zu compare different", n);
	for (int rep = 0; rep < 6; ++rep) {
		size_t at = g.chance(1, 2) ? n - 1 - g.draw(std::min<size_t>(n - 1, 20)) : g.draw(n - 1);
		unsigned bt = g.draw(127);
		unsigned char *q = (unsigned char *)&z[at] + bt / 8, m = 1u << (bt % 8);
		*q ^= m;
		REQUIRE(!emp::cmpBlock(x.data(), z, (int)n), "arrays of %zu blocks that differ in bit %u of block %zu compare equal", n, bt, at);
		REQUIRE(emp::cmpBlock(x.data(), z, (int)at), "a difference past the compared range matters");
		*q ^= m;
	}
}
PBT_MAIN
