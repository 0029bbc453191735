// Conversions between booleans, integers, byte arrays and blocks.
#include "common.hpp"
typedef unsigned __int128 u128;
template <class T> static void ints(G &g, const char *tn) {
	const int W = sizeof(T) * 8;
	typedef typename std::make_unsigned<T>::type U;
	U v = (U)g.u64v();
	int len = (int)g.size(0, W);
	g.note("%s v=%llx len=%d", tn, (unsigned long long)v, len);
	g.nontrivial(v != 0 && len > 1);
	AlignedBuf b(W, g.draw(15)), c(len, g.draw(15));
	for (int i = 0; i < W; ++i) b.p[i] = (v >> i) & 1;
	T r = emp::bool_to_int<T>((bool *)b.p);
	REQUIRE((U)r == v, "bool_to_int<%s> gives %llx, expected %llx", tn, (unsigned long long)(U)r, (unsigned long long)v);
	emp::int_to_bool<T>((bool *)c.p, (T)v, len);
	for (int i = 0; i < len; ++i) REQUIRE(c.p[i] == ((v >> i) & 1), "int_to_bool<%s>(%llx, %d): bit %d is %d", tn, (unsigned long long)v, len, i, c.p[i]);
	REQUIRE(c.intact(), "int_to_bool wrote outside");
}
SUBCHECK(integers, 60000, 1200000, "round trip of values of every integer width through boolean arrays, partial lengths included; non-trivial: a nonzero value and length above 1") {
	switch (g.draw(7)) {
	case 0: ints<uint64_t>(g, "uint64_t"); break;
	case 1: ints<uint32_t>(g, "uint32_t"); break;
	case 2: ints<uint16_t>(g, "uint16_t"); break;
	case 3: ints<uint8_t>(g, "uint8_t"); break;
	case 4: ints<int64_t>(g, "int64_t"); break;
	case 5: ints<int32_t>(g, "int32_t"); break;
	case 6: ints<unsigned long long>(g, "unsigned long long"); break;
	default: ints<long long>(g, "long long"); break;
	}
}
template <class T> static void raw(G &g, size_t len, bool rev, const std::vector<unsigned char> &src, const std::vector<unsigned char> &old) {
	size_t nb = (src.size() + sizeof(T) - 1) / sizeof(T) * sizeof(T);
	AlignedBuf in(nb, 16), bo(len, g.draw(15)), out(nb, 16);
	memcpy(in.p, src.data(), src.size());
	if (rev) emp::to_bool((bool *)bo.p, (const T *)in.p, (int)len, true);
	else emp::to_bool((bool *)bo.p, (const T *)in.p, (int)len);
	for (size_t i = 0; i < len; ++i) {
		size_t at = rev ? len - 1 - i : i;
		REQUIRE(bo.p[at] == ((src[i / 8] >> (i % 8)) & 1), "to_bool: bool %zu of %zu%s is %d", at, len, rev ? " reversed" : "", bo.p[at]);
	}
	REQUIRE(bo.intact() && in.intact() && !memcmp(in.p, src.data(), src.size()), "to_bool changed something else");
	memcpy(out.p, old.data(), old.size());
	std::vector<unsigned char> keep(bo.p, bo.p + len);
	if (rev) emp::from_bool((const bool *)bo.p, (T *)out.p, (int)len, true);
	else emp::from_bool((const bool *)bo.p, (T *)out.p, (int)len);
	for (size_t i = 0; i < old.size() * 8; ++i) {
		int w = i < len ? (src[i / 8] >> (i % 8)) & 1 : (old[i / 8] >> (i % 8)) & 1;
		REQUIRE(((out.p[i / 8] >> (i % 8)) & 1) == w, "from_bool(%zu%s): bit %zu is %d, expected %d%s", len, rev ? " reversed" : "", i, 1 - w, w, i < len ? "" : " (past the length: must be kept)");
	}
	REQUIRE(out.intact() && !memcmp(keep.data(), bo.p, len), "from_bool changed something else");
}
SUBCHECK(memory, 40000, 800000, "to_bool and from_bool of up to 600 bits of arbitrary memory, both orders, over old contents; bits past the length keep their value; non-trivial: a length that is not a multiple of 8 or reversed order") {
	size_t len = g.size(0, g.chance(1, 5) ? 600 : 80, {8, 16, 32, 64, 128});
	bool rev = g.coin();
	std::vector<unsigned char> src = g.bytes((len + 7) / 8), old = g.bytes((len + 7) / 8);
	g.note("len=%zu %s src=%s old=%s", len, rev ? "reversed" : "in order", hex(src.data(), src.size()).c_str(), hex(old.data(), old.size()).c_str());
	g.nontrivial(len % 8 != 0 || (rev && len > 1));
	switch (g.draw(3)) {
	case 0: raw<uint8_t>(g, len, rev, src, old); break;
	case 1: raw<uint32_t>(g, len, rev, src, old); break;
	case 2: raw<uint64_t>(g, len, rev, src, old); break;
	default: raw<block>(g, len, rev, src, old);
	}
}
SUBCHECK(blocks, 40000, 800000, "block to 128 booleans and back; non-trivial: both halves nonzero") {
	block b = gen_block(g);
	g.note("%s", bs(b).c_str());
	g.nontrivial(blo(b) && bhi(b));
	AlignedBuf d(128, g.draw(15));
	emp::block_to_bool((bool *)d.p, b);
	for (int i = 0; i < 128; ++i) REQUIRE(d.p[i] == ((((unsigned char *)&b)[i / 8] >> (i % 8)) & 1), "block_to_bool(%s): bit %d is %d", bs(b).c_str(), i, d.p[i]);
	REQUIRE(d.intact(), "block_to_bool wrote outside");
	block r = emp::bool_to_block((bool *)d.p);
	REQUIRE(same(r, b), "bool_to_block gives %s, expected %s", bs(r).c_str(), bs(b).c_str());
}
SUBCHECK(arguments, 3000, 20000, "party and port parsed from a command line; existence of files; non-trivial: all") {
	int party = (int)g.irange(-3, 100), port = (int)g.draw(65535);
	std::string a = fmt("%d", party), b = fmt("%d", port);
	const char *av[] = {"prog", a.c_str(), b.c_str(), "77", nullptr};
	int p = -99, q = -99;
	emp::parse_party_and_port(av, &p, &q);
	g.note("%d %d", party, port);
	g.nontrivial();
	REQUIRE(p == party && q == port, "parsed %d %d from %d %d", p, q, party, port);
	char t[] = "/tmp/c19XXXXXX";
	int fd = mkstemp(t);
	if (fd < 0) return;
	if (g.coin() && write(fd, "x", 1) != 1) return;
	close(fd);
	bool e1 = emp::file_exists(t);
	unlink(t);
	bool e2 = emp::file_exists(t);
	REQUIRE(e1 && !e2, "file_exists gives %d for a file and %d once it is removed", e1, e2);
}
SUBCHECK(memory_large, 500, 8000, "to_bool and from_bool of up to 600000 bits, both orders, over old contents; non-trivial: more than 65536 bits", 60000) {
	size_t len = g.size(1000, 600000, {65536, 32768, 131072, 524288, 262144});
	bool rev = g.coin();
	std::vector<unsigned char> src = g.bytes((len + 7) / 8), old = g.bytes((len + 7) / 8);
	g.note("len=%zu %s", len, rev ? "reversed" : "in order");
	g.nontrivial(len > 65536);
	switch (g.draw(3)) {
	case 0: raw<uint8_t>(g, len, rev, src, old); break;
	case 1: raw<uint32_t>(g, len, rev, src, old); break;
	case 2: raw<uint64_t>(g, len, rev, src, old); break;
	default: raw<block>(g, len, rev, src, old);
	}
}
PBT_MAIN
