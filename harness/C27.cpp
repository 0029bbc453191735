// AES-128-CTR inside and outside of circuits is the same cipher.
#include "gc.hpp"
#include "repeat.hpp"
#include "embed.hpp"
unsigned int emp_tool_circuits_files_bristol_fashion_Keccak_f_txt_len;
unsigned char emp_tool_circuits_files_bristol_fashion_Keccak_f_txt[1];
typedef std::vector<unsigned char> Bytes;

// iv + k as a 128-bit big-endian number
static block ctr_at(const block &iv, u64 k0, u64 k1) {
	unsigned char b[16];
	memcpy(b, &iv, 16);
	unsigned __int128 v = 0;
	for (int i = 0; i < 16; ++i) v = (v << 8) | b[i];
	v += (unsigned __int128)k0 + k1;
	for (int i = 15; i >= 0; --i) { b[i] = (unsigned char)v; v >>= 8; }
	return blk_of(b);
}
static Bytes stream(const block &key, const block &iv, u64 start, size_t nbytes) {
	RefAES a(key);
	Bytes o;
	for (u64 k = 0; o.size() < nbytes; ++k) {
		block e = a.enc(ctr_at(iv, start, k));
		o.insert(o.end(), (unsigned char *)&e, (unsigned char *)&e + 16);
	}
	o.resize(nbytes);
	return o;
}
// Block numbers stay below 2^64 (a longer message cannot exist).
static u64 clamp(u64 start, u64 blocks) { return start > ~0ULL - blocks ? ~0ULL - blocks : start; }
static u64 gen_start(G &g) {
	switch (g.weighted({3, 3, 1, 1, 1})) {
	case 0: return 0;
	case 1: return g.draw(20);
	case 2: return 0 - g.draw(20);
	case 3: return (1ULL << 32) + g.draw(8) - 4;
	default: return g.u64v();
	}
}
static block gen_iv(G &g) {
	block b = gen_block(g);
	unsigned char *p = (unsigned char *)&b;
	switch (g.weighted({4, 2, 2})) {
	case 0: break;
	case 1: { size_t k = 1 + g.draw(15); for (size_t i = 0; i < k; ++i) p[15 - i] = 0xff; p[15] -= (unsigned char)g.draw(4); break; }  // a carry is near
	default: memset(p, 0xff, 8); { u64 v = __builtin_bswap64(0 - 1 - g.draw(4)); memcpy(p + 8, &v, 8); }
	}
	return b;
}
static bool near_carry(const block &iv, u64 start, size_t blocks) {
	block a = ctr_at(iv, 0, 0), b = ctr_at(iv, start, blocks);
	return memcmp(&a, &b, 8) != 0;
}
template <class T> static void outside(G &g, size_t most) {
	block key = gen_block(g), iv = gen_iv(g);
	u64 start = gen_start(g);
	size_t n = g.size(0, most, {16, 32, 4, 65536, 4096, 1024});
	size_t nb = n * sizeof(T);
	u64 mode = g.draw(2);  // 0 separate, 1 in place, 2 key stream only
	if (mode == 2) nb = n;
	start = clamp(start, nb / 16);
	g.note("element size %zu, %zu elements, mode %d, start %llu, key %s iv %s", sizeof(T), n, (int)mode, (unsigned long long)start, bs(key).c_str(), bs(iv).c_str());
	g.label(mode == 0 ? "separate" : mode == 1 ? "in place" : "key stream only");
	if (near_carry(iv, start, nb / 16)) g.label("carry into the upper half");
	g.nontrivial(nb > 16 && start);
	Bytes in = g.bytes(nb), ks = stream(key, iv, start, nb);
	Heap<T> ih((nb + sizeof(T) - 1) / sizeof(T));
	if (nb) memcpy(ih.p, in.data(), nb);
	AlignedBuf out(nb, g.draw(15));
	int r;
	if (mode == 0 && start == 0 && g.coin()) r = n == 1 && g.coin() ? emp::aes_128_ctr<T>(key, iv, ih.p, out.p) : emp::aes_128_ctr<T>(key, iv, ih.p, out.p, n);
	else if (mode == 0) r = emp::aes_128_ctr<T>(key, iv, ih.p, out.p, n, start);
	else if (mode == 1) r = emp::aes_128_ctr<T>(key, iv, ih.p, nullptr, n, start);
	else r = emp::aes_128_ctr<T>(key, iv, (T *)nullptr, out.p, n, start);
	REQUIRE(r == 0, "returned %d", r);
	const unsigned char *o = mode == 1 ? (const unsigned char *)ih.p : out.p;
	for (size_t i = 0; i < nb; ++i) {
		unsigned char w = mode == 2 ? ks[i] : in[i] ^ ks[i];
		REQUIRE(o[i] == w, "byte %zu is %02x, expected %02x", i, o[i], w);
	}
	if (mode == 0 && nb) REQUIRE(memcmp(ih.p, in.data(), nb) == 0, "input changed");
	REQUIRE(out.intact(), "wrote outside of the output");
}
SUBCHECK(outside_circuit, 60000, 1200000, "key, counter block (carries near), start position, length, element type and mode generated; byte-exact; non-trivial: more than one block from a non-zero start") {
	switch (g.draw(2)) { case 0: outside<unsigned char>(g, 400); break; case 1: outside<uint32_t>(g, 400); break; default: outside<u64>(g, 400); }
}
SUBCHECK(outside_large, 600, 10000, "the same for up to 300000 elements; non-trivial as above", 60000) {
	switch (g.draw(2)) { case 0: outside<unsigned char>(g, 300000); break; case 1: outside<uint32_t>(g, 300000); break; default: outside<u64>(g, 300000); }
}
SUBCHECK(no_buffers, 10, 10, "neither input nor output: an error is returned; all non-trivial") {
	g.nontrivial(); g.note("null");
	block k = gen_block(g);
	REQUIRE(emp::aes_128_ctr<unsigned char>(k, k, (unsigned char *)nullptr, nullptr, 5, 0) != 0, "accepted");
}

static void bits_in(Opaque &x, const block &v, block *o) { for (int i = 0; i < 128; ++i) o[i] = x.lab((((const unsigned char *)&v)[i / 8] >> (i % 8)) & 1); }
SUBCHECK(in_circuit, 6000, 100000, "a sequence of encryptions with one calculator: all three forms (key and counter block secret or not), separate, in place and key stream, with key reuse; bit-exact; non-trivial: more than one block or a non-zero start") {
	static Opaque &x = *new Opaque(27);  // as long as the shared calculator
	static OpaqueProt &p = *new OpaqueProt(&x);
	CircuitExecution::circ_exec = &x; ProtocolExecution::prot_exec = &p;
	static emp::AES_128_CTR_Calculator *calc = nullptr;
	emp::AES_128_CTR_Calculator *c;
	bool fresh = g.chance(1, 10);
	if (!calc) { calc = new emp::AES_128_CTR_Calculator(); }
	c = fresh ? new emp::AES_128_CTR_Calculator() : calc;
	std::unique_ptr<emp::AES_128_CTR_Calculator> own(fresh ? c : nullptr);
	block lastkey = mkblk(0, 0);
	bool haskey = false;
	size_t n = 1 + g.draw(2);
	for (size_t q = 0; q < n; ++q) {
		u64 form = g.draw(2);
		bool reuse = form != 2 && haskey && g.chance(1, 3);
		block key = reuse ? lastkey : gen_block(g), iv = gen_iv(g);
		u64 start = gen_start(g), mode = g.draw(2);
		size_t len = g.size(0, g.chance(1, 40) ? 6000 : 420, {128, 129, 256, 384, 8, 1024, 4096});
		start = clamp(start, len / 128);
		int party = gen_party(g);
		bool dflt = g.chance(1, 8);  // the default arguments
		if (dflt) { len = 128; start = 0; party = PUBLIC; }
		g.note("[form %d mode %d bits %zu start %llu reuse %d party %d key %s iv %s] ", (int)form, (int)mode, len, (unsigned long long)start, reuse, party, bs(key).c_str(), bs(iv).c_str());
		g.label(fmt("form %d", (int)form));
		if (near_carry(iv, start, len / 128)) g.label("carry into the upper half");
		g.nontrivial(len > 128 || start);
		Bytes ks = stream(key, iv, start, (len + 7) / 8), in = g.bytes((len + 7) / 8);
		Heap<block> kb(128), ib(128), ih(len), oh(len);
		bits_in(x, key, kb.p);
		bits_in(x, iv, ib.p);
		for (size_t i = 0; i < len; ++i) { ih[i] = x.lab(in[i / 8] >> (i % 8) & 1); oh[i] = mkblk(9, 9); }
		block *ip = mode == 2 ? nullptr : ih.p, *op = mode == 1 ? nullptr : oh.p;
		int r;
		if (dflt && mode == 1) r = form == 0 ? c->aes_128_ctr(reuse ? (const block *)nullptr : kb.p, (const block *)ib.p, ip) : form == 1 ? c->aes_128_ctr(reuse ? (const block *)nullptr : kb.p, iv, ip) : c->aes_128_ctr(key, iv, ip);
		else if (dflt) r = form == 0 ? c->aes_128_ctr(reuse ? (const block *)nullptr : kb.p, (const block *)ib.p, ip, op) : form == 1 ? c->aes_128_ctr(reuse ? (const block *)nullptr : kb.p, iv, ip, op) : c->aes_128_ctr(key, iv, ip, op);
		else if (form == 0) r = c->aes_128_ctr(reuse ? (const block *)nullptr : kb.p, (const block *)ib.p, ip, op, len, party, start);
		else if (form == 1) r = c->aes_128_ctr(reuse ? (const block *)nullptr : kb.p, iv, ip, op, len, party, start);
		else r = c->aes_128_ctr(key, iv, ip, op, len, party, start);
		REQUIRE(r == 0, "returned %d", r);
		if (form != 2) { lastkey = key; haskey = true; }
		for (size_t i = 0; i < len; ++i) {
			bool k = ks[i / 8] >> (i % 8) & 1, m = in[i / 8] >> (i % 8) & 1;
			bool w = mode == 2 ? k : k != m;
			block &o = mode == 1 ? ih[i] : oh[i];
			REQUIRE(x.val(o) == (int)w, "call %zu: bit %zu is %d, expected %d", q, i, x.val(o), w);
			if (mode == 0) REQUIRE(x.val(ih[i]) == (int)m, "call %zu: input bit %zu changed", q, i);
		}
		for (int i = 0; i < 128; ++i)
			REQUIRE(x.val(kb[i]) == (((const unsigned char *)&key)[i / 8] >> (i % 8) & 1) && x.val(ib[i]) == (((const unsigned char *)&iv)[i / 8] >> (i % 8) & 1), "key or counter bits changed");
		int e = form == 2 ? c->aes_128_ctr(key, iv, (block *)nullptr, nullptr, len, party, start) : c->aes_128_ctr(kb.p, iv, (block *)nullptr, nullptr, len, party, start);
		REQUIRE(e != 0, "accepted neither input nor output");
	}
	CircuitExecution::circ_exec = nullptr; ProtocolExecution::prot_exec = nullptr;
}
#if !defined(__SANITIZE_ADDRESS__)
SUBCHECK(huge, 4, 24, "2^31 bytes to over 2^32, separate input and output (virtual regions that repeat some megabytes; what they hold at the end is compared); all non-trivial", 120000, 2, true) {
	enum { CH = 4 << 20 };
	block key = gen_block(g), iv = gen_iv(g);
	u64 start = gen_start(g), kind = g.each(3);
	static const u64 base[] = {1ULL << 31, 1ULL << 32, (1ULL << 31) - 8, (1ULL << 32) + (1ULL << 31)};
	size_t es = g.of<size_t>({1, 8}), n = (base[kind] + g.draw(100)) / es * es;
	start = clamp(start, n / 16);
	g.note("%zu bytes in elements of %zu, start %llu key %s iv %s", n, es, (unsigned long long)start, bs(key).c_str(), bs(iv).c_str());
	g.nontrivial();
	Repeat in(n, CH), out(n, CH);
	std::vector<unsigned char> c = g.bytes(4096);
	for (size_t i = 0; i < CH; i += 4096) memcpy(in.p + i, c.data(), 4096);
	int r = es == 1 ? emp::aes_128_ctr<unsigned char>(key, iv, in.p, out.p, n, start) : emp::aes_128_ctr<u64>(key, iv, (u64 *)in.p, out.p, n / 8, start);
	REQUIRE(r == 0, "returned %d", r);
	// the last CH bytes, from a whole block
	size_t from = (n - CH + 15) / 16 * 16;
	Bytes ks = stream(key, iv, start + from / 16, n - from);
	for (size_t i = from; i < n; ++i) {
		unsigned char w = c[i % 4096] ^ ks[i - from];
		REQUIRE(out.p[i] == w, "byte %zu is %02x, expected %02x", i, out.p[i], w);
	}
}
SUBCHECK(long_in_circuit, 1, 4, "over 2^26 bits inside the circuit with a public key and counter block, all compared; all non-trivial", 120000, 1, true) {
	struct One : CircuitExecution {
		block and_gate(const block &a, const block &b) override { return a & b; }
		block xor_gate(const block &a, const block &b) override { return a ^ b; }
		block not_gate(const block &a) override { return a ^ mkblk(0, 1); }
		block public_label(bool b) override { return mkblk(0, b); }
		uint64_t num_and() override { return 0; }
	} x;
	struct In : ProtocolExecution {
		void feed(block *o, int, const bool *b, int n) override { for (int i = 0; i < n; ++i) o[i] = mkblk(0, b[i]); }
		void reveal(bool *o, int, const block *l, int n) override { for (int i = 0; i < n; ++i) o[i] = l[i][0] & 1; }
		void finalize() override {}
	} p;
	struct Back { CircuitExecution *c = CircuitExecution::circ_exec; ProtocolExecution *p = ProtocolExecution::prot_exec; ~Back() { CircuitExecution::circ_exec = c; ProtocolExecution::prot_exec = p; } } back;
	block key = gen_block(g), iv = gen_iv(g);
	size_t n = (1 << 26) + (1 << 21) + g.draw(300);
	u64 start = clamp(gen_start(g), n / 128);
	g.note("%zu bits, start %llu key %s iv %s", n, (unsigned long long)start, bs(key).c_str(), bs(iv).c_str());
	g.nontrivial();
	CircuitExecution::circ_exec = &x; ProtocolExecution::prot_exec = &p;
	emp::AES_128_CTR_Calculator calc;
	std::unique_ptr<block[]> out(new block[n]);
	int r = calc.aes_128_ctr(key, iv, (block *)nullptr, out.get(), n, PUBLIC, start);
	REQUIRE(r == 0, "returned %d", r);
	Bytes ks = stream(key, iv, start, (n + 7) / 8);
	for (size_t i = 0; i < n; ++i) REQUIRE((out[i][0] & 1) == (ks[i / 8] >> (i % 8) & 1), "bit %zu is wrong", i);
}
#endif
PBT_MAIN
