// SHA3-256 inside and outside of circuits is the same hash.
// The Keccak-f circuit file is not part of the tree (it is fetched by the
// project's build); an equivalent one is generated here, with the bit order the
// calculator's address translation states.
#include "gc.hpp"
#include "repeat.hpp"
#include "embed.hpp"
unsigned int emp_tool_circuits_files_bristol_fashion_Keccak_f_txt_len;
unsigned char emp_tool_circuits_files_bristol_fashion_Keccak_f_txt[8 << 20];
typedef std::vector<unsigned char> Bytes;

static const u64 RC[24] = {0x1ULL,0x8082ULL,0x800000000000808aULL,0x8000000080008000ULL,0x808bULL,0x80000001ULL,0x8000000080008081ULL,0x8000000000008009ULL,0x8aULL,0x88ULL,0x80008009ULL,0x8000000aULL,0x8000808bULL,0x800000000000008bULL,0x8000000000008089ULL,0x8000000000008003ULL,0x8000000000008002ULL,0x8000000000000080ULL,0x800aULL,0x800000008000000aULL,0x8000000080008081ULL,0x8000000000008080ULL,0x80000001ULL,0x8000000080008008ULL};
static int rho(int x, int y) {
	static int t[5][5];
	static bool done = false;
	if (!done) {
		int a = 1, b = 0;
		t[0][0] = 0;
		for (int k = 0; k < 24; ++k) { t[a][b] = ((k + 1) * (k + 2) / 2) % 64; int c = b; b = (2 * a + 3 * b) % 5; a = c; }
		done = true;
	}
	return t[x][y];
}
static void keccak_f(u64 A[25]) {  // A[x + 5y]
	for (int r = 0; r < 24; ++r) {
		u64 C[5], B[25];
		auto rot = [](u64 v, int n) { return n ? v << n | v >> (64 - n) : v; };
		for (int x = 0; x < 5; ++x) C[x] = A[x] ^ A[x + 5] ^ A[x + 10] ^ A[x + 15] ^ A[x + 20];
		for (int x = 0; x < 5; ++x) for (int y = 0; y < 5; ++y) A[x + 5 * y] ^= C[(x + 4) % 5] ^ rot(C[(x + 1) % 5], 1);
		for (int x = 0; x < 5; ++x) for (int y = 0; y < 5; ++y) B[y + 5 * ((2 * x + 3 * y) % 5)] = rot(A[x + 5 * y], rho(x, y));
		for (int x = 0; x < 5; ++x) for (int y = 0; y < 5; ++y) A[x + 5 * y] = B[x + 5 * y] ^ (~B[(x + 1) % 5 + 5 * y] & B[(x + 2) % 5 + 5 * y]);
		A[0] ^= RC[r];
	}
}
static Bytes ref_sha3(const Bytes &m) {
	u64 A[25] = {0};
	Bytes p = m;
	p.push_back(0x06);
	while (p.size() % 136) p.push_back(0);
	p.back() |= 0x80;
	for (size_t o = 0; o < p.size(); o += 136) {
		for (int i = 0; i < 17; ++i) { u64 v; memcpy(&v, &p[o + 8 * i], 8); A[i] ^= v; }
		keccak_f(A);
	}
	return Bytes((unsigned char *)A, (unsigned char *)A + 32);
}
static void build_circuit() {
	std::vector<int> s(1600);
	auto tr = [](int i) { return 8 * (199 - i / 8) + i % 8; };
	for (int i = 0; i < 1600; ++i) s[i] = tr(i);
	int nw = 1600;
	long ng = 0;
	std::string body;
	body.reserve(6 << 20);
	char b[64];
	auto g2 = [&](int x, int y, const char *t) { snprintf(b, 64, "2 1 %d %d %d %s\n", x, y, nw, t); body += b; ++ng; return nw++; };
	auto inv = [&](int x) { snprintf(b, 64, "1 1 %d %d INV\n", x, nw); body += b; ++ng; return nw++; };
	auto at = [](int x, int y, int z) { return 64 * (x + 5 * y) + ((z % 64) + 64) % 64; };
	int zero = g2(0, 0, "XOR");
	for (int r = 0; r < 24; ++r) {
		std::vector<int> C(320), D(320), B(1600);
		for (int x = 0; x < 5; ++x) for (int z = 0; z < 64; ++z) {
			int v = s[at(x, 0, z)];
			for (int y = 1; y < 5; ++y) v = g2(v, s[at(x, y, z)], "XOR");
			C[64 * x + z] = v;
		}
		for (int x = 0; x < 5; ++x) for (int z = 0; z < 64; ++z) D[64 * x + z] = g2(C[64 * ((x + 4) % 5) + z], C[64 * ((x + 1) % 5) + (z + 63) % 64], "XOR");
		for (int x = 0; x < 5; ++x) for (int y = 0; y < 5; ++y) for (int z = 0; z < 64; ++z)
			B[at(y, (2 * x + 3 * y) % 5, z + rho(x, y))] = g2(s[at(x, y, z)], D[64 * x + z], "XOR");
		for (int x = 0; x < 5; ++x) for (int y = 0; y < 5; ++y) for (int z = 0; z < 64; ++z) {
			int t = g2(inv(B[at((x + 1) % 5, y, z)]), B[at((x + 2) % 5, y, z)], "AND");
			t = g2(B[at(x, y, z)], t, "XOR");
			if (x == 0 && y == 0 && (RC[r] >> z & 1)) t = inv(t);
			s[at(x, y, z)] = t;
		}
	}
	std::vector<int> outw(1600);
	for (int i = 0; i < 1600; ++i) outw[tr(i)] = s[i];
	for (int t = 0; t < 1600; ++t) g2(outw[t], zero, "XOR");
	std::string f = fmt("%ld %d\n1 1600\n1 1600\n\n", ng, nw) + body;
	if (f.size() > sizeof emp_tool_circuits_files_bristol_fashion_Keccak_f_txt) abort();
	memcpy(emp_tool_circuits_files_bristol_fashion_Keccak_f_txt, f.data(), f.size());
	emp_tool_circuits_files_bristol_fashion_Keccak_f_txt_len = (unsigned)f.size();
}
struct Init { Init() { build_circuit(); } };
static Init init_;

static void outside(G &g, size_t most) {
	size_t es = g.of<size_t>({1, 1, 4, 8});
	size_t n = g.size(0, most / es, {136 / es, 135 / es, 272 / es, 65536 / es, 1048576 / es});
	Bytes m = g.bytes(n * es);
	g.note("%zu elements of %zu bytes: %s", n, es, hex(m.data(), m.size()).c_str());
	g.nontrivial(!m.empty());
	Heap<unsigned char> in(m.size());
	if (m.size()) memcpy(in.p, m.data(), m.size());
	AlignedBuf out(32, g.draw(15));
	int r = n == 1 && g.coin() ? (es == 1 ? emp::sha3_256<unsigned char>(out.p, in.p) : es == 4 ? emp::sha3_256<uint32_t>(out.p, (uint32_t *)in.p) : emp::sha3_256<u64>(out.p, (u64 *)in.p))
		: es == 1 ? emp::sha3_256<unsigned char>(out.p, in.p, n) : es == 4 ? emp::sha3_256<uint32_t>(out.p, (uint32_t *)in.p, n) : emp::sha3_256<u64>(out.p, (u64 *)in.p, n);
	REQUIRE(r == 0, "returned %d", r);
	Bytes w = ref_sha3(m);
	REQUIRE(memcmp(out.p, w.data(), 32) == 0, "digest %s, expected %s", hex(out.p, 32).c_str(), hex(w.data(), 32).c_str());
	REQUIRE(out.intact(), "wrote outside of the output");
}
SUBCHECK(outside_circuit, 60000, 1000000, "generated byte strings of 0..1000 bytes (element type varied) against an independent implementation; non-trivial: at least 1 byte") { outside(g, 1000); }
SUBCHECK(outside_large, 300, 5000, "byte strings of up to 2 MB; non-trivial: at least 1 byte", 60000) { outside(g, g.chance(1, 2) ? 2 << 20 : 100000); }

SUBCHECK(in_circuit, 1600, 30000, "messages of 0..420 bytes (lengths around multiples of the 136-byte rate favoured), cut into arrays or integers at any bit, through all forms, several with one calculator; non-trivial: at least 1 byte") {
	static Opaque &x = *new Opaque(28);  // as long as the shared calculator
	static OpaqueProt &p = *new OpaqueProt(&x);
	static emp::SHA3_256_Calculator *calc = nullptr;
	CircuitExecution::circ_exec = &x; ProtocolExecution::prot_exec = &p;
	if (!calc) calc = new emp::SHA3_256_Calculator();
	size_t reps = 1 + g.draw(1);
	for (size_t q = 0; q < reps; ++q) {
		size_t n = g.size(0, g.chance(1, 30) ? 5000 : 420, {136, 135, 137, 272, 271, 408, 1360, 4096});
		Bytes m = g.bytes(n);
		Bytes w = ref_sha3(m);
		u64 form = g.draw(4);
		size_t nb = n * 8;
		std::vector<size_t> cut;
		bool pieces = form == 0 || form == 1 || form == 3;
		if (pieces) {
			size_t left = nb;
			for (size_t k = g.draw(3); k > 0; --k) { size_t c = g.size(0, left ? left : 0, {8, 1088, 64}); cut.push_back(c); left -= c; }
			cut.push_back(left);
		} else cut.push_back(nb);
		g.note("[form %d, %zu bytes in %zu pieces: %s] ", (int)form, n, cut.size(), hex(m.data(), n, 20).c_str());
		g.label(fmt("form %d", (int)form));
		g.label(n % 136 == 135 ? "last byte of the rate" : n % 136 == 0 ? "multiple of the rate" : "other length");
		g.nontrivial(n > 0);
		std::vector<std::unique_ptr<Heap<block>>> arr;
		std::vector<const block *> ptr;
		std::vector<Integer> ints;
		size_t at = 0;
		for (size_t c : cut) {
			arr.emplace_back(new Heap<block>(c));
			Integer I;
			for (size_t i = 0; i < c; ++i, ++at) { block b = x.lab(m[at / 8] >> (at % 8) & 1); (*arr.back())[i] = b; I.bits.push_back(Bit(b)); }
			ptr.push_back(arr.back()->p);
			ints.push_back(I);
		}
		Heap<block> out(256);
		Integer oi;
		if (g.coin()) oi = Integer(7, 3, PUBLIC);
		bool dflt = cut.size() == 1 && g.coin();  // the default argument
		switch (dflt && (form == 0 || form == 1 || form == 3) ? 10 + form : form) {
		case 10: calc->sha3_256(out.p, ptr.data(), cut.data()); break;
		case 11: calc->sha3_256(out.p, ints.data()); break;
		case 13: if (g.coin()) calc->sha3_256(&oi, ptr.data(), cut.data()); else calc->sha3_256(&oi, ints.data()); break;
		case 0: calc->sha3_256(out.p, ptr.data(), cut.data(), cut.size()); break;
		case 1: calc->sha3_256(out.p, ints.data(), ints.size()); break;
		case 2: calc->sha3_256(out.p, ptr[0], nb); break;
		case 3: if (g.coin()) calc->sha3_256(&oi, ptr.data(), cut.data(), cut.size()); else calc->sha3_256(&oi, ints.data(), ints.size()); break;
		default: calc->sha3_256(&oi, ptr[0], nb);
		}
		if (form >= 3) { REQUIRE(oi.size() == 256, "result has %zu bits", oi.size()); for (int i = 0; i < 256; ++i) out[i] = oi[i].bit; }
		for (int i = 0; i < 256; ++i) REQUIRE(x.val(out[i]) == (w[i / 8] >> (i % 8) & 1), "hash %zu: digest bit %d is %d", q, i, x.val(out[i]));
	}
	CircuitExecution::circ_exec = nullptr; ProtocolExecution::prot_exec = nullptr;
}
#if !defined(__SANITIZE_ADDRESS__)
SUBCHECK(huge, 1, 8, "messages of 2^32 bytes and some (a virtual region that repeats a megabyte), against OpenSSL; all non-trivial", 120000, 2, true) {
	size_t es = g.of<size_t>({8, 1}), n = ((1ULL << 32) + g.draw(1000)) / es * es;
	g.note("%zu bytes in elements of %zu", n, es);
	g.nontrivial();
	Repeat in(n, 1 << 20);
	g.bytes(in.p, 1 << 16);
	unsigned char d[32], w[32];
	unsigned wl = 32;
	int r = es == 1 ? emp::sha3_256<unsigned char>(d, in.p, n) : emp::sha3_256<u64>(d, (u64 *)in.p, n / 8);
	REQUIRE(r == 0, "returned %d", r);
	EVP_Digest(in.p, n, w, &wl, EVP_sha3_256(), nullptr);
	REQUIRE(memcmp(d, w, 32) == 0, "digest %s, expected %s", hex(d, 32).c_str(), hex(w, 32).c_str());
}
#endif
PBT_MAIN
