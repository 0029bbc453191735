// The circuit files that come with the library compute what they are named for.
#include "circ.hpp"
#include "lanes.hpp"
#define FILES REPO_DIR "/emp-tool/circuits/files/"
typedef std::vector<unsigned char> Bytes;
// bit i of the string: msb: the bits of each byte from its most significant
static std::vector<bool> msb_first(const Bytes &b) {
	std::vector<bool> v;
	for (unsigned char x : b) for (int i = 7; i >= 0; --i) v.push_back(x >> i & 1);
	return v;
}
static std::vector<bool> reversed(const Bytes &b) { auto v = msb_first(b); std::reverse(v.begin(), v.end()); return v; }
static Bytes rnd_bytes(G &g, size_t n) {
	Bytes b(n);
	for (size_t i = 0; i < n; i += 8) { u64 v = g.u64v(); memcpy(&b[i], &v, std::min<size_t>(8, n - i)); }
	return b;
}
static Bytes ossl_aes(const Bytes &k, const Bytes &m) {
	Bytes o(16);
	EVP_CIPHER_CTX *c = EVP_CIPHER_CTX_new();
	EVP_EncryptInit_ex(c, k.size() == 16 ? EVP_aes_128_ecb() : k.size() == 24 ? EVP_aes_192_ecb() : EVP_aes_256_ecb(), nullptr, k.data(), nullptr);
	EVP_CIPHER_CTX_set_padding(c, 0);
	int l;
	EVP_EncryptUpdate(c, o.data(), &l, m.data(), 16);
	EVP_CIPHER_CTX_free(c);
	return o;
}
template <class C> struct Loaded {
	std::unique_ptr<C> c;
	C &get(const char *f) { if (!c) c.reset(new C(f)); return *c; }
};
// Evaluate over the reference backend, or garbled end to end.
static std::vector<bool> run(G &g, const std::vector<bool> &in, size_t nout, const std::function<void(block *, const block *)> &f) {
	u64 how = g.weighted({6, 1, 1});
	std::vector<bool> r;
	if (how == 0) {
		RefExec x; RefProt p;
		CircuitExecution::circ_exec = &x; ProtocolExecution::prot_exec = &p;
		std::vector<block> b(in.size() + 1), o(nout);
		for (size_t i = 0; i < in.size(); ++i) b[i] = mkblk(0, in[i]);
		f(o.data(), b.data());
		for (auto &x : o) r.push_back(blo(x));
		CircuitExecution::circ_exec = nullptr; ProtocolExecution::prot_exec = nullptr;
	} else if (how == 1) {
		Plain pl;
		std::vector<Bit> b(in.size() + 1), o(nout);
		for (size_t i = 0; i < in.size(); ++i) b[i] = Bit(in[i], i % 2 ? ALICE : BOB);
		f((block *)o.data(), (block *)b.data());
		for (auto &x : o) r.push_back(x.reveal<bool>());
	} else {
		seed_rd(g);
		RecIO io;
		emp::HalfGateGen<RecIO> gen(&io);
		emp::HalfGateEva<RecIO> eva(&io);
		GenProt gp(g.draw(0xffff), false);
		EvaProt ep(gp.zeros, gen.delta);
		std::unique_ptr<bool[]> v(new bool[in.size() + 1]);
		for (size_t i = 0; i < in.size(); ++i) v[i] = in[i];
		std::vector<block> b(in.size() + 1), o(nout), b2(in.size() + 1), o2(nout);
		gp.feed(b.data(), ALICE, v.get(), (int)in.size());
		CircuitExecution::circ_exec = &gen;
		f(o.data(), b.data());
		ep.feed(b2.data(), ALICE, v.get(), (int)in.size());
		CircuitExecution::circ_exec = &eva;
		f(o2.data(), b2.data());
		CircuitExecution::circ_exec = nullptr;
		for (size_t i = 0; i < nout; ++i) {
			bool one = same(o2[i], bxor(o[i], gen.delta));
			REQUIRE(one || same(o2[i], o[i]), "garbled output %zu is neither label", i);
			r.push_back(one);
		}
	}
	return r;
}
static std::vector<bool> cat(std::vector<bool> a, const std::vector<bool> &b) { a.insert(a.end(), b.begin(), b.end()); return a; }

template <int KL> static void aes(G &g, const char *file) {
	static Loaded<emp::BristolFashion> L;
	auto &c = L.get(file);
	Bytes k = rnd_bytes(g, KL), m = rnd_bytes(g, 16);
	g.note("key %s text %s", hex(k.data(), KL).c_str(), hex(m.data(), 16).c_str());
	g.nontrivial();
	REQUIRE(c.num_input == KL * 8 + 128 && c.num_output == 128, "%d inputs, %d outputs", c.num_input, c.num_output);
	auto o = run(g, cat(reversed(k), reversed(m)), 128, [&](block *o, const block *i) { c.compute(o, i); });
	REQUIRE(o == reversed(ossl_aes(k, m)), "wrong ciphertext");
}
SUBCHECK(aes128, 1200, 30000, "AES-128 on generated key and text against OpenSSL; all non-trivial") { aes<16>(g, FILES "bristol_fashion/aes_128.txt"); }
SUBCHECK(aes192, 1200, 30000, "AES-192; all non-trivial") { aes<24>(g, FILES "bristol_fashion/aes_192.txt"); }
SUBCHECK(aes256, 1200, 30000, "AES-256; all non-trivial") { aes<32>(g, FILES "bristol_fashion/aes_256.txt"); }
SUBCHECK(aes_plain_format, 1200, 30000, "AES-128 of the simple format; all non-trivial") {
	static Loaded<emp::BristolFormat> L;
	auto &c = L.get(FILES "bristol_format/AES-non-expanded.txt");
	Bytes k = rnd_bytes(g, 16), m = rnd_bytes(g, 16);
	g.note("key %s text %s", hex(k.data(), 16).c_str(), hex(m.data(), 16).c_str());
	g.nontrivial();
	REQUIRE(c.n1 == 128 && c.n2 == 128 && c.n3 == 128, "counts %d %d %d", c.n1, c.n2, c.n3);
	auto o = run(g, cat(msb_first(m), msb_first(k)), 128, [&](block *o, const block *i) { c.compute(o, i, i + 128); });
	REQUIRE(o == msb_first(ossl_aes(k, m)), "wrong ciphertext");
}
SUBCHECK(adder, 40000, 600000, "the 32-bit adder; non-trivial: a carry occurs") {
	static Loaded<emp::BristolFormat> L;
	auto &c = L.get(FILES "bristol_format/adder_32bit.txt");
	uint32_t a = (uint32_t)g.u64v(), b = (uint32_t)g.u64v();
	if (g.chance(1, 4)) b = (uint32_t)(0 - a + g.irange(-2, 2));   // long carry chains
	g.note("%08x + %08x", a, b);
	g.nontrivial(a & b);
	REQUIRE(c.n1 == 32 && c.n2 == 32 && c.n3 == 33, "counts %d %d %d", c.n1, c.n2, c.n3);
	std::vector<bool> in;
	for (int i = 0; i < 32; ++i) in.push_back(a >> i & 1);
	for (int i = 0; i < 32; ++i) in.push_back(b >> i & 1);
	auto o = run(g, in, 33, [&](block *o, const block *i) { c.compute(o, i, i + 32); });
	u64 got = 0;
	for (int i = 0; i < 33; ++i) got |= (u64)o[i] << i;
	REQUIRE(got == (u64)a + b, "got %llx", (unsigned long long)got);
}
SUBCHECK(sha1, 600, 12000, "SHA-1 compression of a block from the initial state against OpenSSL; all non-trivial") {
	static Loaded<emp::BristolFormat> L;
	auto &c = L.get(FILES "bristol_format/sha-1.txt");
	Bytes m = rnd_bytes(g, 64), d;
	g.note("%s", hex(m.data(), 64).c_str());
	g.nontrivial();
	SHA_CTX s;
	SHA1_Init(&s);
	SHA1_Transform(&s, m.data());
	for (uint32_t h : {s.h0, s.h1, s.h2, s.h3, s.h4}) for (int i = 3; i >= 0; --i) d.push_back((h >> (8 * i)) & 255);
	REQUIRE(c.n1 == 512 && c.n2 == 0 && c.n3 == 160, "counts %d %d %d", c.n1, c.n2, c.n3);
	auto o = run(g, msb_first(m), 160, [&](block *o, const block *i) { c.compute(o, i, i + 512); });
	REQUIRE(o == msb_first(d), "wrong digest");
}
static Bytes sha256_compress(const uint32_t *iv, const Bytes &m) {
	SHA256_CTX s;
	SHA256_Init(&s);
	if (iv) memcpy(s.h, iv, 32);
	SHA256_Transform(&s, m.data());
	Bytes d;
	for (uint32_t h : s.h) for (int i = 3; i >= 0; --i) d.push_back((h >> (8 * i)) & 255);
	return d;
}
SUBCHECK(sha256_plain_format, 600, 12000, "SHA-256 compression of a block from the initial state; all non-trivial") {
	static Loaded<emp::BristolFormat> L;
	auto &c = L.get(FILES "bristol_format/sha-256.txt");
	Bytes m = rnd_bytes(g, 64);
	g.note("%s", hex(m.data(), 64).c_str());
	g.nontrivial();
	REQUIRE(c.n1 == 512 && c.n2 == 0 && c.n3 == 256, "counts %d %d %d", c.n1, c.n2, c.n3);
	auto o = run(g, msb_first(m), 256, [&](block *o, const block *i) { c.compute(o, i, i + 512); });
	REQUIRE(o == msb_first(sha256_compress(nullptr, m)), "wrong digest");
}
SUBCHECK(sha256, 600, 12000, "SHA-256 compression of a block from a generated state; all non-trivial") {
	static Loaded<emp::BristolFashion> L;
	auto &c = L.get(FILES "bristol_fashion/sha256.txt");
	Bytes m = rnd_bytes(g, 64), h = rnd_bytes(g, 32);
	if (g.chance(1, 4)) h = {0x6a,0x09,0xe6,0x67,0xbb,0x67,0xae,0x85,0x3c,0x6e,0xf3,0x72,0xa5,0x4f,0xf5,0x3a,0x51,0x0e,0x52,0x7f,0x9b,0x05,0x68,0x8c,0x1f,0x83,0xd9,0xab,0x5b,0xe0,0xcd,0x19};
	uint32_t iv[8];
	for (int i = 0; i < 8; ++i) iv[i] = h[4 * i] << 24 | h[4 * i + 1] << 16 | h[4 * i + 2] << 8 | h[4 * i + 3];
	g.note("state %s block %s", hex(h.data(), 32).c_str(), hex(m.data(), 64).c_str());
	g.nontrivial();
	REQUIRE(c.num_input == 768 && c.num_output == 256, "%d inputs, %d outputs", c.num_input, c.num_output);
	auto o = run(g, cat(reversed(m), reversed(h)), 256, [&](block *o, const block *i) { c.compute(o, i); });
	REQUIRE(o == reversed(sha256_compress(iv, m)), "wrong digest");
}
SUBCHECK(well_formed, 8, 8, "each shipped file: gate and wire counts of the header match the body, every wire set once before use; all non-trivial") {
	static const char *f[] = {"bristol_fashion/aes_128.txt", "bristol_fashion/aes_192.txt", "bristol_fashion/aes_256.txt", "bristol_fashion/sha256.txt",
	                          "bristol_format/AES-non-expanded.txt", "bristol_format/adder_32bit.txt", "bristol_format/sha-1.txt", "bristol_format/sha-256.txt"};
	int k = (int)g.each(7);
	g.note("%s", f[k]);
	g.nontrivial();
	std::string t = slurp((std::string(FILES) + f[k]).c_str());
	if (k < 4) {  // rewrite the header to the simple format
		std::istringstream is(t);
		long ng, nw;
		int n, s[2] = {0, 0}, x;
		is >> ng >> nw;
		for (int z = 0; z < 2; ++z) { is >> n; for (int i = 0; i < n; ++i) { is >> x; s[z] += x; } }
		std::string rest;
		std::getline(is, rest, '\0');
		t = fmt("%ld %ld %d 0 %d\n", ng, nw, s[0], s[1]) + rest;
	}
	parse_format(t);
}
typedef std::vector<std::vector<bool>> Many;
static Many run_many(const Many &in, size_t nout, const std::function<void(block *, const block *)> &f) {
	LaneBackend lb;
	size_t n = in[0].size();
	std::vector<block> b(n + 1), o(nout + 1);
	for (size_t i = 0; i < n; ++i) {
		u64 w[2] = {0, 0};
		for (size_t j = 0; j < 128; ++j) w[j / 64] |= (u64)in[j][i] << (j % 64);
		b[i] = mkblk(w[1], w[0]);
	}
	f(o.data(), b.data());
	Many r(128, std::vector<bool>(nout));
	for (size_t i = 0; i < nout; ++i) for (size_t j = 0; j < 128; ++j) r[j][i] = (j < 64 ? blo(o[i]) : bhi(o[i])) >> (j % 64) & 1;
	return r;
}
static Bytes pat_bytes(pbt::Rng &r, size_t n) {
	Bytes b(n);
	for (size_t i = 0; i < n; i += 8) { u64 v = pat(r); memcpy(&b[i], &v, std::min<size_t>(8, n - i)); }
	return b;
}
SUBCHECK(lanes, 2400, 60000, "128 inputs of one shipped circuit at once, half of them with sparse or regular bit patterns; all non-trivial", 60000) {
	int k = (int)g.draw(7);
	u64 seed = g.draw(~0ULL);
	static const char *nm[] = {"aes_128", "aes_192", "aes_256", "sha256", "AES-non-expanded", "adder_32bit", "sha-1", "sha-256"};
	g.note("128 inputs of %s", nm[k]);
	g.nontrivial();
	pbt::Rng r(seed);
	Many in(128), want(128), got;
	if (k <= 2) {
		static Loaded<emp::BristolFashion> L[3];
		static const char *f[] = {FILES "bristol_fashion/aes_128.txt", FILES "bristol_fashion/aes_192.txt", FILES "bristol_fashion/aes_256.txt"};
		auto &c = L[k].get(f[k]);
		for (int j = 0; j < 128; ++j) {
			Bytes key = pat_bytes(r, 16 + 8 * k), m = pat_bytes(r, 16);
			in[j] = cat(reversed(key), reversed(m));
			want[j] = reversed(ossl_aes(key, m));
		}
		got = run_many(in, 128, [&](block *o, const block *i) { c.compute(o, i); });
	} else if (k == 3) {
		static Loaded<emp::BristolFashion> L;
		auto &c = L.get(FILES "bristol_fashion/sha256.txt");
		for (int j = 0; j < 128; ++j) {
			Bytes m = pat_bytes(r, 64), h = pat_bytes(r, 32);
			uint32_t iv[8];
			for (int i = 0; i < 8; ++i) iv[i] = h[4 * i] << 24 | h[4 * i + 1] << 16 | h[4 * i + 2] << 8 | h[4 * i + 3];
			in[j] = cat(reversed(m), reversed(h));
			want[j] = reversed(sha256_compress(iv, m));
		}
		got = run_many(in, 256, [&](block *o, const block *i) { c.compute(o, i); });
	} else if (k == 4) {
		static Loaded<emp::BristolFormat> L;
		auto &c = L.get(FILES "bristol_format/AES-non-expanded.txt");
		for (int j = 0; j < 128; ++j) {
			Bytes key = pat_bytes(r, 16), m = pat_bytes(r, 16);
			in[j] = cat(msb_first(m), msb_first(key));
			want[j] = msb_first(ossl_aes(key, m));
		}
		got = run_many(in, 128, [&](block *o, const block *i) { c.compute(o, i, i + 128); });
	} else if (k == 5) {
		static Loaded<emp::BristolFormat> L;
		auto &c = L.get(FILES "bristol_format/adder_32bit.txt");
		for (int rep = 0; rep < 40; ++rep) {
			for (int j = 0; j < 128; ++j) {
				uint32_t a = (uint32_t)pat(r), b = r.below(3) ? (uint32_t)pat(r) : (uint32_t)(0 - a + r.below(5) - 2);
				in[j].clear(); want[j].clear();
				for (int i = 0; i < 32; ++i) in[j].push_back(a >> i & 1);
				for (int i = 0; i < 32; ++i) in[j].push_back(b >> i & 1);
				for (int i = 0; i < 33; ++i) want[j].push_back(((u64)a + b) >> i & 1);
			}
			got = run_many(in, 33, [&](block *o, const block *i) { c.compute(o, i, i + 32); });
			if (got != want) break;
		}
	} else if (k == 6) {
		static Loaded<emp::BristolFormat> L;
		auto &c = L.get(FILES "bristol_format/sha-1.txt");
		for (int j = 0; j < 128; ++j) {
			Bytes m = pat_bytes(r, 64), d;
			SHA_CTX s;
			SHA1_Init(&s);
			SHA1_Transform(&s, m.data());
			for (uint32_t h : {s.h0, s.h1, s.h2, s.h3, s.h4}) for (int i = 3; i >= 0; --i) d.push_back((h >> (8 * i)) & 255);
			in[j] = msb_first(m);
			want[j] = msb_first(d);
		}
		got = run_many(in, 160, [&](block *o, const block *i) { c.compute(o, i, i + 512); });
	} else {
		static Loaded<emp::BristolFormat> L;
		auto &c = L.get(FILES "bristol_format/sha-256.txt");
		for (int j = 0; j < 128; ++j) {
			Bytes m = pat_bytes(r, 64);
			in[j] = msb_first(m);
			want[j] = msb_first(sha256_compress(nullptr, m));
		}
		got = run_many(in, 256, [&](block *o, const block *i) { c.compute(o, i, i + 512); });
	}
	for (int j = 0; j < 128; ++j) if (got[j] != want[j]) {
		std::string s;
		for (bool b : in[j]) s += b ? '1' : '0';
		throw pbt::Failure{fmt("%s on input bits %s", nm[k], s.c_str())};
	}
}
PBT_MAIN
