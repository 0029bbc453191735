// SHA-256 streaming and its helpers.
#include "common.hpp"
#include "repeat.hpp"
#include <sstream>
static std::string ref_sha(const std::vector<unsigned char> &v) {
	unsigned char d[32];
	static const unsigned char z = 0;
	SHA256(v.empty() ? &z : v.data(), v.size(), d);
	return std::string((char *)d, 32);
}
struct HS { emp::Hash h; std::vector<unsigned char> m; };
static void digest_check(HS &s, const char *what) {
	unsigned char d[34];
	memset(d, 0x5a, 34);
	s.h.digest(d + 1);
	std::string w = ref_sha(s.m);
	REQUIRE(memcmp(d + 1, w.data(), 32) == 0, "%s: digest of %zu bytes is %s, expected %s", what, s.m.size(), hex(d + 1, 32).c_str(), hex(w.data(), 32).c_str());
	REQUIRE(d[0] == 0x5a && d[33] == 0x5a, "digest wrote outside its 32 bytes");
	s.m.clear();
}
SUBCHECK(stream, 12000, 250000, "up to 14 operations (put of any size around the buffer size, put_block, reset, digest, replacing an object by a copy of one or assigning one to another) on one or two interleaved hash objects; every digest compared with SHA-256 of the concatenation since the last reset or digest; non-trivial: a digest over at least two puts") {
	std::vector<std::unique_ptr<HS>> hs;
	size_t k = 1 + g.draw(1);
	for (size_t i = 0; i < k; ++i) hs.emplace_back(new HS());
	std::vector<int> puts(k, 0);
	size_t n = g.size(1, 14);
	for (size_t i = 0; i < n; ++i) {
		size_t w = g.draw(k - 1);
		HS &s = *hs[w];
		switch (g.weighted({10, 4, 1, 3, 2})) {
		case 0: {
			size_t len, fill = s.m.size() % 8192;
			if (g.chance(1, 3)) { int64_t d = (int64_t)(8192 - fill) + g.irange(-2, 2); len = d < 0 ? 0 : (size_t)d; }
			else len = g.chance(1, 3) ? g.size(0, 20000, {8192, 16384, 8191, 64, 55, 56, 4096}) : g.size(0, 300, {64, 55, 56, 32, 16});
			g.note("put#%zu(%zu) ", w, len);
			Heap<unsigned char> b(len + 1);
			g.bytes(b.data(), len);
			s.h.put(b.data(), (int)len);
			s.m.insert(s.m.end(), b.data(), b.data() + len);
			// the hash may not keep a reference to the caller's buffer
			memset(b.data(), 0xAA, len);
			++puts[w];
			break;
		}
		case 1: {
			size_t nb = g.chance(1, 4) ? g.size(0, 1100, {512, 511, 1024}) : g.size(0, 12);
			g.note("put_block#%zu(%zu) ", w, nb);
			Heap<block> b(nb + 1);
			g.bytes(b.data(), nb * 16);
			if (nb == 1 && g.coin()) s.h.put_block(b.data());
			else s.h.put_block(b.data(), (int)nb);
			s.m.insert(s.m.end(), (unsigned char *)b.data(), (unsigned char *)b.data() + nb * 16);
			++puts[w];
			break;
		}
		case 2: g.note("reset#%zu ", w); s.h.reset(); s.m.clear(); puts[w] = 0; break;
		case 4: {
			size_t o = g.draw(k - 1);
			g.label("copy");
			if (g.coin()) { g.note("#%zu=copy of #%zu ", w, o); hs[w].reset(new HS(*hs[o])); }
			else { g.note("#%zu=#%zu ", w, o); HS &t = *hs[o]; s.h = t.h; if (w != o) s.m = t.m; }
			puts[w] = puts[o];
			break;
		}
		default: g.note("digest#%zu(%zu) ", w, s.m.size()); g.nontrivial(puts[w] >= 2); digest_check(s, "mid-history"); puts[w] = 0;
		}
	}
	for (size_t w = 0; w < k; ++w) {
		g.note("final#%zu(%zu) ", w, hs[w]->m.size());
		g.nontrivial(puts[w] >= 2);
		if (hs[w]->m.size() > 8192) g.label("longer than the buffer");
		digest_check(*hs[w], "final");
	}
}
SUBCHECK(once, 15000, 250000, "hash_once and hash_for_block of one message; non-trivial: at least one byte") {
	size_t n = g.chance(1, 3) ? g.size(0, 40000, {8192, 16384, 8191}) : g.size(0, 600, {55, 56, 64, 119, 120});
	Heap<unsigned char> b(n + 1);
	g.bytes(b.data(), n);
	g.note("%zu bytes %s", n, hex(b.data(), n).c_str());
	g.nontrivial(n > 0);
	std::string w = ref_sha(std::vector<unsigned char>(b.data(), b.data() + n));
	unsigned char d[32];
	emp::Hash::hash_once(d, b.data(), (int)n);
	REQUIRE(!memcmp(d, w.data(), 32), "hash_once: %s, expected %s", hex(d, 32).c_str(), hex(w.data(), 32).c_str());
	block x = emp::Hash::hash_for_block(b.data(), (int)n);
	REQUIRE(!memcmp(&x, w.data(), 16), "hash_for_block: %s, expected the first half of %s", bs(x).c_str(), hex(w.data(), 32).c_str());
}
SUBCHECK(kdf, 2500, 40000, "key derivation from a random curve point and id equals SHA-256(uncompressed point, id) truncated, for several points of one group in turn; non-trivial: an id other than the default") {
	emp::Group grp;
	size_t k = 1 + g.draw(2);
	for (size_t i = 0; i < k; ++i) {
		emp::BigInt m;
		unsigned char e[32];
		g.bytes(e, 32);
		m.from_bin(e, 32);
		emp::Point p = grp.mul_gen(m);
		if (g.chance(1, 12)) { BN_zero(m.n); p = grp.mul_gen(m); g.label("point at infinity"); }
		u64 id = g.chance(1, 3) ? g.draw(5) : g.u64v();
		bool def = g.chance(1, 6);
		if (def) id = 1;
		unsigned char buf[65];
		size_t len = EC_POINT_point2oct(grp.ec_group, p.point, POINT_CONVERSION_UNCOMPRESSED, buf, 65, nullptr);
		std::vector<unsigned char> msg(buf, buf + len);
		for (int j = 0; j < 8; ++j) msg.push_back((unsigned char)(id >> (8 * j)));
		g.note("scalar %s id %llu; ", hex(e, 32).c_str(), (unsigned long long)id);
		g.nontrivial(id != 1);
		std::string w = ref_sha(msg);
		block x = def ? emp::Hash::KDF(p) : emp::Hash::KDF(p, id);
		REQUIRE(!memcmp(&x, w.data(), 16), "KDF: %s, expected %s", bs(x).c_str(), hex(w.data(), 16).c_str());
	}
}
SUBCHECK(large, 500, 8000, "messages of up to 4 MB in one to four puts, and at once; non-trivial: more than 65536 bytes in one put", 60000) {
	HS s;
	size_t k = 1 + g.draw(3);
	for (size_t i = 0; i < k; ++i) {
		size_t n = g.size(0, g.chance(1, 4) ? 4 << 20 : 300000, {65536, 131072, 32768, 1 << 20});
		std::vector<unsigned char> b(n + 16);
		g.bytes(b.data(), n);
		g.nontrivial(n > 65536);
		if (n % 16 == 0 && g.chance(1, 3)) { g.note("put_block(%zu) ", n / 16); s.h.put_block((block *)b.data(), (int)(n / 16)); }
		else { g.note("put(%zu) ", n); s.h.put(b.data(), (int)n); }
		b.resize(n);
		s.m.insert(s.m.end(), b.begin(), b.end());
	}
	std::vector<unsigned char> all = s.m;
	digest_check(s, "streamed");
	std::string w = ref_sha(all);
	unsigned char d[32];
	all.push_back(0);
	emp::Hash::hash_once(d, all.data(), (int)(all.size() - 1));
	REQUIRE(!memcmp(d, w.data(), 32), "hash_once of %zu bytes", all.size() - 1);
	block x = emp::Hash::hash_for_block(all.data(), (int)(all.size() - 1));
	REQUIRE(!memcmp(&x, w.data(), 16), "hash_for_block of %zu bytes", all.size() - 1);
}
#if !defined(__SANITIZE_ADDRESS__)
SUBCHECK(huge, 3, 16, "one piece of 2^31 - 1 to 2^32 bytes between two small ones; all non-trivial", 120000, 2, true) {
	emp::Hash h;
	SHA256_CTX c;
	SHA256_Init(&c);
	std::vector<unsigned char> a = g.bytes(g.draw(9000)), b = g.bytes(g.draw(9000));
	u64 kind = g.each(2);
	// put takes the length as an int, put_block the number of blocks
	size_t n = kind == 0 ? 0x7fffffff - g.draw(100) : kind == 1 ? (1ULL << 31) + 16 * g.draw(20) : (1ULL << 32) + 16 * g.draw(20);
	g.note("%zu bytes, %s(%zu), %zu bytes", a.size(), kind ? "put_block" : "put", kind ? n / 16 : n, b.size());
	g.nontrivial();
	Repeat r(n, 1 << 20);
	g.bytes(r.p, 1 << 16);
	a.push_back(1); b.push_back(2);
	h.put(a.data(), (int)a.size());
	if (kind) h.put_block((block *)r.p, (int)(n / 16)); else h.put(r.p, (int)n);
	h.put(b.data(), (int)b.size());
	SHA256_Update(&c, a.data(), a.size());
	SHA256_Update(&c, r.p, n);
	SHA256_Update(&c, b.data(), b.size());
	unsigned char d[32], w[32];
	h.digest(d);
	SHA256_Final(w, &c);
	REQUIRE(!memcmp(d, w, 32), "digest %s, expected %s", hex(d, 32).c_str(), hex(w, 32).c_str());
}
#endif
PBT_MAIN
