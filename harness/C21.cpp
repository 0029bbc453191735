// Bytes that do not encode a curve point are rejected.
#include "ec.hpp"
typedef std::vector<unsigned char> V;
enum Verdict { INVALID, VALID, OPTIONAL };
// Oracle: what the bytes mean. OPTIONAL: a well-formed encoding the library never produces.
static Verdict meaning(const V &b, Aff &pt) {
	const EC &e = EC::get();
	if (b.empty()) return INVALID;
	if (b[0] == 0) { pt = Aff(); return b.size() == 1 ? VALID : INVALID; }
	bool comp = b[0] == 2 || b[0] == 3, unc = b[0] == 4, hyb = b[0] == 6 || b[0] == 7;
	if (!comp && !unc && !hyb) return INVALID;
	if (b.size() != (comp ? 33u : 65u)) return INVALID;
	pt.inf = false;
	BN_bin2bn(&b[1], 32, pt.x.n);
	if (BN_cmp(pt.x.n, e.p.n) >= 0) return INVALID;
	if (comp) {
		BN r = e.rhs(pt.x);
		if (!BN_mod_sqrt(pt.y.n, r.n, e.p.n, bnctx())) { ERR_clear_error(); return INVALID; }
		if (BN_is_odd(pt.y.n) != (b[0] & 1)) BN_sub(pt.y.n, e.p.n, pt.y.n);
		return OPTIONAL;
	}
	BN_bin2bn(&b[33], 32, pt.y.n);
	if (BN_cmp(pt.y.n, e.p.n) >= 0 || !e.on(pt.x, pt.y)) return INVALID;
	if (hyb && BN_is_odd(pt.y.n) != (b[0] & 1)) return INVALID;
	return unc ? VALID : OPTIONAL;
}
static V gen_enc(G &g, std::string &how) {
	V b = mulG(gen_scalar(g)).enc();
	switch (g.weighted({2, 4, 3, 3, 2, 3, 2, 3, 1})) {
	case 0: how = "valid"; break;
	case 1: { how = "bit flipped"; if (b.size() < 2) break; size_t k = g.draw(b.size() * 8 - 1); b[k / 8] ^= 1u << (k % 8); break; }
	case 2: { how = "prefix changed"; b[0] = (unsigned char)g.draw(255); break; }
	case 3: { how = "length changed"; size_t n = g.size(0, 140, {65, 33, 64, 66}); b.resize(n, (unsigned char)g.draw(255)); break; }
	case 4: {  // coordinate reduced mod p only
		how = "coordinate not below the prime";
		if (b.size() < 65) break;
		BN x; size_t at = g.coin() ? 1 : 33;
		// a point whose coordinate plus p still fits 32 bytes needs a small coordinate: take 0..4
		if (g.coin()) { BN_set_word(x.n, g.draw(8)); BN_add(x.n, x.n, EC::get().p.n); }
		else { BN_bin2bn(&b[at], 32, x.n); BN_add(x.n, x.n, EC::get().p.n); }
		if (BN_num_bytes(x.n) <= 32) BN_bn2binpad(x.n, &b[at], 32); else memset(&b[at], 0xff, 32);
		break;
	}
	case 5: { how = "coordinate replaced"; if (b.size() < 65) break; size_t at = g.coin() ? 1 : 33; g.bytes(&b[at], 32); break; }
	case 6: { how = "compressed or hybrid"; if (b.size() < 65) break; bool odd = b[64] & 1; if (g.chance(1, 3)) odd = !odd; if (g.coin()) { b[0] = 2 + odd; b.resize(33); if (g.chance(1, 3)) g.bytes(&b[1], 32); } else b[0] = 6 + odd; break; }
	case 7: { how = "arbitrary"; b = g.bytes(g.size(0, 80, {65, 33, 1})); if (!b.empty() && g.coin()) b[0] = g.of<int>({0, 2, 3, 4, 6, 7}); break; }
	default: how = "coordinates swapped"; if (b.size() == 65) std::swap_ranges(b.begin() + 1, b.begin() + 33, b.begin() + 33);
	}
	return b;
}
static void judge(const V &b, Verdict v, const Aff &pt, const pbt::ChildResult &r, const char *what) {
	std::string h = hex(b.data(), b.size(), 80);
	REQUIRE(!r.timeout, "%s hangs on %s", what, h.c_str());
	bool accepted = r.sig == 0 && r.code == 0;
	if (v == INVALID) {
		REQUIRE(!accepted, "%s accepts %s, which encodes no curve point, as %s", what, h.c_str(), hex(r.out.data(), r.out.size(), 70).c_str());
		REQUIRE(r.sig == 0 || r.sig == SIGABRT, "%s dies of signal %d on %s", what, r.sig, h.c_str());
		REQUIRE(r.sig == SIGABRT || (r.code != 0 && r.code != 76), "%s: exit %d on %s: %s", what, r.code, h.c_str(), r.err.substr(0, 300).c_str());
		return;
	}
	if (v == VALID) REQUIRE(accepted, "%s rejects the valid point %s (exit %d, signal %d)", what, h.c_str(), r.code, r.sig);
	if (accepted) {
		V e = pt.enc();
		REQUIRE(r.out == std::string(e.begin(), e.end()), "%s reads %s as another point", what, h.c_str());
	}
}
SUBCHECK(parse, 12000, 150000, "byte strings derived from valid encodings (flipped bits, prefixes, lengths, coordinates off the curve or not below the prime, compressed and hybrid forms) or arbitrary, parsed into fresh and used points: accepted exactly when an independent oracle says they encode a curve point, otherwise an error exit; non-trivial: not a valid uncompressed point") {
	std::string how;
	V b = gen_enc(g, how);
	Aff pt;
	Verdict v = meaning(b, pt);
	bool used = g.coin();
	g.note("%s: %s into a %s point", how.c_str(), hex(b.data(), b.size(), 80).c_str(), used ? "used" : "fresh");
	g.nontrivial(v != VALID);
	g.label(v == VALID ? "valid" : v == OPTIONAL ? "valid, other form" : "invalid");
	static emp::Group *grp = new emp::Group();
	auto r = pbt::run_child([&](int fd) {
		emp::Point p;
		if (used) p = grp->get_generator();
		Heap<unsigned char> h(b.size() + 1);
		std::unique_ptr<unsigned char[]> x(new unsigned char[b.size()]);
		memcpy(x.get(), b.data(), b.size());
		p.from_bin(grp, x.get(), b.size());
		unsigned char o[80];
		size_t n = p.size();
		p.to_bin(o, n);
		pbt::wr_all(fd, o, n);
	}, 20000);
	judge(b, v, pt, r, "from_bin");
}
SUBCHECK(channel, 6000, 80000, "up to 3 points received from a byte stream in which one point's bytes or its length field is corrupted: the points before it arrive, the corrupted one ends in an error; non-trivial: something is corrupted") {
	size_t n = 1 + g.draw(2), bad = g.draw(n);  // bad == n: none
	std::vector<V> enc;
	std::vector<Verdict> vd;
	std::vector<Aff> pts;
	std::string stream, how = "nothing corrupted";
	size_t lenbad = g.chance(1, 4) && bad < n ? 1 : 0;
	for (size_t i = 0; i < n; ++i) {
		V b = mulG(gen_scalar(g)).enc();
		std::string h;
		if (i == bad && !lenbad) b = gen_enc(g, how);
		Aff p;
		vd.push_back(meaning(b, p));
		pts.push_back(p);
		enc.push_back(b);
		uint32_t len = (uint32_t)b.size();
		if (i == bad && lenbad) {
			len = (uint32_t)g.of<u64>({0, 2, 64, 66, 256, 257, 2048, 2049, 65536, 0xffffffffu, 0x80000000u});
			how = fmt("length field %u", len);
			V m(b);
			// what the receiver sees as this point: the next len bytes, if they exist
			m.resize(len <= 70 && i + 1 == n ? len : 0);
			Aff q;
			vd[i] = len == b.size() ? vd[i] : INVALID;
		}
		stream.append((char *)&len, 4);
		stream.append((char *)b.data(), b.size());
	}
	// bytes after the message, so that an over-long length field finds data
	if (g.coin()) { V pad = g.bytes(g.size(0, 3000)); stream.append((char *)pad.data(), pad.size()); }
	bool one = g.coin();
	g.note("%zu points, point %zu: %s", n, bad, how.c_str());
	g.nontrivial(bad < n);
	static emp::Group *grp = new emp::Group();
	auto r = pbt::run_child([&](int fd) {
		emp::MemIO io(16);
		io.send_data(stream.data(), stream.size());
		std::vector<emp::Point> p(n);
		auto out = [&](size_t i) { unsigned char o[80]; size_t k = p[i].size(); p[i].to_bin(o, k); unsigned char l = (unsigned char)k; pbt::wr_all(fd, &l, 1); pbt::wr_all(fd, o, k); };
		if (one) { io.recv_pt(grp, p.data(), n); for (size_t i = 0; i < n; ++i) out(i); }
		else for (size_t i = 0; i < n; ++i) { io.recv_pt(grp, &p[i]); out(i); }
	}, 20000);
	REQUIRE(!r.timeout, "receiving hangs");
	bool fin = r.sig == 0 && r.code == 0;
	size_t firstbad = n;
	for (size_t i = 0; i < n; ++i) if (vd[i] == INVALID && firstbad == n) firstbad = i;
	bool opt = false;
	for (auto x : vd) opt |= x == OPTIONAL;
	if (firstbad < n) {
		REQUIRE(!fin, "point %zu (%s) is accepted: %s", firstbad, hex(enc[firstbad].data(), enc[firstbad].size(), 80).c_str(), hex(r.out.data(), r.out.size(), 200).c_str());
		REQUIRE(r.sig == 0 || r.sig == SIGABRT, "receiving dies of signal %d", r.sig);
		REQUIRE(r.sig == SIGABRT || r.code != 76, "sanitizer report: %s", r.err.substr(0, 300).c_str());
	} else if (!opt) REQUIRE(fin, "valid points are not received (exit %d, signal %d): %s", r.code, r.sig, r.err.substr(0, 200).c_str());
	std::string want;
	for (size_t i = 0; i < firstbad; ++i) { V e = pts[i].enc(); want += (char)e.size(); want.append((char *)e.data(), e.size()); }
	if (fin) REQUIRE(r.out == want, "other points received");
	else REQUIRE(want.compare(0, r.out.size(), r.out) == 0, "other points received before the error");
	if (!fin && !one && !opt) REQUIRE(r.out == want, "a point before the corrupted one was not received");
}
PBT_MAIN
