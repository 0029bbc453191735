// Fixed-key permutation and the hashes built on it.
#include "common.hpp"
static void perm(RefAES &r, block *b, size_t n) { for (size_t i = 0; i < n; ++i) b[i] = r.enc(b[i]); }
static std::vector<block> gen_blocks(G &g, size_t n) {
	std::vector<block> v(n);
	if (n <= 3) for (auto &b : v) b = gen_block(g);
	else g.bytes(v.data(), n * 16);
	return v;
}
SUBCHECK(permutation, 80000, 1500000, "keys given as block, as bytes at any alignment, by default or set later; 0..200 blocks; buffers exactly sized; non-trivial: at least 1 block") {
	block key = gen_block(g);
	unsigned char raw[40];
	size_t off = g.draw(16);
	memcpy(raw + off, &key, 16);
	u64 how = g.draw(4);
	std::unique_ptr<emp::PRP> p;
	switch (how) {
	case 0: p.reset(new emp::PRP(key)); break;
	case 1: p.reset(new emp::PRP((const char *)(raw + off))); break;
	case 2: p.reset(new emp::PRP()); key = mkblk(0, 0); break;
	case 3: p.reset(new emp::PRP((const char *)nullptr)); key = mkblk(0, 0); break;
	default: p.reset(new emp::PRP(gen_block(g))); p->aes_set_key(key);
	}
	size_t n = g.size(0, 200, {8, 16, 64, 7, 9});
	std::vector<block> in = gen_blocks(g, n);
	g.note("key (%d) %s, %zu blocks", (int)how, bs(key).c_str(), n);
	g.nontrivial(n > 0);
	RefAES r(key);
	for (int rep = 0; rep < 2; ++rep) {
		Heap<block> b(n);
		AlignedBuf ab(n * 16, 16);
		if (n) { memcpy(b.p, in.data(), n * 16); memcpy(ab.p, in.data(), n * 16); }
		p->permute_block(b.p, (int)n);
		p->permute_block((block *)ab.p, (int)n);
		std::vector<block> w = in;
		perm(r, w.data(), n);
		for (size_t i = 0; i < n; ++i) REQUIRE(same(b[i], w[i]), "block %zu of %zu", i, n);
		REQUIRE(n == 0 || memcmp(ab.p, w.data(), n * 16) == 0, "second buffer");
		REQUIRE(ab.intact(), "wrote outside of the blocks");
	}
}
// kinds: 0 CRH  1 CCRH  2 TCCRH
static block ref(int kind, RefAES &r, const block &x, u64 id) {
	if (kind == 0) return bxor(r.enc(x), x);
	if (kind == 1) { block s = ref_sigma(x); return bxor(r.enc(s), s); }
	block p = r.enc(x);
	return bxor(r.enc(mkblk(bhi(p), blo(p) ^ id)), p);
}
template <int N, class C> static void fixedN(C &c, block *o, block *i) { c.template H<N>(o, i); }
template <int N> static void one_fixed(int kind, emp::CRH &a, emp::CCRH &b, emp::TCCRH &t, block *o, block *i, u64 id) {
	if (kind == 0) a.template H<N>(o, i);
	else if (kind == 1) b.template H<N>(o, i);
	else t.template H<N>(o, i, id);
}
SUBCHECK(hashes, 120000, 2500000, "the three hashes in single, fixed-size (1,2,3,4,8,13,16) and bulk (0..150) form, separate or in place, with or without scratch, default or given key; non-trivial: at least 1 block") {
	int kind = (int)g.draw(2);
	bool dflt = g.coin();
	block key = dflt ? mkblk(0, 0) : gen_block(g);
	emp::CRH a(key);
	emp::CCRH b(key);
	emp::TCCRH t(key);
	if (dflt) { a = emp::CRH(); b = emp::CCRH(); t = emp::TCCRH(); }
	RefAES r(key);
	u64 id = g.chance(1, 2) ? g.draw(5) : g.u64v();
	u64 form = g.draw(2);
	bool inplace = g.chance(1, 3), scratch = g.coin();
	static const int NS[] = {1, 2, 3, 4, 8, 13, 16};
	size_t ni = g.draw(6);
	size_t n = form == 0 ? 1 : form == 1 ? NS[ni] : g.size(0, 150, {8, 16, 7, 9});
	std::vector<block> in = gen_blocks(g, n);
	g.note("%s form %d n %zu id %llu key %s in %s%s", kind == 0 ? "CRH" : kind == 1 ? "CCRH" : "TCCRH", (int)form, n, (unsigned long long)id, bs(key).c_str(), hex(in.data(), n * 16, 32).c_str(), inplace ? " in place" : "");
	g.label(fmt("kind %d form %d", kind, (int)form));
	g.nontrivial(n > 0);
	Heap<block> ih(n), oh(n), sc(n);
	if (n) memcpy(ih.p, in.data(), n * 16);
	block *o = inplace ? ih.p : oh.p;
	if (form == 0) *o = kind == 0 ? a.H(in[0]) : kind == 1 ? b.H(in[0]) : t.H(in[0], id);
	else if (form == 1) switch (ni) {
		case 0: one_fixed<1>(kind, a, b, t, o, ih.p, id); break; case 1: one_fixed<2>(kind, a, b, t, o, ih.p, id); break;
		case 2: one_fixed<3>(kind, a, b, t, o, ih.p, id); break; case 3: one_fixed<4>(kind, a, b, t, o, ih.p, id); break;
		case 4: one_fixed<8>(kind, a, b, t, o, ih.p, id); break; case 5: one_fixed<13>(kind, a, b, t, o, ih.p, id); break;
		default: one_fixed<16>(kind, a, b, t, o, ih.p, id);
	}
	else if (kind == 0) { if (scratch) a.Hn(o, ih.p, (int)n, sc.p); else a.Hn(o, ih.p, (int)n); }
	else if (kind == 1) { if (scratch) b.Hn(o, ih.p, (int)n, sc.p); else b.Hn(o, ih.p, (int)n); }
	else { if (scratch) t.Hn(o, ih.p, id, (int)n, sc.p); else t.Hn(o, ih.p, id, (int)n); }
	for (size_t i = 0; i < n; ++i) REQUIRE(same(o[i], ref(kind, r, in[i], id + i)), "output %zu is %s, expected %s", i, bs(o[i]).c_str(), bs(ref(kind, r, in[i], id + i)).c_str());
	if (!inplace) for (size_t i = 0; i < n; ++i) REQUIRE(same(ih[i], in[i]), "input %zu changed", i);
}
SUBCHECK(orthomorphism, 40000, 600000, "sigma(x) and sigma(x)^x determine x (both are permutations) and sigma is linear; non-trivial: x not zero") {
	block x = gen_block(g), y = gen_block(g);
	g.note("%s %s", bs(x).c_str(), bs(y).c_str());
	g.nontrivial(bhi(x) || blo(x));
	block s = emp::sigma(x);
	REQUIRE(same(s, ref_sigma(x)), "sigma gives %s", bs(s).c_str());
	REQUIRE(same(emp::sigma(bxor(x, y)), bxor(s, emp::sigma(y))), "not linear");
}
SUBCHECK(large, 400, 6000, "the permutation and the three bulk hashes over up to 150000 blocks in one call, separate or in place, with or without scratch; non-trivial: more than 4096 blocks", 60000) {
	int kind = (int)g.draw(3);
	block key = gen_block(g);
	size_t n = g.size(1000, 150000, {65536, 32768, 131072, 4096});
	u64 id = g.chance(1, 3) ? (u64)g.draw(5) : g.u64v();
	bool inplace = g.chance(1, 3), scratch = g.coin();
	std::vector<block> in(n), t1(n), t2(n), w(n);
	g.bytes(in.data(), n * 16);
	g.note("%s n %zu id %llu key %s%s", kind == 0 ? "CRH" : kind == 1 ? "CCRH" : kind == 2 ? "TCCRH" : "PRP", n, (unsigned long long)id, bs(key).c_str(), inplace ? " in place" : "");
	g.nontrivial(n > 4096);
	RefAES r(key);
	auto enc = [&](std::vector<block> &o, const std::vector<block> &i) { r.enc((unsigned char *)o.data(), (unsigned char *)i.data(), n); };
	if (kind == 1) for (size_t i = 0; i < n; ++i) t1[i] = ref_sigma(in[i]);
	else t1 = in;
	enc(w, t1);
	if (kind == 2) {
		for (size_t i = 0; i < n; ++i) t2[i] = mkblk(bhi(w[i]), blo(w[i]) ^ (id + i));
		t1 = w;
		enc(w, t2);
	}
	if (kind < 3) for (size_t i = 0; i < n; ++i) w[i] = bxor(w[i], t1[i]);
	AlignedBuf ib(n * 16, 0), ob(n * 16, 0), sb(n * 16, 0);
	memcpy(ib.p, in.data(), n * 16);
	block *I = (block *)ib.p, *O = inplace || kind == 3 ? I : (block *)ob.p, *S = (block *)sb.p;
	if (kind == 3) { emp::PRP p(key); p.permute_block(I, (int)n); }
	else if (kind == 0) { emp::CRH h(key); if (scratch) h.Hn(O, I, (int)n, S); else h.Hn(O, I, (int)n); }
	else if (kind == 1) { emp::CCRH h(key); if (scratch) h.Hn(O, I, (int)n, S); else h.Hn(O, I, (int)n); }
	else { emp::TCCRH h(key); if (scratch) h.Hn(O, I, id, (int)n, S); else h.Hn(O, I, id, (int)n); }
	for (size_t i = 0; i < n; ++i) REQUIRE(same(O[i], w[i]), "output %zu of %zu is %s, expected %s", i, n, bs(O[i]).c_str(), bs(w[i]).c_str());
	REQUIRE(ib.intact() && ob.intact() && sb.intact(), "wrote outside of the blocks");
	if (O != I) REQUIRE(!memcmp(I, in.data(), n * 16), "input changed");
}
PBT_MAIN
