// What the evaluator sees never gives it the secret offset (or a second label
// of any wire), and no randomness or gate tweak is used twice.
#include "gc.hpp"
template <class T> using HG = emp::HalfGateGen<T>;
template <class T> using HE = emp::HalfGateEva<T>;
template <class T> using PG = emp::PrivacyFreeGen<T>;
template <class T> using PE = emp::PrivacyFreeEva<T>;

struct BHash { size_t operator()(const std::pair<u64, u64> &p) const { return (size_t)pbt::mix64(p.first ^ pbt::mix64(p.second)); } };
typedef std::unordered_set<std::pair<u64, u64>, BHash> BSet;
static std::pair<u64, u64> key(const block &b) { return {bhi(b), blo(b)}; }
static std::vector<block> blocks(const RecIO &io) {
	std::vector<block> v;
	for (size_t i = 0; i + 16 <= io.log.size(); i += 16) v.push_back(blk_of(io.log.data() + i));
	return v;
}

template <template <class> class GEN, template <class> class EVA>
static void view(G &g, bool lsb0) {
	Prog p = gen_prog(g, 14, true, 20);
	// related operands: the same wire twice, a wire and its negation, constants
	g.note("%s %s", lsb0 ? "privacy-free" : "half-gates", p.str().c_str());
	RecIO io;
	GEN<RecIO> gen(&io);
	if (g.chance(1, 2)) gen.set_delta(mkblk(g.draw(~0ULL), g.draw(~0ULL)));
	bool own = io.sent() > 48 || (lsb0 && io.sent() > 32);
	block delta = gen.delta;
	GenProt gp(g.draw(0xffffffff), lsb0);
	Session s(&gen, &gp);
	s.all(p);
	EVA<RecIO> eva(&io);
	if (own) eva.set_delta();
	EvaProt ep(gp.zeros, delta);
	Session e(&eva, &ep);
	e.all(p);
	std::vector<block> v;
	BSet set;
	auto add = [&](const block &b) { if (set.insert(key(b)).second) v.push_back(b); };
	add(mkblk(0, 0));
	for (auto &b : blocks(io)) add(b);
	size_t wire = v.size();
	for (auto &b : e.w) add(b.bit);
	for (int b = 0; b < 2; ++b) add(eva.public_label(b));
	g.label(v.size() <= 40 ? "view <= 40 blocks" : v.size() <= 120 ? "view 41..120 blocks" : "view > 120 blocks");
	g.nontrivial(gen.num_and() >= 2);
	if (v.size() > 1500) v.resize(1500);
	// sums of up to three
	for (size_t i = 0; i < v.size(); ++i)
		for (size_t j = i; j < v.size(); ++j)
			if (set.count(key(bxor(bxor(v[i], v[j]), delta))))
				throw pbt::Failure{fmt("the offset %s is a sum of at most three blocks the evaluator sees (%s, %s); %zu of the %zu are messages", bs(delta).c_str(), bs(v[i]).c_str(), bs(v[j]).c_str(), wire, v.size())};
	// sums of up to four
	if (v.size() <= 90) {
		BSet two;
		for (size_t i = 0; i < v.size(); ++i)
			for (size_t j = i; j < v.size(); ++j) two.insert(key(bxor(v[i], v[j])));
		for (auto &k : two)
			if (two.count({k.first ^ bhi(delta), k.second ^ blo(delta)}))
				throw pbt::Failure{fmt("the offset %s is a sum of four blocks the evaluator sees", bs(delta).c_str())};
	}
}
SUBCHECK(halfgate_view, 30000, 600000, "messages and all labels of an evaluator on a generated circuit: no sum of up to 3 (4 for small views) of them is the offset; non-trivial: at least 2 AND gates") { seed_rd(g); view<HG, HE>(g, false); }
SUBCHECK(privacy_free_view, 30000, 600000, "the same for privacy-free garbling; non-trivial: at least 2 AND gates") { seed_rd(g); view<PG, PE>(g, true); }

template <template <class> class GEN>
static void tweaks(G &g, bool lsb0) {
	RecIO io;
	GEN<RecIO> gen(&io);
	size_t hdr = io.sent();
	block a = mkblk(g.draw(~0ULL), g.draw(~0ULL) & ~(u64)lsb0), b = mkblk(g.draw(~0ULL), g.draw(~0ULL) & ~(u64)lsb0);
	size_t n = g.size(2, 3000, {8, 4, 16, 256});
	u64 pat = g.draw(3);  // 0: same pair, 1: a,a  2: alternate order  3: mixed with other gates
	g.note("%s: %zu gates, pattern %d", lsb0 ? "privacy-free" : "half-gates", n, (int)pat);
	g.nontrivial(n >= 9);
	BSet rows, outs;
	size_t at = hdr;
	pbt::Rng r(g.draw(0xffffffff));
	for (size_t i = 0; i < n; ++i) {
		block x = a, y = b;
		if (pat == 1) y = a;
		if (pat == 2 && i % 2) std::swap(x, y);
		if (pat == 3 && r.below(3)) { gen.and_gate(gen.xor_gate(a, mkblk(r.next(), r.next() & ~1ULL)), b); at = io.sent(); continue; }
		block o = gen.and_gate(x, y);
		REQUIRE(outs.insert(key(o)).second, "gate %zu has the output label of an earlier gate on the same labels", i);
		REQUIRE(io.sent() > at, "no row sent");
		for (; at < io.sent(); at += 16)
			REQUIRE(rows.insert(key(blk_of(io.log.data() + at))).second, "gate %zu sends a row that was sent before for the same labels", i);
	}
}
#ifndef NO_WHITEBOX
template <class T> static auto go_to(T &x, u64 pos, int) -> decltype(x.mitccrh.renew_ks(pos * 2)) { x.mitccrh.renew_ks(pos * 2); }
template <class T> static auto go_to(T &x, u64 pos, int) -> decltype(x.gid = (int64_t)pos) { return x.gid = (int64_t)pos; }
template <class T> static void go_to(T &, u64, long) {}
template <class T> static void go_to(T &x, u64 pos) { go_to(x, pos, 0); }
// Positions that agree in most of their bits: the tweaks still differ.
template <template <class> class GEN>
static void far_tweaks(G &g, bool lsb0) {
	RecIO io;
	GEN<RecIO> gen(&io);
	block a = mkblk(g.draw(~0ULL), g.draw(~0ULL) & ~(u64)lsb0), b = mkblk(g.draw(~0ULL), g.draw(~0ULL) & ~(u64)lsb0);
	u64 base = (g.coin() ? g.draw((1ULL << 61) - 1) : g.draw(4000)) & ~3ULL;
	std::set<u64> pos;
	for (int k = 2; k < 61; ++k) { pos.insert(base ^ (1ULL << k)); if (g.chance(1, 4)) pos.insert(base ^ (1ULL << k) ^ (1ULL << (2 + g.draw(58)))); }
	pos.insert(base);
	g.note("%s: %zu positions around %llu", lsb0 ? "privacy-free" : "half-gates", pos.size(), (unsigned long long)base);
	g.nontrivial();
	BSet rows, outs;
	for (u64 p : pos) {
		go_to(gen, p);
		size_t at = io.sent();
		for (int i = 0; i < 4; ++i)
			REQUIRE(outs.insert(key(gen.and_gate(a, b))).second, "the gate at position %llu has the output label of another gate on the same labels", (unsigned long long)p + i);
		for (; at < io.sent(); at += 16)
			REQUIRE(rows.insert(key(blk_of(io.log.data() + at))).second, "a gate near position %llu sends a row that was sent before for the same labels", (unsigned long long)p);
	}
}
SUBCHECK(halfgate_far, 3000, 60000, "the same labels garbled at up to 80 positions below 2^62 that differ in one or two bits: rows and output labels all differ; all non-trivial") { seed_rd(g); far_tweaks<HG>(g, false); }
SUBCHECK(privacy_free_far, 3000, 60000, "the same for privacy-free garbling; all non-trivial") { seed_rd(g); far_tweaks<PG>(g, true); }
#endif
SUBCHECK(halfgate_tweaks, 4000, 60000, "the same labels garbled up to 3000 times in one session give rows and output labels that are all different; non-trivial: at least 9 gates") { seed_rd(g); tweaks<HG>(g, false); }
SUBCHECK(privacy_free_tweaks, 4000, 60000, "the same for privacy-free garbling; non-trivial: at least 9 gates") { seed_rd(g); tweaks<PG>(g, true); }

template <template <class> class GEN>
static void long_session(G &g, bool lsb0) {
	RecIO io;
	GEN<RecIO> gen(&io);
	block a = mkblk(g.draw(~0ULL), g.draw(~0ULL) & ~(u64)lsb0), b = mkblk(g.draw(~0ULL), g.draw(~0ULL) & ~(u64)lsb0);
	size_t n = g.size(1 << 16, 1500000, {65536, 1 << 17, 1 << 18, 1 << 20});
	g.note("%zu gates", n);
	g.nontrivial();
	BSet outs;
	outs.reserve(n * 2);
	for (size_t i = 0; i < n; ++i) {
		REQUIRE(outs.insert(key(gen.and_gate(a, b))).second, "gate %zu has the output label of an earlier gate on the same labels", i);
		if (io.log.size() > 1 << 20) io.log.clear();
	}
}
SUBCHECK(halfgate_long, 16, 200, "one pair of labels garbled 65536..1500000 times: output labels all differ; all non-trivial") { seed_rd(g); long_session<HG>(g, false); }
SUBCHECK(privacy_free_long, 16, 200, "the same for privacy-free garbling; all non-trivial") { seed_rd(g); long_session<PG>(g, true); }

template <template <class> class GEN>
static void sessions(G &g, bool lsb0) {
	rdctl::real() = g.coin();
	size_t n = 80;
	BSet sent, deltas;
	u64 oh = 0, ol = 0, zh = ~0ULL, zl = ~0ULL;
	std::vector<std::pair<std::pair<u64, u64>, std::pair<u64, u64>>> acc;  // or / and per header block
	g.note("%s: %zu sessions, %s randomness", lsb0 ? "privacy-free" : "half-gates", n, rdctl::real() ? "system" : "scripted");
	g.nontrivial();
	block a = mkblk(g.draw(~0ULL), g.draw(~0ULL) & ~(u64)lsb0), b = mkblk(g.draw(~0ULL), g.draw(~0ULL) & ~(u64)lsb0);
	block fixed = mkblk(g.draw(~0ULL), g.draw(~0ULL));
	bool own = g.coin();
	for (size_t i = 0; i < n; ++i) {
		RecIO io;
		GEN<RecIO> gen(&io);
		REQUIRE(blo(gen.delta) & 1, "the offset ends in 0");
		REQUIRE(deltas.insert(key(gen.delta)).second, "session %zu repeats an offset", i);
		oh |= bhi(gen.delta); ol |= blo(gen.delta);
		zh &= bhi(gen.delta); zl &= blo(gen.delta);
		if (own) { gen.set_delta(fixed); REQUIRE(same(gen.delta, mkblk(bhi(fixed), blo(fixed) | 1)), "offset not set"); }
		std::vector<block> h = blocks(io);
		if (acc.empty()) acc.assign(h.size(), {{0, 0}, {~0ULL, ~0ULL}});
		for (size_t k = 0; k < h.size(); ++k) {
			REQUIRE(sent.insert(key(h[k])).second, "session %zu sends a setup block that was sent before", i);
			acc[k].first.first |= bhi(h[k]); acc[k].first.second |= blo(h[k]);
			acc[k].second.first &= bhi(h[k]); acc[k].second.second &= blo(h[k]);
		}
		// the offset must not hang on the setup messages
		for (auto &x : h) for (auto &y : h) REQUIRE(!same(bxor(x, y), gen.delta) && !same(x, gen.delta), "setup messages give the offset");
		if (!lsb0) {  // with its own start point, a session garbles the same labels differently
			gen.and_gate(a, b);
			std::vector<block> t = blocks(io);
			for (size_t k = h.size(); k < t.size(); ++k)
				REQUIRE(sent.insert(key(t[k])).second, "session %zu garbles the same labels to the same row as another", i);
		}
	}
	REQUIRE(oh == ~0ULL && ol == ~0ULL && zh == 0 && zl == 1, "a bit of the offset is the same in %zu sessions (or %016llx%016llx and %016llx%016llx)", n, (unsigned long long)oh, (unsigned long long)ol, (unsigned long long)zh, (unsigned long long)zl);
	for (size_t k = 0; k < acc.size(); ++k) {
		// privacy-free constants have a fixed last bit
		u64 m = lsb0 ? ~1ULL : ~0ULL;
		REQUIRE(acc[k].first.first == ~0ULL && (acc[k].first.second | ~m) == ~0ULL && acc[k].second.first == 0 && (acc[k].second.second & m) == 0, "a bit of setup block %zu is the same in %zu sessions", k, n);
	}
}
SUBCHECK(halfgate_sessions, 600, 8000, "80 sessions with scripted or system randomness: offsets, setup messages and rows never repeat, every bit varies; all non-trivial") { seed_rd(g); sessions<HG>(g, false); }
SUBCHECK(privacy_free_sessions, 600, 8000, "the same for privacy-free garbling; all non-trivial") { seed_rd(g); sessions<PG>(g, true); }

template <template <class> class GEN>
static std::vector<unsigned char> transcript(const Prog &p, u64 rdk, u64 lab, bool lsb0, u64 *ands) {
	rdctl::key() = rdk;
	rdctl::ctr() = 0;
	RecIO io;
	GEN<RecIO> gen(&io);
	GenProt gp(lab, lsb0);
	Session s(&gen, &gp);
	s.all(p);
	if (ands) *ands = gen.num_and();
	return io.log;
}
SUBCHECK(input_independence, 30000, 600000, "with the generator's randomness fixed, changing private input values changes no message; non-trivial: at least 2 AND gates and a changed input") {
	u64 rdk = g.draw(0xffffffff), lab = g.draw(0xffffffff);
	Prog p = gen_prog(g, 20, true, 20), q = p;
	size_t ch = 0;
	for (auto &s : q.s) if (s.op == S_IN) { size_t v = g.coin(); ch += v != s.a; s.a = v; }
	g.note("%s, %zu inputs flipped", p.str().c_str(), ch);
	u64 ands = 0;
	bool pf = g.coin();
	auto x = pf ? transcript<PG>(p, rdk, lab, true, &ands) : transcript<HG>(p, rdk, lab, false, &ands);
	auto y = pf ? transcript<PG>(q, rdk, lab, true, nullptr) : transcript<HG>(q, rdk, lab, false, nullptr);
	g.nontrivial(ands >= 2 && ch);
	if (x == y) return;
	// the generator may take its randomness from where it cannot be fixed
	if (x != (pf ? transcript<PG>(p, rdk, lab, true, nullptr) : transcript<HG>(p, rdk, lab, false, nullptr))) { g.label("randomness not under control"); return; }
	REQUIRE(x == y, "messages depend on private inputs");
}

SUBCHECK(colour_balance, 60, 600, "20000 half-gates AND gates: the colour bit of the label the evaluator gets is balanced, for each value of the wire and of each row; all non-trivial") {
	seed_rd(g);
	RecIO io;
	HG<RecIO> gen(&io);
	HE<RecIO> eva(&io);
	pbt::Rng r(g.draw(0xffffffff));
	g.note("20000 gates");
	g.nontrivial();
	long n[4] = {0}, one[4] = {0}, rows[2] = {0};
	const int N = 20000;
	for (int i = 0; i < N; ++i) {
		block a = mkblk(r.next(), r.next()), b = mkblk(r.next(), r.next());
		bool va = r.next() & 1, vb = r.next() & 1;
		size_t at = io.sent();
		block z = gen.and_gate(a, b);
		for (int k = 0; k < 2; ++k) rows[k] += io.log[at + 16 * k] & 1;
		block o = eva.and_gate(va ? bxor(a, gen.delta) : a, vb ? bxor(b, gen.delta) : b);
		bool v = va && vb;
		REQUIRE(same(o, v ? bxor(z, gen.delta) : z), "wrong label");
		n[va + 2 * vb]++;
		one[va + 2 * vb] += blo(o) & 1;
	}
	for (int k = 0; k < 4; ++k)
		REQUIRE(fabs(one[k] - n[k] / 2.0) < 7.5 * sqrt(n[k] / 4.0), "inputs %d %d: %ld of %ld output labels end in 1", k & 1, k >> 1, one[k], n[k]);
	for (int k = 0; k < 2; ++k)
		REQUIRE(fabs(rows[k] - N / 2.0) < 7.5 * sqrt(N / 4.0), "row %d: %ld of %d end in 1", k, rows[k], N);
}
PBT_MAIN
