// Randomness nobody seeded is fresh and full-size.
#include "gc.hpp"
#include <thread>
#include <mutex>
#include <unordered_set>
#include <atomic>
#include <sys/random.h>
struct BH { size_t operator()(const std::pair<u64, u64> &p) const { return pbt::mix64(p.first) ^ p.second; } };
typedef std::unordered_set<std::pair<u64, u64>, BH> Set;
static std::pair<u64, u64> key(const block &b) { return {bhi(b), blo(b)}; }
// First output block of a generator with a fresh seed; id and request vary.
static block fresh(unsigned how) {
	block b[3];
	switch (how % 3) {
	case 0: { emp::PRG p; p.random_block(b, 1); break; }
	case 1: { emp::PRG p(nullptr, (int)(how / 3 % 2)); p.random_data(b, 16); break; }
	default: { emp::PRG p; u64 w[2] = {p(), p()}; memcpy(b, w, 16); }
	}
	return b[0];
}
SUBCHECK(many, 40, 400, "60000 generators with default seeds, several constructors and threads: no two give the same first block; all non-trivial (a 32-bit seed would collide in almost every run)", 60000) {
	rdctl::real() = true;
	unsigned how = (unsigned)g.draw(5);
	size_t threads = 1 + g.draw(3);
	g.note("constructor %u, %zu threads", how, threads);
	g.nontrivial();
	std::vector<std::vector<block>> out(threads);
	std::vector<std::thread> ts;
	for (size_t t = 0; t < threads; ++t) ts.emplace_back([&, t] { size_t n = 60000 / threads; out[t].reserve(n); for (size_t i = 0; i < n; ++i) out[t].push_back(fresh(how)); });
	for (auto &t : ts) t.join();
	Set s;
	u64 o1 = 0, o2 = 0, a1 = ~0ULL, a2 = ~0ULL;
	for (auto &v : out) for (auto &b : v) { REQUIRE(s.insert(key(b)).second, "two generators with default seeds give the block %s", bs(b).c_str()); o1 |= blo(b); o2 |= bhi(b); a1 &= blo(b); a2 &= bhi(b); }
	REQUIRE(o1 == ~0ULL && o2 == ~0ULL && a1 == 0 && a2 == 0, "some bit is constant over 60000 fresh blocks");
}
SUBCHECK(forked, 60, 600, "generators with default seeds in 4 forked processes and their parent, created before and after the fork: no common block; all non-trivial", 60000) {
	rdctl::real() = true;
	unsigned how = (unsigned)g.draw(5);
	bool before = g.coin();
	g.note("constructor %u%s", how, before ? ", parent used one first" : "");
	g.nontrivial();
	Set s;
	auto add = [&](const block &b) { REQUIRE(s.insert(key(b)).second, "a parent and a child, or two children, share the block %s", bs(b).c_str()); };
	if (before) add(fresh(how));
	for (int c = 0; c < 4; ++c) {
		auto r = pbt::run_child([&](int fd) { for (int i = 0; i < 200; ++i) { block b = fresh(how); pbt::wr_all(fd, &b, 16); } }, 30000);
		REQUIRE(r.out.size() == 3200, "child failed: %s", r.err.substr(0, 200).c_str());
		for (int i = 0; i < 200; ++i) add(blk_of(r.out.data() + 16 * i));
	}
	for (int i = 0; i < 200; ++i) add(fresh(how));
}
template <class GEN, class EVA> static void garblers(G &g, const char *name, bool lsb0) {
	Set d, pub;
	u64 od1 = 0, od2 = 0, ad1 = ~0ULL, ad2 = ~0ULL;
	for (int i = 0; i < 3000; ++i) {
		RecIO io;
		GEN gen(&io);
		REQUIRE(d.insert(key(gen.delta)).second, "two %s generators share the offset %s", name, bs(gen.delta).c_str());
		od1 |= blo(gen.delta); od2 |= bhi(gen.delta); ad1 &= blo(gen.delta); ad2 &= bhi(gen.delta);
		std::vector<unsigned char> b = io.bytes();
		for (size_t k = 0; k + 16 <= b.size(); k += 16) {
			block x = blk_of(&b[k]);
			REQUIRE(pub.insert(key(x)).second, "%s generators sent the block %s twice", name, bs(x).c_str());
			REQUIRE(!same(x, gen.delta), "%s sends its offset", name);
		}
	}
	REQUIRE(od1 == ~0ULL && od2 == ~0ULL && (ad1 & ~1ULL) == 0 && ad2 == 0, "some bit of the %s offset other than the lowest is constant over 3000 instances", name);
	for (auto &p : pub) REQUIRE(!d.count(p), "%s: an offset appears among the blocks sent", name);
}
SUBCHECK(garbling, 30, 300, "3000 garbling instances: offsets pairwise distinct with every bit but the lowest varying, no setup block sent twice, no offset sent; all non-trivial", 60000) {
	rdctl::real() = true;
	bool h = g.coin();
	g.note("%s", h ? "half-gates" : "privacy-free");
	g.nontrivial();
	if (h) garblers<emp::HalfGateGen<RecIO>, emp::HalfGateEva<RecIO>>(g, "half-gates", false);
	else garblers<emp::PrivacyFreeGen<RecIO>, emp::PrivacyFreeEva<RecIO>>(g, "privacy-free", true);
}
// What a party's set-up draws: the offset and every block it sends.
template <class GEN> static std::vector<block> setup_draws() {
	RecIO io;
	GEN gen(&io);
	std::vector<block> v(1, gen.delta);
	std::vector<unsigned char> b = io.bytes();
	for (size_t k = 0; k + 16 <= b.size(); k += 16) v.push_back(blk_of(&b[k]));
	return v;
}
static std::vector<block> a_setup(unsigned kind, emp::Group *grp) {
	if (kind == 0) return setup_draws<emp::HalfGateGen<RecIO>>();
	if (kind == 1) return setup_draws<emp::PrivacyFreeGen<RecIO>>();
	emp::BigInt n;
	if (kind == 2) { emp::Group own; own.get_rand_bn(n); } else grp->get_rand_bn(n);
	unsigned char b[32] = {0};
	BN_bn2binpad(n.n, b, 32);
	return {blk_of(b), blk_of(b + 16)};
}
SUBCHECK(setups, 60, 600, "garbling set-ups and random scalars in 4 forked processes and their parent, the parent having made some or none before each fork, or in 4 threads at once: no drawn block occurs twice; all non-trivial", 60000) {
	rdctl::real() = true;
	unsigned kind = (unsigned)g.draw(3);
	size_t before = g.draw(3);
	bool threads = g.chance(1, 3);
	static const char *nm[] = {"half-gates", "privacy-free", "scalars, own group", "scalars, group shared across the fork"};
	if (threads && kind == 3) kind = 2;
	g.note("%s, %zu made before %s", nm[kind], before, threads ? "the threads" : "each fork");
	g.nontrivial();
	emp::Group grp;
	Set s;
	auto add = [&](const block &b) { REQUIRE(s.insert(key(b)).second, "two %s set-ups in related processes or threads draw the block %s", nm[kind], bs(b).c_str()); };
	auto some = [&](size_t n) { for (size_t i = 0; i < n; ++i) for (auto &b : a_setup(kind, &grp)) add(b); };
	some(before);
	if (threads) {
		std::vector<std::vector<block>> out(4);
		std::vector<std::thread> ts;
		for (int t = 0; t < 4; ++t) ts.emplace_back([&, t] { for (int i = 0; i < 50; ++i) for (auto &b : a_setup(kind, nullptr)) out[t].push_back(b); });
		for (auto &t : ts) t.join();
		for (auto &v : out) for (auto &b : v) add(b);
	} else for (int c = 0; c < 4; ++c) {
		auto r = pbt::run_child([&](int fd) { for (int i = 0; i < 20; ++i) for (auto &b : a_setup(kind, &grp)) pbt::wr_all(fd, &b, 16); }, 30000);
		REQUIRE(r.out.size() >= 320 && r.out.size() % 16 == 0, "child failed: %s", r.err.substr(0, 200).c_str());
		for (size_t i = 0; i < r.out.size(); i += 16) add(blk_of(r.out.data() + i));
		some(before);
	}
	some(20);
}
#ifndef ENABLE_RDSEED
// All the entropy obtained from the system ends up in the seed: with scripted
// system randomness, generators whose inputs differ in one bit differ.
SUBCHECK(entropy, 20000, 300000, "system randomness scripted: the generator consumes at least 128 bits of it, and changing any single bit of the first 128 consumed changes the stream; non-trivial: all") {
	u64 k = g.draw(0xffffffff);
	rdctl::key() = k;
	rdctl::ctr() = 0;
	block a[2];
	int id = g.chance(1, 3) ? (int)g.draw(9) : 0;
	{ emp::PRG p(nullptr, id); p.random_block(a, 2); }
	u64 used = rdctl::ctr();
	g.note("key %llx", (unsigned long long)k);
	g.nontrivial();
	if (used == 0) { g.label("the seed does not come from std::random_device"); return; }
	REQUIRE(used >= 4, "the default seed takes only %llu 32-bit words of system randomness", (unsigned long long)used);
	unsigned word = (unsigned)g.draw(3), bit = (unsigned)g.draw(31);
	g.note("word %u bit %u", word, bit);
	rdctl::flip_word() = word;
	rdctl::flip_mask() = 1u << bit;
	rdctl::ctr() = 0;
	block b[2];
	{ emp::PRG p(nullptr, id); p.random_block(b, 2); }
	rdctl::flip_mask() = 0;
	REQUIRE(!same(a[0], b[0]) && !same(a[1], b[1]), "bit %u of word %u of the system randomness does not affect the stream", bit, word);
	rdctl::ctr() = 0;
	{ emp::PRG p(nullptr, id); p.random_block(b, 2); }
	REQUIRE(same(a[0], b[0]) && same(a[1], b[1]), "the same seed gives another stream");
}
#else
// The library built to take its seeds from the RDSEED instruction (a stand-in,
// scripted or backed by the system). An attempt that reports failure, or gives
// all zeros or all ones (a known processor fault), has no value to use.
struct Try { bool ok; u64 v; };
static std::vector<Try> script;
static size_t at_try, good_tries;
static bool scripted;
static std::atomic<bool> stuck;
extern "C" int pbt_rdseed64(unsigned long long *v) {
	if (!scripted) { u64 x = 0; while (x == 0 || x == ~0ULL) if (getrandom(&x, 8, 0) != 8) x = 0; *v = x; return 1; }
	if (stuck) { *v = at_try % 3 == 0 ? 0 : at_try % 3 == 1 ? ~0ULL : 0x1234567890abcdefULL; return at_try++ % 3 < 2; }
	if (at_try >= script.size()) { u64 x = pbt::mix64(at_try++); *v = x; ++good_tries; return 1; }
	Try t = script[at_try++];
	*v = t.v;
	good_tries += t.ok && t.v != 0 && t.v != ~0ULL;
	return t.ok;
}
static std::pair<block, block> from_script(int id) {
	at_try = good_tries = 0;
	scripted = true;
	block a[2];
	{ emp::PRG p(nullptr, id); p.random_block(a, 2); }
	scripted = false;
	return {a[0], a[1]};
}
SUBCHECK(rdseed, 30000, 400000, "built with ENABLE_RDSEED, the instruction scripted: up to 5 attempts in a row fail, give zeros or ones; the generator takes at least two usable values, any bit of the first two changes the stream, and what failed attempts leave behind does not; if no attempt ever succeeds, the program ends with an error or the seeds still differ; non-trivial: a failed attempt before the second value") {
	script.clear();
	stuck = false;
	int id = g.chance(1, 3) ? (int)g.draw(9) : 0;
	std::vector<size_t> good, bad;
	for (int k = 0; k < 4; ++k) {
		for (size_t f = g.size(0, 5); f > 0; --f) {
			unsigned how = (unsigned)g.draw(3);
			if (how == 0) bad.push_back(script.size());
			script.push_back(how == 0 ? Try{false, g.draw(~0ULL)} : how == 1 ? Try{true, 0} : how == 2 ? Try{true, ~0ULL} : Try{false, 0});
		}
		good.push_back(script.size());
		script.push_back({true, 1 + g.draw(~0ULL - 2)});
	}
	for (auto &t : script) g.note("%s%llx ", t.ok ? "" : "fail:", (unsigned long long)t.v);
	g.nontrivial(good[1] > 1);
	auto a = from_script(id);
	if (at_try == 0) { g.label("the seed does not come from the instruction"); return; }
	REQUIRE(good_tries >= 2, "the default seed takes only %zu usable values", good_tries);
	std::vector<Try> keep = script;
	size_t w = good[g.draw(1)];
	u64 m = 1ULL << g.draw(63);
	if ((script[w].v ^ m) != 0 && (script[w].v ^ m) != ~0ULL) {
		script[w].v ^= m;
		auto b = from_script(id);
		REQUIRE(!same(a.first, b.first) && !same(a.second, b.second), "bit mask %llx of attempt %zu does not affect the stream", (unsigned long long)m, w);
		script = keep;
	}
	if (!bad.empty()) {
		script[bad[g.draw(bad.size() - 1)]].v ^= 1 + g.draw(1000);
		auto b = from_script(id);
		REQUIRE(same(a.first, b.first) && same(a.second, b.second), "what a failed attempt left behind affects the stream");
	}
	if (g.chance(1, 50)) {
		g.label("never succeeds");
		std::string out[2];
		for (auto &o : out) {
			auto r = pbt::run_child([&](int fd) { stuck = true; auto b = from_script(id); pbt::wr_all(fd, &b.first, 16); }, 20000);
			o = std::string(r.out.begin(), r.out.end());
		}
		REQUIRE(out[0].size() < 16 || out[1].size() < 16 || out[0] != out[1], "with an instruction that never succeeds two generators share their seed");
	}
}
#endif
PBT_MAIN
