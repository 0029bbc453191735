// One use of each kind of object the library has, created, used in a generated
// way and destroyed; returns a digest of what it computed.
#pragma once
#include "chan.hpp"
#include "circ.hpp"
#include "embed.hpp"
#include "gc.hpp"
#include "emp-tool/utils/ThreadPool.h"
#include <set>
#include <functional>
#include <thread>
unsigned int emp_tool_circuits_files_bristol_fashion_Keccak_f_txt_len;
unsigned char emp_tool_circuits_files_bristol_fashion_Keccak_f_txt[1 << 17];
static void stub_keccak() {  // any circuit of that shape will do
	unsigned char *p = emp_tool_circuits_files_bristol_fashion_Keccak_f_txt;
	if (emp_tool_circuits_files_bristol_fashion_Keccak_f_txt_len) return;
	int k = sprintf((char *)p, "1600 3200\n1 1600\n1 1600\n\n");
	for (int i = 0; i < 1600; ++i) k += sprintf((char *)p + k, "1 1 %d %d INV\n", i, 1600 + i);
	emp_tool_circuits_files_bristol_fashion_Keccak_f_txt_len = (unsigned)k;
}
struct Digest {  // of what an act computed
	u64 h = 1469598103934665603ull;
	void add(const void *p, size_t n) { const unsigned char *c = (const unsigned char *)p; for (size_t i = 0; i < n; ++i) h = (h ^ c[i]) * 1099511628211ull; }
	template <class T> void val(T v) { add(&v, sizeof(T)); }
	void str(const std::string &s) { add(s.data(), s.size()); }
};
struct Act { int kind; size_t n, m; u64 s; };
enum { A_MEM, A_FILE, A_NET, A_HSNET, A_POOL, A_GROUP, A_HASH, A_FORMAT, A_FASHION, A_PLAIN, A_HALF, A_PF, A_SYM, A_FIELD, A_AESCTR, A_INT, A_SORT, A_FLOAT, A_KINDS };
static const char *an[] = {"memory channel", "file channel", "NetIO", "HighSpeedNetIO", "thread pool", "group", "hash", "simple circuit file", "circuit file", "plain recording", "half gates", "privacy-free", "symmetric primitives", "field", "AES-CTR", "integers", "sort", "floats"};
template <class MK> static void net_pair(MK mk, const Act &a, Digest &dg) {
	std::vector<unsigned char> d(a.n + 8, 7), e(a.n + 1);
	for (size_t i = 0; i < d.size(); ++i) d[i] = (unsigned char)pbt::mix64(a.s + i);
	std::thread t([&] { auto *io = mk(false); io->recv_data(e.data(), a.n + 1); io->send_data(d.data(), 5); io->flush(); delete io; });
	if (a.s & 8) usleep((useconds_t)(a.m % 4) * 700);  // the client has to try again
	auto *io = mk(true);
	io->send_data(d.data(), a.n + 1);
	io->flush();
	unsigned char r[5];
	io->recv_data(r, 5);
	t.join();
	delete io;
	dg.add(e.data(), e.size());
	dg.add(r, 5);
}
template <template <class> class GEN, template <class> class EVA> static void garble(const Act &a, bool lsb0, Digest &dg) {
	pbt::Rng r(a.s);
	Prog p;
	for (int i = 0; i < 4; ++i) p.s.push_back(Step{S_IN, (size_t)(i & 1), (size_t)ALICE, 0, 0, 0});
	p.s.push_back(Step{S_CHAIN, 0, 0, 0, (int)(a.n % 200) + 1, a.s});
	RecIO io;
	GEN<RecIO> *gen = new GEN<RecIO>(&io);
	GenProt gp(a.s, lsb0);
	Session s(gen, &gp);
	s.all(p);
	EVA<RecIO> *eva = new EVA<RecIO>(&io);
	EvaProt ep(gp.zeros, gen->delta);
	Session e(eva, &ep);
	e.all(p);
	for (size_t i = 0; i < s.w.size(); ++i) {
		bool z = same(s.w[i].bit, e.w[i].bit);
		REQUIRE(z || same(bxor(s.w[i].bit, gen->delta), e.w[i].bit), "%s: wire %zu has no value", lsb0 ? "privacy-free" : "half gates", i);
		dg.val((char)z);
	}
	delete static_cast<CircuitExecution *>(gen);
	delete static_cast<CircuitExecution *>(eva);
}
static u64 act(const Act &a) {
	Digest dg;
	switch (a.kind) {
	case A_MEM: {
		emp::MemIO io((int64_t)(a.m % 500));
		std::vector<char> b(a.n + 1);
		for (size_t i = 0; i < b.size(); ++i) b[i] = (char)pbt::mix64(a.s + i);
		for (size_t i = 0; i < 1 + a.m % 5; ++i) { io.send_data(b.data(), a.n + 1); io.recv_data(b.data(), a.n / 2); dg.add(b.data(), b.size()); if (a.s & (1u << i)) io.clear(); }
		TmpFile t;
		{
			emp::FileIO f(t.c(), false);
			f.send_data(b.data(), a.n + 1);
			f.reset();
			io.load_from_file(&f, (int64_t)a.n);
			if (a.s & 1) { f.reset(); io.load_from_file(&f, (int64_t)a.n / 2); }
			io.recv_data(b.data(), a.n / 2);
			dg.add(b.data(), a.n / 2);
		}
		break;
	}
	case A_FILE: {
		TmpFile t;
		std::vector<char> b(a.n + 1);
		{ emp::FileIO f(t.c(), false); f.send_data(b.data(), a.n + 1); if (a.s & 1) f.flush(); if (a.s & 2) { f.reset(); f.recv_data(b.data(), a.n); } }
		{ emp::FileIO f(t.c(), true); f.recv_data(b.data(), a.n); dg.add(b.data(), a.n); }
		break;
	}
	case A_NET: { Port p; net_pair([&](bool srv) { return new emp::NetIO(srv ? nullptr : "127.0.0.1", p.port, true); }, a, dg); break; }
	case A_HSNET: { Port p, q; net_pair([&](bool srv) { return new emp::HighSpeedNetIO(srv ? nullptr : "127.0.0.1", p.port, q.port, true); }, a, dg); break; }
	case A_POOL: {
		ThreadPool pool(1 + a.m % 6);
		std::vector<std::future<std::string>> f;
		for (size_t i = 0; i < a.n % 40; ++i) { auto x = pool.enqueue([](std::string s) { return s + s; }, std::string(50, 'x')); if (i % 3) f.push_back(std::move(x)); }
		if (a.s & 1) for (auto &x : f) dg.str(x.get());
		break;
	}
	case A_GROUP: {
		emp::Group g;
		emp::BigInt x, y;
		g.get_rand_bn(x);
		unsigned char xb[16];
		memcpy(xb, &a.s, 8); memcpy(xb + 8, &a.n, 8); xb[3] |= 1;
		x.from_bin(xb, 16);
		y = x;
		y = y.add(x).mod(g.order, g.bn_ctx);
		emp::Point p = g.mul_gen(x), q(p), r;
		r = q;
		for (size_t i = 0; i < 1 + a.n % 3; ++i) { r = r.add(p); q = r.mul(y); p = q.inv(); }
		std::vector<unsigned char> b(p.size());
		p.to_bin(b.data(), b.size());
		dg.add(b.data(), b.size());
		emp::Point z;
		z.from_bin(&g, b.data(), b.size());
		if (a.s & 1) z.from_bin(&g, b.data(), b.size());
		g.resize_scratch(100 + a.m % 2000);
		emp::MemIO io;
		io.send_pt(&z);
		io.recv_pt(&g, &r);
		dg.val(emp::Hash::KDF(r, a.s));
		emp::BigInt o = g.order;
		std::vector<unsigned char> bb((size_t)x.size() + 1);
		x.to_bin(bb.data());
		y.from_bin(bb.data(), x.size());
		break;
	}
	case A_HASH: {
		emp::Hash h;
		std::vector<unsigned char> b(a.n + 1);
		unsigned char d[32];
		for (size_t i = 0; i < b.size(); ++i) b[i] = (unsigned char)pbt::mix64(a.s + i);
		for (size_t i = 0; i < 1 + a.m % 4; ++i) { h.put(b.data(), (int)a.n); if (a.s >> i & 1) { h.digest(d); dg.add(d, 32); } if (a.s >> (i + 8) & 1) h.reset(); }
		emp::Hash::hash_once(d, b.data(), (int)a.n);
		dg.add(d, 32);
		dg.val(emp::Hash::hash_for_block(b.data(), (int)a.n));
		emp::sha3_256<unsigned char>(d, b.data(), a.n);
		dg.add(d, 32);
		if (a.s & 1) {
			stub_keccak();
			RefExec rx; RefProt rp;
			CircuitExecution::circ_exec = &rx; ProtocolExecution::prot_exec = &rp;
			emp::SHA3_256_Calculator c;
			std::vector<block> in(8 * (a.n % 300) + 8, mkblk(0, 0)), out(256);
			c.sha3_256(out.data(), in.data(), 8 * (a.n % 300));
			for (auto &o : out) dg.val((char)(blo(o) & 1));
			CircuitExecution::circ_exec = nullptr; ProtocolExecution::prot_exec = nullptr;
		}
		break;
	}
	case A_FORMAT: case A_FASHION: {
		pbt::Rng r(a.s);
		int ni = 1 + (int)(a.n % 20), ng = 1 + (int)(a.m % 300), no = 1 + (int)(a.n % 5);
		if (no > ng) no = ng;
		std::string s = a.kind == A_FORMAT ? fmt("%d %d\n%d 0 %d\n\n", ng, ni + ng, ni, no) : fmt("%d %d\n1 %d\n1 %d\n\n", ng, ni + ng, ni, no);
		for (int i = 0; i < ng; ++i) { int k = ni + i; s += i % 3 == 2 ? fmt("1 1 %d %d INV\n", (int)r.below(k), k) : fmt("2 1 %d %d %d %s\n", (int)r.below(k), (int)r.below(k), k, i % 2 ? "AND" : "XOR"); }
		TmpFile f, t;
		f.put(s);
		RefExec rx; RefProt rp;
		CircuitExecution::circ_exec = &rx; ProtocolExecution::prot_exec = &rp;
		std::vector<block> in(ni + 1, mkblk(0, 0)), out(no);
		for (int i = 0; i < ni; ++i) in[i] = mkblk(0, pbt::mix64(a.s + i) & 1);
		if (a.kind == A_FORMAT) {
			std::unique_ptr<emp::BristolFormat> c;
			if (a.s & 1) c.reset(new emp::BristolFormat(f.c())); else { FILE *fp = fopen(f.c(), "r"); c.reset(new emp::BristolFormat(fp)); fclose(fp); }
			c->compute(out.data(), in.data(), in.data());
			if (a.s & 2) { c->from_file(f.c()); c->compute(out.data(), in.data(), in.data()); }
			if (a.s & 4) c->to_file(t.c(), "p");
		} else {
			std::unique_ptr<emp::BristolFashion> c;
			if (a.s & 1) c.reset(new emp::BristolFashion(f.c())); else { FILE *fp = fopen(f.c(), "r"); c.reset(new emp::BristolFashion(fp)); fclose(fp); }
			c->compute(out.data(), in.data());
			if (a.s & 2) { c->from_file(f.c()); c->compute(out.data(), in.data()); }
		}
		CircuitExecution::circ_exec = nullptr; ProtocolExecution::prot_exec = nullptr;
		for (auto &o : out) dg.val((char)(blo(o) & 1));
		break;
	}
	case A_PLAIN: {
		TmpFile t;
		emp::setup_plain_prot(a.s & 1, t.c());
		Integer x(32, (int64_t)a.n, ALICE), y(32, (int64_t)a.m, BOB);
		dg.val((x + y).reveal<uint32_t>());
		emp::finalize_plain_prot();
		CircuitExecution::circ_exec = nullptr; ProtocolExecution::prot_exec = nullptr;
		if (a.s & 1) dg.str(slurp(t.c()));
		break;
	}
	case A_HALF: garble<emp::HalfGateGen, emp::HalfGateEva>(a, false, dg); break;
	case A_PF: garble<emp::PrivacyFreeGen, emp::PrivacyFreeEva>(a, true, dg); break;
	case A_SYM: {
		size_t n = a.n % 3000;
		std::vector<block> x(n + 1), y(n + 1);
		block sd = mkblk(a.s, a.n);
		emp::PRG u, p(&sd), q(p);
		u.random_block(y.data(), (int)n);
		p.random_block(x.data(), (int)n);
		p.random_data_unaligned((char *)x.data() + 1, (int)(n * 15));
		std::unique_ptr<bool[]> b(new bool[n + 1]);
		q.random_bool(b.get(), (int)n);
		dg.add(x.data(), n * 16);
		dg.add(b.get(), n);
		p.reseed(x.data());
		p();
		emp::PRP k;
		k.permute_block(x.data(), (int)n);
		dg.add(x.data(), n * 16);
		std::vector<block> sc(2 * n + 2);
		emp::CRH c; c.Hn(y.data(), x.data(), (int)n, a.s & 1 ? sc.data() : nullptr);
		dg.add(y.data(), n * 16);
		emp::CCRH d; d.Hn(y.data(), x.data(), (int)n, a.s & 2 ? sc.data() : nullptr);
		dg.add(y.data(), n * 16);
		emp::TCCRH e; e.Hn(y.data(), x.data(), 3, (int)n, a.s & 4 ? sc.data() : nullptr);
		dg.add(y.data(), n * 16);
		emp::MITCCRH<8> m;
		m.setS(x[0]);
		std::vector<block> mb(8, x[0]);
		m.hash<4, 2>(mb.data());
		dg.add(mb.data(), 128);
		break;
	}
	case A_FIELD: {
		size_t n = 1 + a.n % 2000;
		std::vector<block> x(n), y(n), z(n);
		block r[2];
		for (size_t i = 0; i < n; ++i) { x[i] = mkblk(pbt::mix64(a.s + i), i); y[i] = mkblk(pbt::mix64(a.m + i), a.s); }
		emp::vector_inn_prdt_sum_red(r, x.data(), y.data(), (int)n);
		dg.add(r, 16);
		emp::vector_inn_prdt_sum_no_red(r, x.data(), y.data(), (int)n);
		dg.add(r, 32);
		emp::uni_hash_coeff_gen(z.data(), mkblk(a.s, 2), (int)n);
		dg.add(z.data(), n * 16);
		emp::vector_self_xor(r, x.data(), (int)n);
		dg.add(r, 16);
		emp::delete_array_null(new block[n]);
		TmpFile t;
		emp::file_exists(t.c());
		if (a.s & 1) { t.put("x"); emp::file_exists(t.c()); }
		emp::GaloisFieldPacking gp;
		std::vector<block> v(128, x[0]);
		gp.packing(r, v.data());
		dg.add(r, 16);
		std::vector<unsigned char> m(16 * 32), o(16 * 32);
		for (size_t i = 0; i < m.size(); ++i) m[i] = (unsigned char)pbt::mix64(a.s + i);
		emp::sse_trans(o.data(), m.data(), 64, 64);
		dg.add(o.data(), o.size());
		break;
	}
	case A_AESCTR: {
		std::vector<unsigned char> x(a.n + 1), y(a.n + 1);
		emp::aes_128_ctr<unsigned char>(mkblk(1, a.s), mkblk(2, 3), x.data(), a.s & 1 ? y.data() : nullptr, a.n, a.m);
		dg.add(x.data(), x.size());
		if (a.s & 2) {
			RefExec rx; RefProt rp;
			CircuitExecution::circ_exec = &rx; ProtocolExecution::prot_exec = &rp;
			emp::AES_128_CTR_Calculator c;
			std::vector<block> in(300, mkblk(0, 0)), k(128, mkblk(0, 1));
			c.aes_128_ctr(k.data(), mkblk(4, 5), in.data(), nullptr, 1 + a.n % 300, PUBLIC, a.m);
			for (auto &o : in) dg.val((char)(blo(o) & 1));
			CircuitExecution::circ_exec = nullptr; ProtocolExecution::prot_exec = nullptr;
		}
		break;
	}
	case A_INT: case A_SORT: case A_FLOAT: {
		emp::setup_plain_prot(false, "");
		int n = 1 + (int)(a.n % 70);
		if (a.kind == A_INT) {
			Integer x(n, (int64_t)a.s, ALICE), y(n, (int64_t)a.m | 1, BOB);
			Integer z = (x * y) + (x / y) - (x % y);
			z = z << 3;
			z = x >> y;
			z.resize(100);
			dg.str(z.reveal<std::string>());
			dg.str(z.hamming_weight().reveal<std::string>()); dg.str(z.leading_zeros().reveal<std::string>());
			z = (x * y) + (x / y) - (x % y);
			dg.str(z.reveal<std::string>()); dg.val(z.reveal<int64_t>());
			dg.val(Integer(5, 2, ALICE).modExp(Integer(3, 3, BOB), Integer(5, 7, PUBLIC)).reveal<int>());
			uint64_t mem[4] = {1, 2, 3, 4};
			Integer w(mem, ALICE), v(n, mem, BOB);
			w.reveal(mem, PUBLIC);
			dg.add(mem, 32);
		} else if (a.kind == A_SORT) {
			std::vector<Integer> k, d;
			for (int i = 0; i < n; ++i) { k.push_back(Integer(8, i * 7 % 31, ALICE)); d.push_back(Integer(8, i, BOB)); }
			if (a.s & 1) emp::sort(k.data(), n, d.data()); else emp::sort(k.data(), n);
			for (int i = 0; i < n; ++i) { dg.val(k[i].reveal<int>()); if (a.s & 1) dg.val(d[i].reveal<int>()); }
		} else {
			emp::Float x(1.5f + (float)a.n, ALICE), y(0.25f, BOB);
			emp::Float z = x + y;
			z = z * y - x;
			z = z / y;
			dg.val(z.reveal<double>());
			z = x.sqrt();
			dg.val(z.reveal<double>()); dg.str(z.reveal<std::string>());
			dg.val((char)x.less_equal(y).reveal<bool>()); dg.val((char)x.equal(y).reveal<bool>()); dg.val((char)x.less_than(y).reveal<bool>());
			if (a.s & 1) { dg.val(y.sin().reveal<double>()); dg.val(y.exp2().reveal<double>()); dg.val(x.ln().reveal<double>()); }
		}
		emp::finalize_plain_prot();
		CircuitExecution::circ_exec = nullptr; ProtocolExecution::prot_exec = nullptr;
		break;
	}
	}
	return dg.h;
}
inline Act gen_act(G &g) {
	Act a;
	a.kind = (int)g.weighted({3, 3, 1, 1, 2, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 2, 2});
	a.n = g.size(0, 6000, {8192, 1024, 64});
	a.m = g.draw(1000);
	a.s = g.draw(0xffff);
	g.note("%s(%zu,%zu,%llx) ", an[a.kind], a.n, a.m, (unsigned long long)a.s);
	g.label(an[a.kind]);
	return a;
}
