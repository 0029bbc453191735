// Shared by the garbling harnesses: generated circuits, a counting reference
// backend, a recording channel and stepwise sessions.
#pragma once
#include "common.hpp"
#include <unordered_set>

struct RecIO : public emp::IOChannel<RecIO> {
	std::vector<unsigned char> log;
	size_t rd = 0;
	void send_data_internal(const void *p, size_t n) { log.insert(log.end(), (const unsigned char *)p, (const unsigned char *)p + n); }
	void recv_data_internal(void *p, size_t n) {
		if (rd + n > log.size()) throw pbt::Failure{fmt("the evaluator asks for %zu bytes at offset %zu of %zu", n, rd, log.size())};
		memcpy(p, log.data() + rd, n);
		rd += n;
	}
	void flush() {}
	void sync() {}
	size_t sent() const { return log.size(); }
	size_t taken() const { return rd; }
	std::vector<unsigned char> bytes() const { return log; }
};
struct RefExec : public CircuitExecution {
	uint64_t ands = 0, xors = 0, nots = 0;
	block and_gate(const block &a, const block &b) override { ++ands; return mkblk(0, blo(a) & blo(b)); }
	block xor_gate(const block &a, const block &b) override { ++xors; return mkblk(0, blo(a) ^ blo(b)); }
	block not_gate(const block &a) override { ++nots; return mkblk(0, blo(a) ^ 1); }
	block public_label(bool b) override { return mkblk(0, b); }
	uint64_t num_and() override { return ands; }
};
struct RefProt : public ProtocolExecution {
	void feed(block *l, int, const bool *b, int n) override { for (int i = 0; i < n; ++i) l[i] = mkblk(0, b[i]); }
	void reveal(bool *o, int, const block *l, int n) override { for (int i = 0; i < n; ++i) o[i] = blo(l[i]); }
};
// Input labels of the generator: random zero labels; never depend on the values.
struct GenProt : public ProtocolExecution {
	pbt::Rng r;
	bool lsb0;
	std::vector<block> zeros;
	GenProt(u64 seed, bool lsb0) : r(seed), lsb0(lsb0) {}
	void feed(block *l, int, const bool *, int n) override {
		for (int i = 0; i < n; ++i) {
			u64 hi = r.next(), lo = r.next();
			l[i] = mkblk(hi, lsb0 ? lo & ~1ULL : lo);
			zeros.push_back(l[i]);
		}
	}
	void reveal(bool *o, int, const block *, int n) override { for (int i = 0; i < n; ++i) o[i] = false; }
};
struct EvaProt : public ProtocolExecution {
	const std::vector<block> &zeros;
	block delta;
	size_t at = 0;
	EvaProt(const std::vector<block> &z, const block &d) : zeros(z), delta(d) {}
	void feed(block *l, int, const bool *b, int n) override {
		for (int i = 0; i < n; ++i) {
			const block &z = zeros.at(at++);
			l[i] = b[i] ? bxor(z, delta) : z;
		}
	}
	void reveal(bool *o, int, const block *, int n) override { for (int i = 0; i < n; ++i) o[i] = false; }
};

// ---- generated circuits ----
struct Step { int op; size_t a, b, c; int w; u64 k; };
enum { S_IN, S_PUB, S_AND, S_XOR, S_NOT, S_OR, S_SEL, S_ADD, S_MUL, S_SUB, S_GEQ, S_DIV, S_CHAIN, S_EQ, S_NOPS };
static const char *stepn[] = {"in", "pub", "and", "xor", "not", "or", "sel", "add", "mul", "sub", "geq", "div", "chain", "eq"};
struct Prog {
	std::vector<Step> s;
	std::string str() const {
		std::string o;
		for (auto &x : s) {
			if (o.size() > 600) { o += ".."; break; }
			o += fmt("%s(%zu,%zu", stepn[x.op], x.a, x.b);
			if (x.op == S_SEL) o += fmt(",%zu", x.c);
			if (x.w) o += fmt(",w%d", x.w);
			o += ") ";
		}
		return o;
	}
};
// Wires are referred to modulo the number that exist.
inline Prog gen_prog(G &g, size_t maxsteps, bool typed = true, size_t chain = 300) {
	Prog p;
	size_t ni = 1 + g.draw(5);
	for (size_t i = 0; i < ni; ++i) {
		Step s{S_IN, 0, 0, 0, 0, 0};
		s.a = g.coin();                 // value
		s.b = g.coin() ? ALICE : BOB;   // owner
		p.s.push_back(s);
	}
	size_t n = g.size(1, maxsteps, {8, 9, 4, 5});
	for (size_t i = 0; i < n; ++i) {
		Step s{0, 0, 0, 0, 0, 0};
		s.op = (int)g.weighted({2, 2, 10, 5, 4, 2, 2, (unsigned)(typed ? 2 : 0), (unsigned)(typed ? 1 : 0), (unsigned)(typed ? 1 : 0), (unsigned)(typed ? 1 : 0), (unsigned)(typed ? 1 : 0), (unsigned)(typed ? 1 : 0), (unsigned)(typed ? 1 : 0)});
		switch (s.op) {
		case S_IN: s.a = g.coin(); s.b = g.coin() ? ALICE : BOB; break;
		case S_PUB: s.a = g.coin(); break;
		case S_NOT: s.a = g.draw(63); break;
		case S_SEL: s.a = g.draw(63); s.b = g.draw(63); s.c = g.draw(63); break;
		case S_CHAIN: s.a = g.draw(63); s.b = g.draw(63); s.k = g.draw(0xffff); s.w = (int)g.size(1, chain, {4, 8}); break;
		default:
			s.a = g.draw(63);
			s.b = g.chance(1, 6) ? s.a : g.draw(63);
			if (s.op >= S_ADD) s.w = 1 + (int)g.draw(s.op == S_DIV || s.op == S_MUL ? 7 : 16);
		}
		p.s.push_back(s);
	}
	return p;
}
inline void do_step(const Step &s, std::vector<Bit> &w) {
	auto at = [&](size_t i) -> Bit { return w[w.size() - 1 - i % w.size()]; };
	auto intg = [&](size_t i) { Integer r; for (int j = 0; j < s.w; ++j) r.bits.push_back(at(i + j)); return r; };
	auto push = [&](const Integer &r) { for (size_t j = 0; j < r.size(); ++j) w.push_back(r[j]); };
	switch (s.op) {
	case S_IN: w.push_back(Bit((bool)s.a, (int)s.b)); break;
	case S_PUB: w.push_back(Bit((bool)s.a, PUBLIC)); break;
	case S_AND: { Bit x = at(s.a), y = at(s.b); w.push_back(x & y); break; }
	case S_XOR: { Bit x = at(s.a), y = at(s.b); w.push_back(x ^ y); break; }
	case S_NOT: { Bit x = at(s.a); w.push_back(!x); break; }
	case S_OR: { Bit x = at(s.a), y = at(s.b); w.push_back(x | y); break; }
	case S_SEL: { Bit x = at(s.a), y = at(s.b), z = at(s.c); w.push_back(x.select(z, y)); break; }
	case S_ADD: { Integer x = intg(s.a), y = intg(s.b); push(x + y); break; }
	case S_SUB: { Integer x = intg(s.a), y = intg(s.b); push(x - y); break; }
	case S_MUL: { Integer x = intg(s.a), y = intg(s.b); push(x * y); break; }
	case S_DIV: { Integer x = intg(s.a), y = intg(s.b); push(x / y); break; }
	case S_GEQ: { Integer x = intg(s.a), y = intg(s.b); w.push_back(x >= y); break; }
	case S_EQ: { Integer x = intg(s.a), y = intg(s.b); w.push_back(x == y); break; }
	case S_CHAIN: {
		u64 k = s.k;
		for (int i = 0; i < s.w; ++i) {
			k = pbt::mix64(k + i);
			Bit x = at(k % 16), y = at((k >> 20) % 16);
			w.push_back((k >> 40) % 4 == 0 ? (x ^ y) : (x & y));
		}
	}
	}
}
// One backend with its own wires, advanced a step at a time.
struct Session {
	CircuitExecution *ce;
	ProtocolExecution *pe;
	std::vector<Bit> w;
	size_t pc = 0;
	Session(CircuitExecution *c, ProtocolExecution *p) : ce(c), pe(p) {}
	void enter() { CircuitExecution::circ_exec = ce; ProtocolExecution::prot_exec = pe; }
	void step(const Prog &p) { enter(); do_step(p.s[pc++], w); leave(); }
	void all(const Prog &p) { enter(); while (pc < p.s.size()) do_step(p.s[pc++], w); leave(); }
	static void leave() { CircuitExecution::circ_exec = nullptr; ProtocolExecution::prot_exec = nullptr; }
};
