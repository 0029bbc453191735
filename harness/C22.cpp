// Memory and file channels are faithful byte streams, typed messages included.
#include "huge.hpp"
#include <poll.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <deque>
#include "circ.hpp"
static emp::Group *grp() { static emp::Group *g = new emp::Group(); return g; }
// A queue of messages: a data message may be received in other pieces.
struct Q {
	std::deque<Msg> q;
	std::string bytes;  // everything in flight, as wire bytes
};
template <class IO> static void pull(G &g, IO *io, Q &q, const char *name) {
	if (q.bytes.empty() && q.q.empty()) return;
	if (q.q.empty() || g.chance(1, 4)) {  // as raw bytes, any piece
		size_t n = g.size(0, q.bytes.size());
		g.note("%s.take(%zu) ", name, n);
		recv_raw(io, q.bytes.substr(0, n), g.draw(15));
		q.bytes.erase(0, n);
		// messages that were cut into are no longer receivable as such
		while (n && !q.q.empty()) { size_t l = q.q.front().wire().size(); if (l <= n) { q.q.pop_front(); n -= l; } else { q.q.clear(); } }
		if (n) q.q.clear();
		return;
	}
	Msg m = q.q.front();
	q.q.pop_front();
	g.note("%s.recv %s ", name, m.str().c_str());
	recv_msg(io, grp(), m, g.draw(15));
	q.bytes.erase(0, m.wire().size());
}
#define DEQ 1
SUBCHECK(memory, 40000, 800000, "histories of up to 30 sends, receives (as sent or re-chunked) and clears on a memory channel of any initial capacity; every byte compared with a queue model, byte counter included; non-trivial: a receive after at least two sends") {
	int64_t cap = g.chance(1, 2) ? (int64_t)g.size(0, 200) : 1 << (int)g.draw(20);
	bool dflt = g.chance(1, 10);
	std::unique_ptr<emp::MemIO> io(dflt ? new emp::MemIO() : new emp::MemIO(cap));
	g.note("cap %lld: ", (long long)cap);
	Q q;
	u64 sent = 0;
	int ns = 0;
	size_t n = g.size(1, 30);
	for (size_t i = 0; i < n; ++i) {
		switch (g.weighted({6, 6, 1})) {
		case 0: {
			Msg m = gen_msg(g, 3000, {1024, 64, 16}, g.chance(1, 6));
			g.note("send %s ", m.str().c_str());
			send_msg(io.get(), grp(), m);
			std::string w = m.wire();
			q.bytes += w;
			sent += w.size();
			// a typed message can be taken as such only when the model knows all before it
			size_t known = 0;
			for (auto &x : q.q) known += x.wire().size();
			if (known + w.size() == q.bytes.size()) q.q.push_back(m);
			++ns;
			break;
		}
		case 1: g.nontrivial(ns >= 2 && !q.bytes.empty()); pull(g, io.get(), q, "mem"); break;
		default: g.note("clear "); io->clear(); q.q.clear(); q.bytes.clear(); g.label("clear");
		}
		REQUIRE(io->counter == sent, "counter is %llu after sending %llu bytes", (unsigned long long)io->counter, (unsigned long long)sent);
	}
	recv_raw(io.get(), q.bytes, 0);
}
SUBCHECK(files, 4000, 80000, "write a generated message sequence to a file, then read it back in the same channel after a reset, in a channel opened on the file for reading, or through a memory channel loaded with any part of it; repeated passes; non-trivial: more than 16 kB or at least 3 messages") {
	TmpFile tf;
	size_t n = g.size(0, 8);
	std::vector<Msg> ms;
	std::string all;
	{
		emp::FileIO io(tf.c(), false);
		for (size_t i = 0; i < n; ++i) {
			Msg m = gen_msg(g, 60000, {16384, 32768, 4096}, g.chance(1, 6));
			g.note("write %s ", m.str().c_str());
			send_msg(&io, grp(), m);
			ms.push_back(m);
			all += m.wire();
			if (g.chance(1, 8)) { io.flush(); std::string f = slurp(tf.c()); REQUIRE(f == all, "after a flush the file has %zu bytes, %zu were written", f.size(), all.size()); g.label("flush"); }
		}
		REQUIRE(io.counter == all.size(), "counter is %llu after writing %zu bytes", (unsigned long long)io.counter, all.size());
#ifndef NO_WHITEBOX
		REQUIRE(io.bytes_sent == all.size(), "bytes_sent is %llu after writing %zu bytes", (unsigned long long)io.bytes_sent, all.size());
#endif
		size_t passes = g.draw(2);
		for (size_t p = 0; p < passes; ++p) {
			g.note("reset ");
			io.reset();
			if (g.coin()) { for (auto &m : ms) recv_msg(&io, grp(), m, g.draw(15)); }
			else for (size_t at = 0; at < all.size();) { size_t k = g.size(1, all.size() - at, {16384}); recv_raw(&io, all.substr(at, k), g.draw(15)); at += k; }
		}
		if (passes && g.chance(1, 3)) {  // overwrite from the start
			io.reset();
			Msg m = gen_msg(g, 2000, {64}, false);
			g.note("reset, overwrite %s ", m.str().c_str());
			send_msg(&io, grp(), m);
			std::string w = m.wire();
			if (w.size() > all.size()) all = w; else all.replace(0, w.size(), w);
			ms.clear();
		}
	}
	g.nontrivial(all.size() > 16384 || n >= 3);

	std::string f = slurp(tf.c());
	REQUIRE(f == all, "the file has %zu bytes, %zu were written, or they differ", f.size(), all.size());
	{
		emp::FileIO in(tf.c(), true);
		if (!ms.empty() && g.coin()) for (auto &m : ms) recv_msg(&in, grp(), m, g.draw(15));
		else {
			size_t skip = g.draw(all.size());
			recv_raw(&in, all.substr(0, skip), 0);
			size_t k = g.size(0, all.size() - skip);
			g.note("skip %zu, load %zu ", skip, k);
			emp::MemIO mem((int64_t)g.draw(100));
			if (g.coin()) { char junk[50] = {1}; mem.send_data(junk, 50); mem.recv_data(junk, 20); }
			mem.load_from_file(&in, (int64_t)k);
			size_t at = 0;
			Msg m = gen_msg(g, 300, {16}, false);
			bool app = g.coin();
			if (app) send_msg(&mem, grp(), m);
			while (at < k) { size_t c = g.size(1, k - at); recv_raw(&mem, all.substr(skip + at, c), g.draw(15)); at += c; }
			if (app) recv_msg(&mem, grp(), m, 0);
			// the file channel goes on where the load stopped
			recv_raw(&in, all.substr(skip + k), 0);
		}
	}

	std::string f2 = slurp(tf.c());
	REQUIRE(f2 == all, "reading changed the file");
}
SUBCHECK(booleans, 60000, 1200000, "boolean arrays of up to 200 elements at every pair of alignments: the bytes produced depend only on the booleans (eight to a byte, low bit first, the rest one per byte), and both receive functions restore them; non-trivial: 8 or more booleans") {
	size_t n = g.size(0, 200, {8, 16, 64}), o1 = g.draw(15), o2 = g.draw(15);
	Msg m;
	m.kind = g.coin() ? Msg::BOOL : Msg::BOOLA;
	m.n = n;
	m.off = o1;
	fill(g, m.b, n, true);
	g.note("%s at %zu to %zu", m.str().c_str(), o1, o2);
	g.nontrivial(n >= 8);
	emp::MemIO io((int64_t)g.draw(64));
	send_msg(&io, grp(), m);
	send_msg(&io, grp(), m);
	std::string w = m.wire();
	REQUIRE(io.counter == 2 * w.size(), "%zu booleans take %llu bytes twice, expected %zu each", n, (unsigned long long)io.counter, w.size());
	recv_raw(&io, w, 0);
	Msg r = m;
	if (g.coin()) r.kind = m.kind == Msg::BOOL ? Msg::BOOLA : Msg::BOOL;
	recv_msg(&io, grp(), r, o2);
}
SUBCHECK(large, 120, 2500, "messages of up to 6 MB (300000 booleans) through a memory channel of any capacity and through a file, received as sent or in other pieces; non-trivial: more than 65536 bytes in one message", 60000) {
	bool file = g.coin();
	TmpFile tf;
	std::unique_ptr<emp::MemIO> mem;
	std::unique_ptr<emp::FileIO> fio;
	if (file) fio.reset(new emp::FileIO(tf.c(), false));
	else mem.reset(g.coin() ? new emp::MemIO() : new emp::MemIO((int64_t)g.size(0, 3 << 20)));
	g.note("%s: ", file ? "file" : "memory");
	std::vector<Msg> ms;
	std::string all;
	size_t n = 1 + g.draw(3);
	for (size_t i = 0; i < n; ++i) {
		Msg m = gen_msg(g, g.chance(1, 2) ? 6 << 20 : 300000, {65536, 1 << 20, 1 << 21, 131072}, false);
		g.note("%s ", m.str().c_str());
		if (file) send_msg(fio.get(), grp(), m); else send_msg(mem.get(), grp(), m);
		std::string w = m.wire();
		g.nontrivial(w.size() > 65536 || (m.kind >= Msg::BOOL && m.n > 65536));
		all += w;
		ms.push_back(m);
	}
	REQUIRE((file ? fio->counter : mem->counter) == all.size(), "the counter is wrong after %zu bytes", all.size());
	if (file) { fio->reset(); }
	if (g.coin()) { for (auto &m : ms) if (file) recv_msg(fio.get(), grp(), m, g.draw(15)); else recv_msg(mem.get(), grp(), m, g.draw(15)); }
	else for (size_t at = 0; at < all.size();) { size_t k = g.size(1, all.size() - at, {65536, 1 << 20}); std::string w = all.substr(at, k); if (file) recv_raw(fio.get(), w, g.draw(15)); else recv_raw(mem.get(), w, g.draw(15)); at += k; }
}
#if !defined(__SANITIZE_ADDRESS__) && defined(__BMI2__)
SUBCHECK(huge, 6, 24, "one message of 2^31 to 2^32 bytes and more between two small ones, through the memory channel, or written to or read from a file channel (a pipe stands in for the file); all non-trivial", 120000, 1) {
	HugePlan h;
	u64 kind = g.each(2);
	h.gen(g);
	g.note(" through %s", kind == 0 ? "memory" : kind == 1 ? "a file, writing" : "a file, reading");
	if (kind == 0) {
		if (h.n >> 32) h.n -= 1ULL << 31;
		emp::MemIO io((int64_t)g.size(0, 1 << 20));
		h.send(&io);
		h.recv(&io);
		return;
	}
	TmpFile tf;
	if (mkfifo(tf.c(), 0600)) { perror("mkfifo"); _exit(99); }
	auto a = h.part(0), b = h.part(1), c = h.chunk();
	size_t all = h.n + h.pre + h.post;
	int fd = open(tf.c(), O_RDWR);   // keeps the pipe open
	fcntl(fd, F_SETPIPE_SZ, 1 << 20);
	std::string bad;
	auto piece = [&](size_t at, const unsigned char *&p, size_t &k) {
		if (at < h.pre) { p = a.data() + at; k = h.pre - at; }
		else if (at < h.pre + h.n) { size_t o = at - h.pre; p = c.data() + o % HugePlan::CH; k = std::min<size_t>(HugePlan::CH - o % HugePlan::CH, h.n - o); }
		else { p = b.data() + (at - h.pre - h.n); k = all - at; }
	};
	std::atomic<bool> done{false};
	std::thread peer([&] {
		std::vector<unsigned char> buf(1 << 20);
		struct pollfd pf = {fd, (short)(kind == 1 ? POLLIN : POLLOUT), 0};
		size_t at = 0;
		while (at < all) {
			const unsigned char *p; size_t k;
			piece(at, p, k);
			if (poll(&pf, 1, 200) == 0) { if (done) { bad = fmt("only %zu of %zu bytes arrived", at, all); return; } continue; }
			if (kind == 1) {
				ssize_t r = read(fd, buf.data(), std::min(k, buf.size()));
				if (r <= 0) { bad = "pipe"; return; }
				if (memcmp(p, buf.data(), r)) { bad = fmt("what was written differs within %zd bytes of offset %zu of %zu", r, at, all); return; }
				at += r;
			} else {
				ssize_t r = write(fd, p, std::min<size_t>(k, 65536));
				if (r <= 0) { bad = "pipe"; return; }
				at += r;
			}
		}
	});
	struct Join { std::thread &t; std::atomic<bool> &d; int fd; ~Join() { d = true; if (t.joinable()) t.join(); close(fd); } };
	{
		Join j{peer, done, fd};
		emp::FileIO io(tf.c(), kind == 2);
		if (kind == 1) { h.send(&io); io.flush(); } else h.recv(&io);
	}
	REQUIRE(bad.empty(), "%s", bad.c_str());
}
#endif
PBT_MAIN
