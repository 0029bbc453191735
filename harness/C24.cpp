// HighSpeedNetIO: turn-based exchange over loopback.
#include "duplex.hpp"
#include "huge.hpp"
using emp::HighSpeedNetIO;
static void extra(HighSpeedNetIO *, const Op &) {}
static void gen_plan(G &g, Plan &p, size_t turns, size_t lim) {
	int w = (int)g.draw(1), used[2] = {0, 0};
	for (size_t t = 0; t < turns; ++t) {
		Flow f;
		size_t n = g.size(1, 8);
		size_t total = 0;
		for (size_t i = 0; i < n; ++i) {
			Op &o = p.add(w, Op::SEND);
			// reach the edges of the 32 kB packets
			if (g.chance(1, 4)) {
				size_t left = 32768 - (total % 32768);
				int64_t k = (int64_t)left + g.irange(-2, 2) + (g.chance(1, 4) ? 32768 : 0);
				o.m.kind = Msg::DATA;
				o.m.off = 0;
				o.m.n = k < 0 ? 0 : (size_t)k;
				fill(g, o.m.b, o.m.n, false);
				g.label("ends at a packet edge");
			} else o.m = gen_msg(g, lim, {32768, 65536, 16384, 1048576});
			if (i + 1 == n && total == 0 && o.m.wire().empty()) {  // a turn has data
				o.m.kind = Msg::DATA;
				o.m.off = 0;
				o.m.n = 1;
				fill(g, o.m.b, 1, false);
			}
			f.push(o.m);
			size_t l = o.m.wire().size();
			total += l;
			p.sent[w] += l;
			g.note("%c:send %s ", 'A' + w, o.m.str().c_str());
		}
		used[w] = 1;
		while (!f.bytes.empty() || !f.q.empty()) take(g, p, f, 1 - w, false);
		switch (g.weighted({5, 2, 1, 1})) {
		case 0: w = 1 - w; break;
		case 1: {  // both parties flush at the same point; then either may send
			int first = (int)g.draw(1);
			p.add(first, Op::FLUSH);
			p.add(1 - first, Op::FLUSH);
			g.note("flush both ");
			g.label("flush");
			w = (int)g.draw(1);
			break;
		}
		case 2: p.add(0, Op::SYNC); p.add(1, Op::SYNC); g.note("sync "); w = 1 - w; break;
		default: {  // flushed data arrives although the sender does nothing more
			Op &o = p.add(w, Op::SEND);
			o.m = gen_msg(g, lim, {32768});
			p.sent[w] += o.m.wire().size();
			Flow h;
			h.push(o.m);
			g.note("%c:send %s, flush and wait ", 'A' + w, o.m.str().c_str());
			p.add(w, Op::FLUSH);
			while (!h.bytes.empty() || !h.q.empty()) take(g, p, h, 1 - w, false);
			p.add(1 - w, Op::FLUSH);
			Op &a = p.add(w, Op::AWAIT);
			a.idx = p.count[1 - w];
			w = (int)g.draw(1);
			g.label("flush delivers");
		}
		}
	}
	g.nontrivial(used[0] && used[1]);
}
static void go(G &g, Plan &p) {
	Port a, b;
	bool srv = g.coin(), quiet = !g.chance(1, 8);
	run_pair<HighSpeedNetIO>(p, [&](int w) { return new HighSpeedNetIO((w == 0) == srv ? nullptr : "127.0.0.1", a.port, b.port, quiet); }, extra);
}
SUBCHECK(turns, 2000, 30000, "up to 8 turns of 1 to 8 typed messages, sizes concentrated at the 32 kB packet edges, each turn received completely (in other pieces too) before the direction changes or both parties flush; every byte and counter checked, no deadlock; non-trivial: both parties send", 20000) {
	Plan p;
	gen_plan(g, p, g.size(1, 8), 40000);
	go(g, p);
}
SUBCHECK(large, 120, 2000, "as turns, with messages of up to 3 MB; non-trivial: both parties send", 40000) {
	Plan p;
	gen_plan(g, p, g.size(1, 3), 3 << 20);
	go(g, p);
}
// What goes over the wire on a flush is the data and zero padding: checked by
// a raw peer that reads the packets.
SUBCHECK(padding, 400, 6000, "a raw peer reads the packets of a generated turn: the data, then only zeros up to a multiple of the packet size; non-trivial: there is padding", 20000) {
	Port a, b;
	size_t n = g.size(1, 6);
	std::vector<Msg> ms;
	std::string want;
	for (size_t i = 0; i < n; ++i) { ms.push_back(gen_msg(g, 50000, {32768, 16384}, false)); want += ms.back().wire(); g.note("%s ", ms.back().str().c_str()); }
	int l1 = raw_listen(a.port), l2 = raw_listen(b.port);
	fflush(stdout); fflush(stderr);
	pid_t pid = fork();
	if (pid == 0) {
		prctl(PR_SET_PDEATHSIG, SIGKILL);
		emp::Group grp;
		{
			HighSpeedNetIO io("127.0.0.1", a.port, b.port, true);
			for (auto &m : ms) send_msg(&io, &grp, m);
			io.flush();
		}
		_exit(0);
	}
	int s1 = accept(l1, nullptr, nullptr), s2 = accept(l2, nullptr, nullptr);
	std::string got;
	char buf[65536];
	ssize_t k;
	while ((k = read(s1, buf, sizeof buf)) > 0) got.append(buf, k);
	int st;
	waitpid(pid, &st, 0);
	close(s1); close(s2); close(l1); close(l2);
	REQUIRE(WIFEXITED(st) && WEXITSTATUS(st) == 0, "the sender ended with status %x", st);
	REQUIRE(got.size() >= want.size() && got.compare(0, want.size(), want) == 0, "the wire carries other data");
	g.nontrivial(got.size() > want.size());
	for (size_t i = want.size(); i < got.size(); ++i) REQUIRE(got[i] == 0, "padding byte %zu (of %zu after %zu bytes of data) is %02x: memory of the sender leaks", i - want.size(), got.size() - want.size(), want.size(), (unsigned char)got[i]);
}
#ifndef __SANITIZE_ADDRESS__
SUBCHECK(huge, 2, 12, "one message of 2^31 to 2^32 bytes and more between two small ones, either direction; all non-trivial", 120000, 1) {
	HugePlan h;
	h.gen(g);
	Port a, b;
	bool srv = g.coin();
	struct Sh { std::atomic<int> st; char msg[400]; };
	Sh *sh = (Sh *)mmap(nullptr, sizeof(Sh), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	pid_t pid = fork();
	if (pid == 0) {
		prctl(PR_SET_PDEATHSIG, SIGKILL);
		int rc = 0;
		try { HighSpeedNetIO io(srv ? "127.0.0.1" : nullptr, a.port, b.port, true); h.send(&io); io.flush(); while (!sh->st) usleep(1000); }
		catch (pbt::Failure &f) { snprintf(sh->msg, sizeof sh->msg, "%s", f.msg.c_str()); rc = 3; }
		_exit(rc);
	}
	struct Reap { pid_t p; Sh *s; bool done = false; ~Reap() { if (!done) { kill(p, SIGKILL); int st; waitpid(p, &st, 0); } munmap(s, sizeof(Sh)); } } reap{pid, sh};
	{
		HighSpeedNetIO io(srv ? nullptr : "127.0.0.1", a.port, b.port, true);
		h.recv(&io);
		sh->st = 1;
		int st = 0;
		waitpid(pid, &st, 0);
		reap.done = true;
		REQUIRE(WIFEXITED(st) && WEXITSTATUS(st) == 0, "the sender: %s (status %x)", sh->msg, st);
	}
}
#endif
PBT_MAIN
