// NetIO: two parties over loopback, any full-duplex schedule.
#include "duplex.hpp"
#include "huge.hpp"
using emp::NetIO;
static void extra(NetIO *io, const Op &o) { if (o.t == Op::NODELAY) io->set_nodelay(); else io->set_delay(); }
static void gen_plan(G &g, Plan &p, size_t nops, size_t small, size_t big) {
	Flow f[2];  // f[w]: sent by w
	bool crossed = false;
	for (size_t i = 0; i < nops; ++i) {
		int w = (int)g.draw(1);
		switch (g.weighted({8, 8, 1, 1, 1, 1})) {
		case 0: {
			size_t lim = f[1 - w].bytes.empty() ? big : (f[w].bytes.size() < small ? small - f[w].bytes.size() : 0);
			if (lim < 300 && !f[1 - w].bytes.empty()) break;
			Op &o = p.add(w, Op::SEND);
			o.m = gen_msg(g, lim, {1048576, 65536, 16384, 4096});
			f[w].push(o.m);
			p.sent[w] += o.m.wire().size();
			if (!f[0].bytes.empty() && !f[1].bytes.empty()) crossed = true;
			g.note("%c:send %s ", 'A' + w, o.m.str().c_str());
			break;
		}
		case 1:
			if (f[w].bytes.empty() && f[w].q.empty()) w = 1 - w;
			if (f[w].bytes.empty() && f[w].q.empty()) break;
			take(g, p, f[w], 1 - w, false);
			break;
		case 2: p.add(w, Op::FLUSH); g.note("%c:flush ", 'A' + w); break;
		case 3:
			// both parties have received everything
			for (int s = 0; s < 2; ++s) while (!f[s].bytes.empty() || !f[s].q.empty()) take(g, p, f[s], 1 - s, true);
			p.add(0, Op::SYNC);
			p.add(1, Op::SYNC);
			p.syncs = true;
			g.note("sync ");
			g.label("sync");
			break;
		case 4: {
			// flushed data arrives although the sender does nothing more
			if (f[w].bytes.empty()) break;
			p.add(w, Op::FLUSH);
			while (!f[w].bytes.empty()) take(g, p, f[w], 1 - w, true);
			Op &o = p.add(w, Op::AWAIT);
			o.idx = p.count[1 - w];
			g.note("%c:flush and wait ", 'A' + w);
			g.label("flush delivers");
			break;
		}
		default: p.add(w, g.coin() ? Op::NODELAY : Op::DELAY);
		}
	}
	for (int s = 0; s < 2; ++s) while (!f[s].bytes.empty() || !f[s].q.empty()) take(g, p, f[s], 1 - s, g.coin());
	g.nontrivial(p.sent[0] && p.sent[1]);
	if (crossed) g.label("data in flight both ways");
}
static void go(G &g, Plan &p) {
	Port port;
	bool srv = g.coin(), quiet = !g.chance(1, 8);
	run_pair<NetIO>(p, [&](int w) { return new NetIO((w == 0) == srv ? nullptr : "127.0.0.1", port.port, quiet); }, extra);
}
SUBCHECK(duplex, 2500, 40000, "up to 24 operations of both parties in any order that leaves at most 40 kB unread when data is under way both ways: typed messages, receives in other pieces, flush, sync, waiting out of band for flushed data; every byte and counter checked, no deadlock; non-trivial: both parties send", 20000) {
	Plan p;
	gen_plan(g, p, g.size(1, 24), 40000, 60000);
	go(g, p);
}
SUBCHECK(large, 120, 2500, "as duplex, with messages of up to 4 MB (several times the stream buffer); non-trivial: both parties send", 40000) {
	Plan p;
	gen_plan(g, p, g.size(2, 10), 30000, 4 << 20);
	go(g, p);
}
#ifndef __SANITIZE_ADDRESS__
SUBCHECK(huge, 2, 12, "one message of 2^31 to 2^32 bytes and more between two small ones, either direction; all non-trivial", 120000, 1) {
	HugePlan h;
	h.gen(g);
	Port port;
	bool srv = g.coin();
	struct Sh { std::atomic<int> st; char msg[400]; };
	Sh *sh = (Sh *)mmap(nullptr, sizeof(Sh), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	pid_t pid = fork();
	if (pid == 0) {
		prctl(PR_SET_PDEATHSIG, SIGKILL);
		int rc = 0;
		try { NetIO io(srv ? "127.0.0.1" : nullptr, port.port, true); h.send(&io); io.flush(); while (!sh->st) usleep(1000); }
		catch (pbt::Failure &f) { snprintf(sh->msg, sizeof sh->msg, "%s", f.msg.c_str()); rc = 3; }
		_exit(rc);
	}
	struct Reap { pid_t p; Sh *s; bool done = false; ~Reap() { if (!done) { kill(p, SIGKILL); int st; waitpid(p, &st, 0); } munmap(s, sizeof(Sh)); } } reap{pid, sh};
	{
		NetIO io(srv ? nullptr : "127.0.0.1", port.port, true);
		h.recv(&io);
		sh->st = 1;
		int st = 0;
		waitpid(pid, &st, 0);
		reap.done = true;
		REQUIRE(WIFEXITED(st) && WEXITSTATUS(st) == 0, "the sender: %s (status %x)", sh->msg, st);
	}
}
#endif
PBT_MAIN
