#pragma once
// Two processes, one channel each, and a generated global schedule of typed
// messages; each process runs its projection of the schedule.
#include "chan.hpp"
#include <deque>
struct Op {
	int who;
	enum T { SEND, RECV, RAW, FLUSH, SYNC, AWAIT, NODELAY, DELAY } t;
	Msg m;
	std::string raw;
	size_t off = 0;
	size_t idx = 0;    // AWAIT: the peer has completed this many operations
};
struct Shared { std::atomic<u64> done[2]; std::atomic<u64> sync[2]; char msg[2][1500]; };
struct Flow {  // one direction
	std::deque<Msg> q;
	std::string bytes;
	void push(const Msg &m) {
		std::string w = m.wire();
		size_t known = 0;
		for (auto &x : q) known += x.wire().size();
		bytes += w;
		if (known + w.size() == bytes.size()) q.push_back(m);
	}
	void drop(size_t n) {
		bytes.erase(0, n);
		while (n && !q.empty()) { size_t l = q.front().wire().size(); if (l <= n) { q.pop_front(); n -= l; } else q.clear(); }
		if (n) q.clear();
		// zero-length messages at the front stay receivable
	}
};
struct Plan {
	std::vector<Op> ops;
	size_t count[2] = {0, 0};
	u64 sent[2] = {0, 0};
	bool syncs = false;
	Op &add(int who, Op::T t) { Op o; o.who = who; o.t = t; ops.push_back(o); count[who]++; return ops.back(); }
};
inline void take(G &g, Plan &p, Flow &f, int who, bool all) {  // a receive by `who` from flow f
	if (!f.q.empty() && !g.chance(1, 3)) {
		Op &o = p.add(who, Op::RECV);
		o.m = f.q.front();
		o.off = g.draw(15);
		f.q.pop_front();
		f.bytes.erase(0, o.m.wire().size());
		g.note("%c:recv %s ", 'A' + who, o.m.str().c_str());
		return;
	}
	size_t n = all ? f.bytes.size() : g.size(f.bytes.empty() ? 0 : 1, f.bytes.size());
	Op &o = p.add(who, Op::RAW);
	o.raw = f.bytes.substr(0, n);
	o.off = g.draw(15);
	f.drop(n);
	g.note("%c:take(%zu) ", 'A' + who, n);
}
template <class IO> void play(IO *io, emp::Group *grp, const Plan &p, int who, Shared *sh, const std::function<void(IO *, const Op &)> &extra) {
	const bool barrier_sync = std::is_same<IO, emp::NetIO>::value;  // the other channel's sync does nothing
	u64 rounds = 0;
	for (auto &o : p.ops) {
		if (o.who != who) continue;
		switch (o.t) {
		case Op::SEND: send_msg(io, grp, o.m); break;
		case Op::RECV: recv_msg(io, grp, o.m, o.off); break;
		case Op::RAW: recv_raw(io, o.raw, o.off); break;
		case Op::FLUSH: io->flush(); break;
		case Op::SYNC:
			++rounds;
			sh->sync[who]++;
			io->sync();
			REQUIRE(!barrier_sync || sh->sync[1 - who] >= rounds, "sync %llu returned before the other party entered it", (unsigned long long)rounds);
			break;
		case Op::AWAIT: while (sh->done[1 - who] < o.idx) usleep(50); break;
		default: extra(io, o);
		}
		sh->done[who]++;
	}
	if (!p.syncs) REQUIRE(io->counter == p.sent[who], "counter is %llu after sending %llu bytes", (unsigned long long)io->counter, (unsigned long long)p.sent[who]);
}
// Runs party 0 here and party 1 in a forked child.
template <class IO> void run_pair(const Plan &p, const std::function<IO *(int)> &mk, const std::function<void(IO *, const Op &)> &extra) {
	static emp::Group *grp = new emp::Group();
	point_pool();
	Shared *sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	fflush(stdout); fflush(stderr);
	pid_t parent = getpid(), pid = fork();
	if (pid < 0) { perror("fork"); _exit(99); }
	if (pid == 0) {
		prctl(PR_SET_PDEATHSIG, SIGKILL);
		if (getppid() != parent) _exit(0);
		int rc = 0;
		try {
			std::unique_ptr<IO> io(mk(1));
			play<IO>(io.get(), grp, p, 1, sh, extra);
		} catch (pbt::Failure &f) {
			snprintf(sh->msg[1], sizeof sh->msg[1], "%s", f.msg.c_str());
			fprintf(stderr, "party B: %s\n", f.msg.c_str());
			rc = 3;
		} catch (std::exception &e) { snprintf(sh->msg[1], sizeof sh->msg[1], "exception %s", e.what()); rc = 3; }
		_exit(rc);
	}
	struct Reap {
		pid_t p; Shared *s; bool done = false;
		~Reap() { if (!done) { kill(p, SIGKILL); int st; waitpid(p, &st, 0); } munmap(s, sizeof(Shared)); }
	} reap{pid, sh};
	{
		std::unique_ptr<IO> io(mk(0));
		play<IO>(io.get(), grp, p, 0, sh, extra);
	}
	int st = 0;
	waitpid(pid, &st, 0);
	reap.done = true;
	REQUIRE(WIFEXITED(st) && WEXITSTATUS(st) == 0, "party B: %s (status %x)", sh->msg[1][0] ? sh->msg[1] : "ended with an error", st);
}
