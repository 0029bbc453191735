// Missing data is an error: never a hang, never made-up bytes.
#include "chan.hpp"
#include "circ.hpp"
#include <deque>
#include <poll.h>
static emp::Group *grp() { static emp::Group *g = new emp::Group(); return g; }
static const unsigned TMO = 15000;
// A receiving program over a byte string of which only the first `cut` bytes exist.
struct Prog25 { std::vector<Msg> ms; std::string all; size_t cut; };
static Prog25 gen25(G &g, size_t lim, std::initializer_list<u64> hints) {
	Prog25 p;
	size_t n = g.size(1, 6);
	for (size_t i = 0; i < n; ++i) { p.ms.push_back(gen_msg(g, lim, hints, g.chance(1, 4))); p.all += p.ms.back().wire(); }
	// cut points near the message boundaries and anywhere
	std::vector<size_t> bd = {0};
	for (auto &m : p.ms) bd.push_back(bd.back() + m.wire().size());
	int64_t c = g.coin() ? (int64_t)g.draw(p.all.size()) : (int64_t)g.of(bd) + g.irange(-1, 1);
	p.cut = c < 0 ? 0 : std::min<size_t>((size_t)c, p.all.size());
	for (auto &m : p.ms) g.note("%s ", m.str().c_str());
	g.note("| %zu of %zu bytes exist ", p.cut, p.all.size());
	g.nontrivial(p.cut < p.all.size());
	return p;
}
// Runs in the child: receives message after message, reports each completion.
template <class IO> static void consume(IO *io, const Prog25 &p, int fd) {
	for (auto &m : p.ms) {
		recv_msg(io, grp(), m, m.off);
		char c = 'm';
		pbt::wr_all(fd, &c, 1);
	}
}
// How many messages lie entirely within the first `avail` bytes.
static size_t whole(const Prog25 &p, size_t avail) { size_t k = 0, at = 0; for (auto &m : p.ms) { at += m.wire().size(); if (at > avail) break; ++k; } return k; }
static void judge(const Prog25 &p, const pbt::ChildResult &r, size_t must, size_t may, const char *what) {
	REQUIRE(!r.timeout, "%s: receiving from a stream that ends after %zu of %zu bytes hangs (%zu messages were received)", what, p.cut, p.all.size(), r.out.size());
	REQUIRE(r.sig == 0 || r.sig == SIGABRT, "%s: the receiver dies of signal %d: %s", what, r.sig, r.err.substr(0, 300).c_str());
	REQUIRE(r.code != 76 && r.code != 77, "%s: %s", what, r.err.substr(0, 600).c_str());
	REQUIRE(r.out.size() <= may, "%s: %zu messages were received, only %zu exist (%zu of %zu bytes)", what, r.out.size(), may, p.cut, p.all.size());
	REQUIRE(r.out.size() >= must, "%s: only %zu messages were received of %zu that exist completely: %s", what, r.out.size(), must, r.err.substr(0, 200).c_str());
	bool ok = r.sig == 0 && r.code == 0;
	if (r.out.size() < p.ms.size()) REQUIRE(!ok, "%s: the receiver reports success after %zu of %zu messages", what, r.out.size(), p.ms.size());
	else REQUIRE(ok, "%s: error although everything arrived (exit %d, signal %d): %s", what, r.code, r.sig, r.err.substr(0, 200).c_str());
}
static void guarded(int fd, const std::function<void()> &f) {
	try { f(); } catch (pbt::Failure &e) { fprintf(stderr, "%s\n", e.msg.c_str()); _exit(77); }
}
SUBCHECK(memory, 3000, 60000, "typed receives from a memory channel that holds only a prefix of the messages; non-trivial: something is missing", 40000) {
	Prog25 p = gen25(g, 2000, {16, 64});
	auto r = pbt::run_child([&](int fd) { guarded(fd, [&] {
		emp::MemIO io(1);
		io.send_data(p.all.data(), p.cut);
		consume(&io, p, fd);
	}); }, TMO);
	size_t k = whole(p, p.cut);
	judge(p, r, k, k, "memory channel");
}
SUBCHECK(file, 2500, 50000, "typed receives from a file cut after any byte, directly or through a memory channel loaded with more than the file has; non-trivial: something is missing", 40000) {
	Prog25 p = gen25(g, 40000, {16384, 4096});
	TmpFile f;
	f.put(p.all.substr(0, p.cut));
	bool load = g.chance(1, 4);
	if (load) g.note("loaded into memory ");
	auto r = pbt::run_child([&](int fd) { guarded(fd, [&] {
		emp::FileIO io(f.c(), true);
		if (load) { emp::MemIO m(8); m.load_from_file(&io, (int64_t)p.all.size()); consume(&m, p, fd); }
		else consume(&io, p, fd);
	}); }, TMO);
	size_t k = whole(p, p.cut);
	judge(p, r, load && k < p.ms.size() ? 0 : k, load && p.cut < p.all.size() ? 0 : k, "file channel");
}
SUBCHECK(write_failure, 400, 4000, "writing to a full device in messages of any size, many times the buffer in all: the sender ends with an error instead of spinning or losing data silently; all non-trivial", 40000) {
	size_t n = g.chance(1, 2) ? g.size(1, 20000, {16384, 8192, 4096}) : g.size(20000, 200000, {16384, 32768});
	g.note("messages of %zu bytes to /dev/full", n);
	g.nontrivial();
	auto r = pbt::run_child([&](int fd) {
		emp::FileIO io("/dev/full", true);
		std::vector<char> v(n, 'x');
		for (size_t k = 0; k < 200000 || k < 4 * n; k += n) io.send_data(v.data(), n);
		pbt::wr_all(fd, "w", 1);
		_exit(0);
	}, TMO);
	REQUIRE(!r.timeout, "writing to a full device hangs");
	REQUIRE(r.out.empty() && (r.code != 0 || r.sig), "writing messages of %zu bytes, over 200000 bytes in all, to a full device reports success", n);
	REQUIRE(r.sig == 0 || r.sig == SIGABRT, "signal %d", r.sig);
}
static void raw_send(int s, const std::string &d, size_t n, size_t piece) {
	size_t at = 0;
	while (at < n) {
		ssize_t k = send(s, d.data() + at, std::min(piece, n - at), MSG_NOSIGNAL);
		if (k <= 0) return;
		at += k;
	}
}
SUBCHECK(net_recv, 1500, 25000, "NetIO receiving from a raw peer that sends a prefix in pieces of any size and closes (orderly, half-close or reset); non-trivial: something is missing", 40000) {
	Prog25 p = gen25(g, 60000, {65536, 16384});
	bool server = g.coin();
	size_t piece = g.size(1, 70000, {1448, 4096, 65536});
	if (p.cut / piece > 2000) piece = p.cut / 2000 + 1;
	int how = (int)g.draw(2);  // 0 close, 1 half-close, 2 close with unread data
	bool greet = how == 2;
	g.note("pieces of %zu, %s", piece, how == 0 ? "close" : how == 1 ? "half-close" : "reset");
	Port port;
	int ls = server ? -1 : raw_listen(port.port);
	fflush(stdout); fflush(stderr);
	pid_t peer = fork();
	if (peer == 0) {
		prctl(PR_SET_PDEATHSIG, SIGKILL);
		int s = server ? raw_connect(port.port) : accept(ls, nullptr, nullptr);
		raw_send(s, p.all, p.cut, piece);
		if (how == 1) { shutdown(s, SHUT_WR); char c; while (read(s, &c, 1) > 0); }
		close(s);
		_exit(0);
	}
	auto r = pbt::run_child([&](int fd) { guarded(fd, [&] {
		emp::NetIO io(server ? nullptr : "127.0.0.1", port.port, true);
		if (greet) { char h[100] = {1}; io.send_data(h, 100); io.flush(); }
		consume(&io, p, fd);
		_exit(0);
	}); }, TMO);
	kill(peer, SIGKILL);
	int st;
	waitpid(peer, &st, 0);
	if (ls >= 0) close(ls);
	size_t k = whole(p, p.cut);
	// a reset may discard data that was not read yet
	judge(p, r, greet ? 0 : k, k, "network channel");
}
SUBCHECK(flush_failure, 400, 4000, "up to 4 messages of any size, fewer than any buffer holds included, written to a full device, then flushed or the channel closed: the sender ends with an error; non-trivial: at least one byte is sent", 40000) {
	size_t n = g.size(0, 4), total = 0;
	std::vector<size_t> ls;
	for (size_t i = 0; i < n; ++i) { ls.push_back(g.size(0, 40000, {16384, 8192, 4096})); total += ls.back(); g.note("%zu ", ls.back()); }
	bool fl = g.coin();
	g.note("bytes to /dev/full, then %s", fl ? "flush" : "close");
	g.nontrivial(total > 0);
	auto r = pbt::run_child([&](int fd) {
		{
			emp::FileIO io("/dev/full", true);
			for (size_t l : ls) { std::vector<char> v(l + 1, 'x'); io.send_data(v.data(), l); }
			if (fl) { io.flush(); pbt::wr_all(fd, "w", 1); _exit(0); }
		}
		pbt::wr_all(fd, "w", 1);
		_exit(0);
	}, TMO);
	REQUIRE(!r.timeout, "writing to a full device hangs");
	bool ok = r.out == "w" && r.code == 0 && !r.sig;
	REQUIRE(r.sig == 0 || r.sig == SIGABRT, "signal %d", r.sig);
	REQUIRE(ok == (total == 0), "%zu bytes for a full device: %s", total, ok ? "success is reported" : "error without a reason");
}
SUBCHECK(net_flush, 200, 2500, "a NetIO whose peer has closed (and whose first send told the kernel so) sends a few bytes, then flushes, receives or is destroyed; with the signal ignored it ends with an error, not with success; all non-trivial", 40000) {
	bool server = g.coin();
	size_t n = g.size(1, 5000);
	int how = (int)g.draw(2);
	g.note("%zu bytes to a closed peer, then %s", n, how == 0 ? "flush" : how == 1 ? "receive" : "close");
	g.nontrivial();
	Port port;
	int ls = server ? -1 : raw_listen(port.port), pp[2];
	if (pipe(pp)) _exit(99);
	fflush(stdout); fflush(stderr);
	pid_t peer = fork();
	if (peer == 0) {
		prctl(PR_SET_PDEATHSIG, SIGKILL);
		int s = server ? raw_connect(port.port) : accept(ls, nullptr, nullptr);
		char c;
		if (read(s, &c, 1) != 1) _exit(1);   // one of two bytes: closing now resets the connection
		close(s);
		pbt::wr_all(pp[1], "c", 1);
		_exit(0);
	}
	auto r = pbt::run_child([&](int fd) {
		signal(SIGPIPE, SIG_IGN);
		{
			emp::NetIO io(server ? nullptr : "127.0.0.1", port.port, true);
			char two[2] = {1, 2}, c;
			io.send_data(two, 2);
			io.flush();
			if (read(pp[0], &c, 1) != 1) _exit(98);
			// wait until the reset has been processed here
#ifndef NO_WHITEBOX
			struct pollfd pf = {io.consocket, POLLIN, 0};
			poll(&pf, 1, 5000);
#else
			usleep(30000);
#endif
			std::vector<char> v(n, 'z');
			io.send_data(v.data(), n);
			if (how == 0) { io.flush(); pbt::wr_all(fd, "s", 1); _exit(0); }
			if (how == 1) { io.recv_data(v.data(), 1); pbt::wr_all(fd, "s", 1); _exit(0); }
		}
		pbt::wr_all(fd, "s", 1);
		_exit(0);
	}, TMO);
	close(pp[0]); close(pp[1]);
	kill(peer, SIGKILL);
	int st;
	waitpid(peer, &st, 0);
	if (ls >= 0) close(ls);
	REQUIRE(!r.timeout, "sending to a closed peer hangs");
	REQUIRE(r.out.empty() && (r.code != 0 || r.sig), "%zu bytes for a closed peer: success is reported", n);
	REQUIRE(r.code != 98, "set-up");
	REQUIRE(r.sig == 0 || r.sig == SIGPIPE || r.sig == SIGABRT, "signal %d", r.sig);
}
SUBCHECK(net_send, 120, 1500, "NetIO and HighSpeedNetIO sending to a peer that has gone, more than any buffer holds: the sender ends (error exit or broken pipe), it does not hang or report success; all non-trivial", 40000) {
	bool server = g.coin(), hs = g.coin(), ign = g.coin();
	size_t take_ = g.draw(100000), chunk = g.coin() ? g.size(100000, 6 << 20, {1 << 20}) : g.size(1000, 100000, {32768, 65536});
	g.note("%s: peer reads %zu bytes and closes, sends of %zu, SIGPIPE %s", hs ? "high-speed" : "net", take_, chunk, ign ? "ignored" : "default");
	g.nontrivial();
	Port port, port2;
	int ls = server ? -1 : raw_listen(port.port), ls2 = server || !hs ? -1 : raw_listen(port2.port);
	fflush(stdout); fflush(stderr);
	pid_t peer = fork();
	if (peer == 0) {
		prctl(PR_SET_PDEATHSIG, SIGKILL);
		int s = server ? raw_connect(port.port) : accept(ls, nullptr, nullptr);
		int s2 = !hs ? -1 : server ? raw_connect(port2.port) : accept(ls2, nullptr, nullptr);
		if (hs && server) std::swap(s, s2);
		std::vector<char> b(65536);
		size_t at = 0;
		while (at < take_) { ssize_t k = read(s, b.data(), std::min(b.size(), take_ - at)); if (k <= 0) break; at += k; }
		close(s);
		if (s2 >= 0) close(s2);
		_exit(0);
	}
	auto r = pbt::run_child([&](int fd) {
		if (!ign) signal(SIGPIPE, SIG_DFL);
		std::vector<char> v(chunk, 'q');
		auto body = [&](auto &io) { for (size_t sent = 0; sent < (size_t)80 << 20; sent += chunk) io.send_data(v.data(), chunk); };
		if (hs) { emp::HighSpeedNetIO io(server ? nullptr : "127.0.0.1", port.port, port2.port, true); body(io); pbt::wr_all(fd, "s", 1); _exit(0); }
		emp::NetIO io(server ? nullptr : "127.0.0.1", port.port, true);
		body(io);
		pbt::wr_all(fd, "s", 1);
		_exit(0);
	}, TMO);
	kill(peer, SIGKILL);
	int st;
	waitpid(peer, &st, 0);
	if (ls >= 0) close(ls);
	if (ls2 >= 0) close(ls2);
	REQUIRE(!r.timeout, "sending to a closed peer hangs");
	REQUIRE(r.out.empty(), "80 MB were sent to a closed peer without an error");
	REQUIRE(r.sig == 0 || r.sig == SIGPIPE || r.sig == SIGABRT, "signal %d", r.sig);
}
SUBCHECK(highspeed_recv, 1200, 20000, "HighSpeedNetIO receiving from a raw peer that sends whole packets, then closes after any byte; non-trivial: something is missing", 40000) {
	Prog25 p = gen25(g, 60000, {32768, 65536});
	std::string wire = p.all;
	if (wire.size() % 32768) wire.resize(wire.size() + 32768 - wire.size() % 32768, 0);
	// cut anywhere in the padded stream
	size_t cut = p.cut == p.all.size() ? wire.size() : g.chance(1, 3) ? p.cut / 32768 * 32768 : p.cut;
	p.cut = std::min(cut, p.all.size());
	size_t piece = g.size(1000, 70000, {1448, 4096, 32768});
	g.note("wire cut at %zu of %zu", cut, wire.size());
	bool server = g.coin();
	Port a, b;
	// server: receives on the first port; client: on the second
	int la = server ? -1 : raw_listen(a.port), lb = server ? -1 : raw_listen(b.port);
	fflush(stdout); fflush(stderr);
	pid_t peer = fork();
	if (peer == 0) {
		prctl(PR_SET_PDEATHSIG, SIGKILL);
		int x = server ? raw_connect(a.port) : accept(la, nullptr, nullptr), y = server ? raw_connect(b.port) : accept(lb, nullptr, nullptr);
		raw_send(server ? x : y, wire, cut, piece);
		close(x);
		close(y);
		_exit(0);
	}
	auto r = pbt::run_child([&](int fd) { guarded(fd, [&] {
		emp::HighSpeedNetIO io(server ? nullptr : "127.0.0.1", a.port, b.port, true);
		consume(&io, p, fd);
		_exit(0);
	}); }, TMO);
	kill(peer, SIGKILL);
	int st;
	waitpid(peer, &st, 0);
	if (la >= 0) { close(la); close(lb); }
	// data in complete packets must arrive; nothing beyond the cut may
	judge(p, r, whole(p, cut / 32768 * 32768), whole(p, p.cut), "high-speed channel");
}
SUBCHECK(peer_crash, 300, 5000, "two real endpoints (NetIO or HighSpeedNetIO): one is killed after a generated number of messages, the other receives what was flushed and then ends with an error; non-trivial: all", 40000) {
	bool hs = g.coin(), server = g.coin();
	Prog25 p = gen25(g, 50000, {32768, 16384});
	size_t k = g.draw(p.ms.size());  // messages sent before the crash
	// the high-speed channel is flushed at the end of a turn only
	bool fl = !hs || k == p.ms.size();
	bool unflushed = g.coin();
	g.note("%s, killed after %zu messages%s", hs ? "high-speed" : "net", k, unflushed ? " and an unflushed one" : "");
	g.nontrivial();
	size_t bytes = 0;
	for (size_t i = 0; i < k; ++i) bytes += p.ms[i].wire().size();
	p.cut = bytes;
	Port a, b;
	fflush(stdout); fflush(stderr);
	pid_t peer = fork();
	if (peer == 0) {
		prctl(PR_SET_PDEATHSIG, SIGKILL);
		auto body = [&](auto *io) {
			for (size_t i = 0; i < k; ++i) send_msg(io, grp(), p.ms[i]);
			if (k && fl) io->flush();
			if (unflushed && !hs && k < p.ms.size() && p.ms[k].wire().size() < 20000) send_msg(io, grp(), p.ms[k]);
			kill(getpid(), SIGKILL);
		};
		if (hs) body(new emp::HighSpeedNetIO(server ? "127.0.0.1" : nullptr, a.port, b.port, true));
		else body(new emp::NetIO(server ? "127.0.0.1" : nullptr, a.port, true));
		_exit(0);
	}
	auto r = pbt::run_child([&](int fd) { guarded(fd, [&] {
		if (hs) { emp::HighSpeedNetIO io(server ? nullptr : "127.0.0.1", a.port, b.port, true); consume(&io, p, fd); _exit(0); }
		else { emp::NetIO io(server ? nullptr : "127.0.0.1", a.port, true); consume(&io, p, fd); _exit(0); }
	}); }, TMO);
	kill(peer, SIGKILL);
	int st;
	waitpid(peer, &st, 0);
	judge(p, r, fl ? k : 0, whole(p, bytes), hs ? "high-speed channel" : "network channel");
}
SUBCHECK(set_up, 300, 4000, "opening a network channel on a port number outside 0..65535 (by a little or by a lot, so that it would wrap to a usable one), or as server on a port in use: it ends with an exception or an error exit, it does not use another port, hang or report success; all non-trivial", 40000) {
	bool server = g.coin(), hs = g.coin(), second = g.coin();
	int how = (int)g.draw(3);  // 0 negative, 1 too large, 2 would wrap to a free port, 3 in use
	if (how == 3) server = true;
	Port a, b;
	int bad = 0, ls = -1;
	if (how == 0) bad = g.coin() ? -1 - (int)g.draw(70000) : a.port - 65536;
	if (how == 1) bad = 65536 + (int)g.draw(70000);
	if (how == 2) bad = a.port + 65536 * (1 + (int)g.draw(2));
	// if the wrong number were cut to 16 bits, someone would be there
	if (how != 3 && !server) ls = raw_listen(a.port);
	if (how == 3) { ls = raw_listen(a.port); bad = a.port; second = false; }
	g.note("%s %s, port %d%s", hs ? "high-speed" : "net", server ? "server" : "client", bad, how == 3 ? " in use" : hs && second ? " for the second direction" : "");
	g.nontrivial();
	fflush(stdout); fflush(stderr);
	pid_t peer = -1;
	if (server && how != 3) {
		peer = fork();
		if (peer == 0) {
			prctl(PR_SET_PDEATHSIG, SIGKILL);
			int s = raw_connect(bad & 65535);
			char c;
			while (read(s, &c, 1) > 0);
			_exit(0);
		}
	}
	auto r = pbt::run_child([&](int fd) {
		fclose(stderr);
		try {
			if (hs) { emp::HighSpeedNetIO io(server ? nullptr : "127.0.0.1", second ? b.port : bad, second ? bad : b.port, true); pbt::wr_all(fd, "s", 1); }
			else { emp::NetIO io(server ? nullptr : "127.0.0.1", bad, true); pbt::wr_all(fd, "s", 1); }
		} catch (std::exception &) { _exit(7); }
		_exit(0);
	}, 8000);
	int st;
	if (peer > 0) { kill(peer, SIGKILL); waitpid(peer, &st, 0); }
	if (ls >= 0) close(ls);
	REQUIRE(!r.timeout, "opening the channel hangs");
	REQUIRE(r.out.empty(), "the channel was opened");
	REQUIRE((r.sig == 0 && r.code != 0) || r.sig == SIGABRT, "ended with status %d, signal %d", r.code, r.sig);
}
PBT_MAIN
