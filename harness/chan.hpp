#pragma once
#include <atomic>
// Typed messages for the channel harnesses: what is sent, how it is received.
#include "ec.hpp"
struct Msg {
	enum Kind { DATA, BLOCK, BOOL, BOOLA, PT } kind;
	size_t n;                       // bytes, blocks, booleans or points
	size_t off;                     // alignment of the sender's buffer
	std::vector<unsigned char> b;   // contents (for points: scalars' encodings, n of them)
	std::vector<std::vector<unsigned char>> pts;
	std::string wire() const {      // the bytes this message occupies in the stream
		std::string s;
		if (kind == DATA || kind == BLOCK) return std::string(b.begin(), b.end());
		if (kind == PT) {
			for (auto &p : pts) { uint32_t l = (uint32_t)p.size(); s.append((char *)&l, 4); s.append((char *)p.data(), p.size()); }
			return s;
		}
		for (size_t i = 0; i < n / 8; ++i) { unsigned char c = 0; for (int j = 0; j < 8; ++j) c |= b[8 * i + j] << j; s += (char)c; }
		for (size_t i = n / 8 * 8; i < n; ++i) s += (char)b[i];
		return s;
	}
	std::string str() const { static const char *k[] = {"data", "block", "bool", "bool_aligned", "pt"}; return fmt("%s(%zu)", k[kind], n); }
};
// Multiples of the generator, computed once per process.
inline const std::vector<std::vector<unsigned char>> &point_pool() {
	static std::vector<std::vector<unsigned char>> v;
	if (v.empty()) {
		v.push_back({0});
		Aff a = Aff::gen();
		for (int i = 0; i < 12; ++i) { v.push_back(a.enc()); a = a.add(a).add(Aff::gen()); }
	}
	return v;
}
inline void fill(G &g, std::vector<unsigned char> &b, size_t n, bool bools) {
	b.resize(n);
	if (n > 4096) {
		u64 s = g.draw(~0ULL);
		for (size_t i = 0; i < n; ++i) b[i] = (unsigned char)(pbt::mix64(s + i / 8) >> (8 * (i % 8)));
	} else if (n) g.bytes(b.data(), n);
	if (bools) for (auto &x : b) x &= 1;
}
inline Msg gen_msg(G &g, size_t maxbytes, std::initializer_list<u64> hints, bool pts = true) {
	Msg m;
	m.off = g.draw(15);
	m.kind = (Msg::Kind)g.weighted({8, 3, 4, 2, pts ? 1u : 0u});
	if (m.kind == Msg::PT && maxbytes < 69 * 3) m.kind = Msg::DATA;
	bool big = g.chance(1, 3);
	switch (m.kind) {
	case Msg::DATA: m.n = big ? g.size(0, maxbytes, hints) : g.size(0, std::min<size_t>(maxbytes, 100)); fill(g, m.b, m.n, false); break;
	case Msg::BLOCK: m.off = 16 * (m.off & 3); m.n = big ? g.size(0, maxbytes / 16, {64, 512, 2048}) : g.size(0, std::min<size_t>(maxbytes / 16, 10)); fill(g, m.b, m.n * 16, false); break;
	case Msg::BOOL: case Msg::BOOLA: m.n = big ? g.size(0, std::min<size_t>(maxbytes, 300000), {8, 64, 4096, 65536, 131072}) : g.size(0, std::min<size_t>(maxbytes, 70), {8, 16}); fill(g, m.b, m.n, true); break;
	default: m.n = g.size(1, 3); for (size_t i = 0; i < m.n; ++i) m.pts.push_back(point_pool()[g.draw(12)]);
	}
	return m;
}
// bytes for a booleans message never exceed n
template <class IO> void send_msg(IO *io, emp::Group *grp, const Msg &m) {
	AlignedBuf b(m.b.size(), m.off);
	if (m.b.size()) memcpy(b.p, m.b.data(), m.b.size());
	switch (m.kind) {
	case Msg::DATA: io->send_data(b.p, m.n); break;
	case Msg::BLOCK: io->send_block((const block *)b.p, m.n); break;
	case Msg::BOOL: io->send_bool((bool *)b.p, m.n); break;
	case Msg::BOOLA: io->send_bool_aligned((const bool *)b.p, m.n); break;
	default: {
		std::vector<emp::Point> p(m.n);
		for (size_t i = 0; i < m.n; ++i) p[i].from_bin(grp, m.pts[i].data(), m.pts[i].size());
		if (m.n == 1) io->send_pt(p.data()); else io->send_pt(p.data(), m.n);
	}
	}
	REQUIRE(!m.b.size() || !memcmp(b.p, m.b.data(), m.b.size()), "sending %s changed the caller's buffer", m.str().c_str());
	memset(b.p, 0xAA, m.b.size());
}
template <class IO> void recv_msg(IO *io, emp::Group *grp, const Msg &m, size_t off) {
	size_t bytes = m.kind == Msg::BLOCK ? 16 * m.n : m.n;
	if (m.kind == Msg::PT) {
		std::vector<emp::Point> p(m.n);
		if (m.n == 1) io->recv_pt(grp, p.data()); else io->recv_pt(grp, p.data(), m.n);
		for (size_t i = 0; i < m.n; ++i) {
			unsigned char o[80];
			size_t l = p[i].size();
			REQUIRE(l == m.pts[i].size(), "received another point");
			p[i].to_bin(o, l);
			REQUIRE(!memcmp(o, m.pts[i].data(), l), "received another point");
		}
		return;
	}
	AlignedBuf b(bytes, m.kind == Msg::BLOCK ? 16 * (off & 3) : off);
	switch (m.kind) {
	case Msg::DATA: io->recv_data(b.p, m.n); break;
	case Msg::BLOCK: io->recv_block((block *)b.p, m.n); break;
	case Msg::BOOL: io->recv_bool((bool *)b.p, m.n); break;
	default: io->recv_bool_aligned((bool *)b.p, m.n); break;
	}
	if (bytes) {
		size_t i = 0;
		while (i < bytes && b.p[i] == m.b[i]) ++i;
		REQUIRE(i == bytes, "received %s differs from what was sent at offset %zu of %zu (%02x, sent %02x)", m.str().c_str(), i, bytes, b.p[i], m.b[i]);
	}
	REQUIRE(b.intact(), "receiving %s wrote outside the buffer", m.str().c_str());
}
template <class IO> void recv_raw(IO *io, const std::string &want, size_t off) {
	AlignedBuf b(want.size(), off);
	io->recv_data(b.p, want.size());
	size_t i = 0;
	while (i < want.size() && b.p[i] == (unsigned char)want[i]) ++i;
	REQUIRE(i == want.size(), "stream differs from what was sent at offset %zu of a receive of %zu bytes (%02x, sent %02x)", i, want.size(), b.p[i], (unsigned char)want[i]);
	REQUIRE(b.intact(), "receive wrote outside the buffer");
}
// ---- ports: an abstract socket name is the lock ----
#include <sys/socket.h>
#include <sys/un.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <arpa/inet.h>
struct Port {
	int port = -1, lock = -1;
	static bool high_free() {
		static int ok = -1;
		if (ok < 0) {
			int lo = 0, hi = 65535;
			FILE *f = fopen("/proc/sys/net/ipv4/ip_local_port_range", "r");
			if (f) { if (fscanf(f, "%d %d", &lo, &hi) != 2) hi = 65535; fclose(f); }
			ok = hi < 61000;
		}
		return ok == 1;
	}
	static std::atomic<u64> &next() { static std::atomic<u64> k{0}; return k; }
	Port() {
		for (int tries = 0; tries < 3000; ++tries) {
			u64 k = next()++;
			// below and above the range the kernel hands out for outgoing connections
			int at = (int)(pbt::mix64((u64)getpid() * 1000003 + k) % 24000);
			port = at < 20000 || !high_free() ? 10000 + at % 20000 : 61000 + (at - 20000);
			lock = socket(AF_UNIX, SOCK_DGRAM | SOCK_CLOEXEC, 0);
			struct sockaddr_un a;
			memset(&a, 0, sizeof a);
			a.sun_family = AF_UNIX;
			int l = snprintf(a.sun_path + 1, sizeof a.sun_path - 1, "emp-pbt-port-%d", port);
			if (bind(lock, (struct sockaddr *)&a, (socklen_t)(sizeof(a.sun_family) + 1 + l)) == 0) {
				int t = socket(AF_INET, SOCK_STREAM, 0), one = 1;
				setsockopt(t, SOL_SOCKET, SO_REUSEADDR, &one, sizeof one);
				struct sockaddr_in s;
				memset(&s, 0, sizeof s);
				s.sin_family = AF_INET;
				s.sin_addr.s_addr = htonl(INADDR_ANY);
				s.sin_port = htons((uint16_t)port);
				bool ok = bind(t, (struct sockaddr *)&s, sizeof s) == 0 && listen(t, 1) == 0;
				close(t);
				if (ok) return;
			}
			close(lock);
			lock = -1;
		}
		fprintf(stderr, "no free port\n");
		_exit(99);
	}
	~Port() { if (lock >= 0) close(lock); }
	Port(const Port &) = delete;
};
// A raw TCP peer, for faults the library itself would not produce.
inline int raw_listen(int port) {
	int s = socket(AF_INET, SOCK_STREAM, 0), one = 1;
	setsockopt(s, SOL_SOCKET, SO_REUSEADDR, &one, sizeof one);
	struct sockaddr_in a;
	memset(&a, 0, sizeof a);
	a.sin_family = AF_INET;
	a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
	a.sin_port = htons((uint16_t)port);
	if (bind(s, (struct sockaddr *)&a, sizeof a) || listen(s, 2)) { perror("raw_listen"); _exit(99); }
	return s;
}
inline int raw_connect(int port) {
	struct sockaddr_in a;
	memset(&a, 0, sizeof a);
	a.sin_family = AF_INET;
	a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
	a.sin_port = htons((uint16_t)port);
	for (int i = 0; i < 20000; ++i) {
		int s = socket(AF_INET, SOCK_STREAM, 0);
		if (connect(s, (struct sockaddr *)&a, sizeof a) == 0) return s;
		close(s);
		usleep(500);
	}
	return -1;
}
