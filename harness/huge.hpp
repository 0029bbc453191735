#pragma once
// Messages of more than 2^31 bytes: a virtual region that repeats one block of
// real memory, so that neither party needs gigabytes.
#include "chan.hpp"
#include "repeat.hpp"
#include <thread>
struct HugePlan {
	enum { CH = 4 << 20 };
	size_t n, pre, post;
	u64 seed;
	void gen(G &g) {
		static const u64 base[] = {1ULL << 31, (1ULL << 31) - 1, (1ULL << 31) + 32768, 1ULL << 32, (1ULL << 32) + 12345, 3ULL << 30};
		n = base[g.draw(5)] + g.draw(70000);
		pre = g.draw(40000);
		post = 1 + g.draw(40000);
		seed = g.draw(0xffffffff);
		g.note("%zu bytes, then one message of %zu, then %zu", pre, n, post);
		g.nontrivial();
		g.label(n >> 32 ? "over 4 GB" : "over 2 GB");
	}
	unsigned char at(size_t i) const { return (unsigned char)(pbt::mix64(seed + i / 8) >> (8 * (i % 8))); }
	std::vector<unsigned char> part(int k) const {
		std::vector<unsigned char> v(k == 0 ? pre : post);
		for (size_t i = 0; i < v.size(); ++i) v[i] = (unsigned char)(at(i) + k + 1);
		return v;
	}
	std::vector<unsigned char> chunk() const { std::vector<unsigned char> v(CH); for (size_t i = 0; i < CH; ++i) v[i] = at(i); return v; }
	template <class IO> void send(IO *io) const {
		auto a = part(0), b = part(1), c = chunk();
		Repeat r(n, CH);
		memcpy(r.p, c.data(), CH);
		io->send_data(a.data(), a.size());
		io->send_data(r.p, n);
		io->send_data(b.data(), b.size());
		REQUIRE(io->counter == n + pre + post, "the counter is %llu after %zu bytes", (unsigned long long)io->counter, n + pre + post);
	}
	template <class IO> void recv(IO *io) const {
		auto a = part(0), b = part(1), c = chunk();
		std::vector<unsigned char> x(a.size()), y(b.size());
		io->recv_data(x.data(), x.size());
		REQUIRE(x == a, "the message before the large one differs");
		{
			Repeat r(n, CH);
			memset(r.p, 0x5a, CH);
			io->recv_data(r.p, n);
			// what was written last to each place
			size_t k = n % CH;
			REQUIRE(!memcmp(r.p, c.data(), k) && !memcmp(r.p + k, c.data() + k, CH - k), "the message of %zu bytes differs", n);
		}
		io->recv_data(y.data(), y.size());
		REQUIRE(y == b, "the message after one of %zu bytes differs", n);
	}
};
