// Objects give back what they took: memory, descriptors, threads.
#include "acts.hpp"
#include <dirent.h>
#include <malloc.h>
#include <sys/syscall.h>
// every allocation of the process is counted
static std::atomic<int64_t> live_n, live_b;
extern "C" {
void *__libc_malloc(size_t);
void *__libc_calloc(size_t, size_t);
void *__libc_realloc(void *, size_t);
void *__libc_memalign(size_t, size_t);
void __libc_free(void *);
static void *took(void *p) { if (p) { live_n++; live_b += (int64_t)malloc_usable_size(p); } return p; }
static void gave(void *p) { if (p) { live_n--; live_b -= (int64_t)malloc_usable_size(p); } }
void *malloc(size_t n) { return took(__libc_malloc(n)); }
void *calloc(size_t a, size_t b) { return took(__libc_calloc(a, b)); }
void *realloc(void *p, size_t n) { gave(p); return took(__libc_realloc(p, n)); }
void *memalign(size_t a, size_t n) { return took(__libc_memalign(a, n)); }
void *aligned_alloc(size_t a, size_t n) { return took(__libc_memalign(a, n)); }
int posix_memalign(void **o, size_t a, size_t n) { *o = took(__libc_memalign(a, n)); return *o ? 0 : 12; }
void free(void *p) { gave(p); __libc_free(p); }
}
// closing what is not open closes, with bad luck, what someone else opened
static std::atomic<int> bad_close;
extern "C" int close(int fd) {
	int r = (int)syscall(SYS_close, fd);
	if (r < 0 && errno == EBADF && fd >= 0) bad_close++;
	return r;
}
static int entries(const char *d) {
	DIR *p = opendir(d);
	if (!p) return 0;
	int n = 0;
	while (readdir(p)) ++n;
	closedir(p);
	return n;
}
struct Held { int64_t n, b; int fd, th; };
static Held held(int threads) {
	Held h;
	for (int i = 0; i < 400 && entries("/proc/self/task") > threads; ++i) usleep(1000);  // a joined thread may still be listed
	h.th = entries("/proc/self/task");
	h.fd = entries("/proc/self/fd");
	h.n = live_n; h.b = live_b;
	return h;
}
SUBCHECK(histories, 3000, 60000, "up to 5 objects of every kind the library has, created, used in a generated way and destroyed, five times over: live allocations, descriptors and threads of the process do not grow from one repetition to the next; non-trivial: at least 2 different kinds", 30000) {
	std::vector<Act> v;
	std::set<int> kinds;
	size_t n = g.size(1, 5);
	for (size_t i = 0; i < n; ++i) {
		v.push_back(gen_act(g));
		kinds.insert(v.back().kind);
	}
	g.nontrivial(kinds.size() >= 2);
	int threads = entries("/proc/self/task");
	bad_close = 0;
	const int R = 5;
	Held h[R];
	// which object it is: the last measure of each is what counts
	for (int r = 0; r < R; ++r) { for (auto &a : v) act(a); h[r] = held(threads); }
	REQUIRE(bad_close == 0, "%d descriptors closed that were not open (any more)", (int)bad_close);
	auto grows = [&](std::function<int64_t(const Held &)> f) { for (int r = 1; r < R; ++r) if (f(h[r]) <= f(h[r - 1])) return false; return true; };
	REQUIRE(!grows([](const Held &x) { return x.n; }), "%lld allocations more after each repetition (%lld, %lld, %lld, %lld live)", (long long)(h[4].n - h[3].n), (long long)h[1].n, (long long)h[2].n, (long long)h[3].n, (long long)h[4].n);
	REQUIRE(!grows([](const Held &x) { return x.b; }), "%lld bytes more after each repetition (%lld, %lld, %lld, %lld live)", (long long)(h[4].b - h[3].b), (long long)h[1].b, (long long)h[2].b, (long long)h[3].b, (long long)h[4].b);
	REQUIRE(!grows([](const Held &x) { return (int64_t)x.fd; }), "descriptors %d, %d, %d, %d, %d", h[0].fd, h[1].fd, h[2].fd, h[3].fd, h[4].fd);
	REQUIRE(!grows([](const Held &x) { return (int64_t)x.th; }), "threads %d, %d, %d, %d, %d", h[0].th, h[1].th, h[2].th, h[3].th, h[4].th);
}
// Copies, of the kinds of object that can be copied: made, assigned over one
// another and destroyed in any order; each is then used once more. use()
// returns what the object would give next; a copy must give the same.
struct CopyStep { int what; size_t k, j; };
template <class T> static void copies(const std::vector<CopyStep> &g, std::function<T *()> make, std::function<u64(T &)> use, std::true_type) {
	std::vector<std::unique_ptr<T>> o;
	o.emplace_back(make());
	for (auto &s : g) {
		size_t k = s.k % o.size(), j = s.j % o.size();
		if (s.what < 2) { if (o.size() < 6) o.emplace_back(new T(*o[k])); }
		else if (s.what == 2) *o[j] = *o[k];
		else if (o.size() > 1) o.erase(o.begin() + k);
	}
	u64 want = 0;
	for (size_t i = 0; i < o.size(); ++i) {
		u64 v = use(*o[i]);
		if (i == 0) want = v;
		REQUIRE(v == want, "copy %zu of %zu does not behave like the others", i, o.size());
	}
}
template <class T> static void copies(const std::vector<CopyStep> &, std::function<T *()>, std::function<u64(T &)>, std::false_type) {}
template <class T> static bool try_copies(const std::vector<CopyStep> &g, std::function<T *()> make, std::function<u64(T &)> use) {
	typedef std::integral_constant<bool, std::is_copy_constructible<T>::value && std::is_copy_assignable<T>::value> C;
	copies<T>(g, make, use, C());
	return C::value;
}
static void copy_history(const std::vector<CopyStep> &g, int kind, size_t n, u64 seed) {
	Plain pl;
	std::vector<unsigned char> b(n + 1, (unsigned char)seed);
	switch (kind) {
	case 0: try_copies<emp::Hash>(g, [&] { auto h = new emp::Hash; h->put(b.data(), n); return h; }, [](emp::Hash &h) { u64 d[4]; h.put("x", 1); h.digest(d); return d[0]; }); break;
	case 1: try_copies<emp::MemIO>(g, [&] { auto h = new emp::MemIO(64); h->send_data(b.data(), n); h->send_data(&seed, 8); return h; }, [&](emp::MemIO &h) { u64 v; h.send_data(b.data(), n); h.recv_data(b.data(), n); h.recv_data(&v, 8); return v; }); break;
	case 2: try_copies<emp::Group>(g, [] { return new emp::Group; }, [&](emp::Group &h) { emp::BigInt s; s.from_bin((unsigned char *)&seed, 8); h.resize_scratch(300 + n % 1000); unsigned char o[65]; h.mul_gen(s).to_bin(o, 65); u64 v; memcpy(&v, o + 1, 8); return v; }); break;
	case 3: {
		TmpFile t;
		try_copies<emp::FileIO>(g, [&] { auto h = new emp::FileIO(t.c(), false); h->send_data(&seed, 8); h->reset(); return h; }, [](emp::FileIO &h) { u64 v; h.recv_data(&v, 8); return v; });
		break;
	}
	case 4: { emp::Group gr; try_copies<emp::Point>(g, [&] { return new emp::Point(gr.get_generator()); }, [&](emp::Point &p) { emp::Point q = p.add(p); unsigned char o[65]; q.to_bin(o, 65); u64 v; memcpy(&v, o + 1, 8); return v; }); break; }
	case 5: try_copies<emp::BigInt>(g, [&] { auto x = new emp::BigInt; x->from_bin(b.data(), (int)n); return x; }, [](emp::BigInt &x) { emp::BigInt y = x.add(x); return (u64)y.size(); }); break;
	case 6: try_copies<emp::Integer>(g, [&] { return new emp::Integer((int)(1 + n % 300), (int64_t)seed, emp::ALICE); }, [](emp::Integer &x) { return (x + x).reveal<u64>(); }); break;
	case 7: try_copies<emp::PRG>(g, [&] { block s = mkblk(seed, n); return new emp::PRG(&s); }, [](emp::PRG &x) { u64 v; x.random_data(&v, 8); return v; }); break;
	case 8: try_copies<emp::BristolFashion>(g, [&] {
			std::string t = "2 4\n1 2\n1 1\n\n2 1 0 1 2 AND\n1 1 2 3 INV\n";
			FILE *m = fmemopen((void *)t.data(), t.size(), "r");
			auto c = new emp::BristolFashion(m);
			fclose(m);
			return c;
		}, [&](emp::BristolFashion &c) { Bit in[2] = {Bit(seed & 1, ALICE), Bit(seed & 2, BOB)}, o; c.compute(&o, in); return (u64)o.reveal<bool>(); }); break;
	default: try_copies<emp::MITCCRH<8>>(g, [&] { auto m = new emp::MITCCRH<8>; m->setS(mkblk(seed, n)); return m; }, [](emp::MITCCRH<8> &m) { block x[2] = {mkblk(1, 2), mkblk(3, 4)}; m.template hash<2, 1>(x); return blo(x[0]); });
	}
}
SUBCHECK(copies, 20000, 300000, "one kind of object (hash, memory or file channel, group, point, big integer, integer, generator, circuit, multi-instance hash), as far as it can be copied at all: copied, assigned and destroyed in a generated order, then every survivor used: all behave alike and, repeated, nothing is held longer or freed twice; non-trivial: at least 2 steps", 30000) {
	int kind = (int)g.draw(9);
	size_t n = g.size(0, 20000, {64, 8191, 8192});
	u64 seed = g.draw(~0ULL);
	static const char *nm[] = {"hash", "memory channel", "group", "file channel", "point", "big integer", "integer", "generator", "circuit", "multi-instance hash"};
	g.note("%s, %zu bytes: ", nm[kind], n);
	std::vector<CopyStep> st(g.size(1, 8));
	for (auto &s : st) {
		s = {(int)g.draw(3), (size_t)g.draw(5), (size_t)g.draw(5)};
		g.note("%s %zu %zu, ", (const char *[]){"copy", "copy", "assign", "destroy"}[s.what], s.k, s.j);
	}
	g.nontrivial(st.size() > 1);
	bad_close = 0;
	Held h[5];
	int threads = entries("/proc/self/task");
	for (int r = 0; r < 5; ++r) { copy_history(st, kind, n, seed); h[r] = held(threads); }
	REQUIRE(bad_close == 0, "%d descriptors closed that were not open (any more)", (int)bad_close);
	auto grows = [&](std::function<int64_t(const Held &)> f) { for (int r = 1; r < 5; ++r) if (f(h[r]) <= f(h[r - 1])) return false; return true; };
	REQUIRE(!grows([](const Held &x) { return x.n; }), "%lld allocations more after each repetition", (long long)(h[4].n - h[3].n));
	REQUIRE(!grows([](const Held &x) { return (int64_t)x.fd; }), "descriptors %d, %d, %d, %d, %d", h[0].fd, h[1].fd, h[2].fd, h[3].fd, h[4].fd);
}
PBT_MAIN
