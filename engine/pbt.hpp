// Property-based testing engine for the emp-tool harnesses.
//
// Every random decision of a case is a "choice": an integer in [0, max]. A case
// is a pure function of its choice sequence, so a failing case is shrunk by
// editing the sequence (deleting, zeroing and lowering choices) and stored as
// the sequence; choice 0 is always the simplest alternative.
//
// Cases run in forked workers. A case fails when a CHECK fails, when the code
// under test dies (signal, sanitizer report, unexpected exit) or when it hangs
// (only believed when it hangs three times out of three).
#pragma once
#include <algorithm>
#include <atomic>
#include <chrono>
#include <cinttypes>
#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <vector>
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <unistd.h>

namespace pbt {

typedef uint64_t u64;

inline u64 mix64(u64 z) {
	z += 0x9E3779B97F4A7C15ULL;
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
	z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
	return z ^ (z >> 31);
}
struct Rng {
	u64 s;
	explicit Rng(u64 seed = 0) : s(mix64(seed ^ 0xA5A5A5A55A5A5A5AULL)) {}
	u64 next() { s += 0x9E3779B97F4A7C15ULL; return mix64(s); }
	u64 below(u64 n) {  // [0,n), n==0 means 2^64
		return n == 0 ? next() : (u64)(((unsigned __int128)next() * n) >> 64);
	}
	u64 upto(u64 max) { return below(max + 1); }
};
inline u64 hash_str(const char *s) {
	u64 h = 1469598103934665603ULL;
	for (; *s; ++s) h = (h ^ (unsigned char)*s) * 1099511628211ULL;
	return h;
}

inline std::string fmtv(const char *f, va_list ap) {
	char buf[3000];
	vsnprintf(buf, sizeof buf, f, ap);
	return buf;
}
#ifdef __GNUC__
__attribute__((format(printf, 1, 2)))
#endif
inline std::string fmt(const char *f, ...) {
	va_list ap;
	va_start(ap, f);
	std::string s = fmtv(f, ap);
	va_end(ap);
	return s;
}
inline std::string hex(const void *p, size_t n, size_t lim = 48) {
	std::string s;
	char b[4];
	for (size_t i = 0; i < n && i < lim; ++i) {
		snprintf(b, 4, "%02x", ((const unsigned char *)p)[i]);
		s += b;
	}
	if (n > lim) s += "..";
	return s;
}

struct Failure {
	std::string msg;
};
struct Discard {};

static const size_t MAXCH = 1 << 17;
static const size_t NHASH = 1 << 21;

struct Slot {
	std::atomic<u64> cur;       // current case index + 1, 0 = idle
	std::atomic<u64> started;   // ms, 0 = not running
	std::atomic<u64> evals, nontriv, distinct, discards;
	std::atomic<int> state;     // 0 running, 1 done, 2 failed
	std::atomic<u64> nrec;
	char msg[3000];
	char note[6000];
	char sample[3][3000];
	std::atomic<int> nsample;
	u64 rec[MAXCH];
};

inline u64 now_ms() {
	struct timespec ts;
	clock_gettime(CLOCK_MONOTONIC, &ts);
	return (u64)ts.tv_sec * 1000 + ts.tv_nsec / 1000000;
}

inline std::vector<u64> &dict() {
	static std::vector<u64> d;
	return d;
}

class G {
public:
	bool replay = false;
	const u64 *pre = nullptr;
	size_t npre = 0, pos = 0;
	Rng rng;
	u64 *rec = nullptr;
	size_t cap = 0, nrec = 0;
	char *pubnote = nullptr;  // kept current, for cases that never return
	std::atomic<u64> *pubn = nullptr;
	std::string notes;
	bool nontriv = false;
	std::map<std::string, u64> *labels = nullptr;
	std::set<std::string> mylabels;
	u64 h = 1469598103934665603ULL;
#ifdef PBT_FUZZ
	const uint8_t *fd = nullptr;
	size_t fn = 0;
#endif

	template <class F>
	u64 choice(u64 max, F sampler) {
		u64 v;
#ifdef PBT_FUZZ
		if (fd) {
			int nb = 0;
			for (u64 m = max; m; m >>= 8) ++nb;
			v = 0;
			for (int i = 0; i < nb; ++i) {
				uint8_t b = 0;
				if (pos < fn) b = fd[pos++];
				v |= (u64)b << (8 * i);
			}
			if (max != ~0ULL) v %= (max + 1);
		} else
#endif
		if (replay) {
			v = pos < npre ? pre[pos] : 0;
			++pos;
			if (v > max) v = max;
		} else
			v = sampler(rng);
		if (nrec >= cap) throw Discard();
		rec[nrec++] = v;
		if (pubn) pubn->store(nrec, std::memory_order_relaxed);
		h = (h ^ v) * 1099511628211ULL;
		h ^= h >> 29;
		return v;
	}
	// uniform in [0,max]
	u64 draw(u64 max) {
		return choice(max, [max](Rng &r) { return r.upto(max); });
	}
	// every value in turn over consecutive cases (for small finite spaces)
	u64 index = 0;
	u64 each(u64 max) {
		u64 v = index % (max + 1);
		index /= (max + 1);
		return choice(max, [v](Rng &) { return v; });
	}
	u64 range(u64 lo, u64 hi) { return lo + draw(hi - lo); }
	int64_t irange(int64_t lo, int64_t hi) { return lo + (int64_t)draw((u64)(hi - lo)); }
	bool coin() { return draw(1) != 0; }
	// true with probability num/den, shrinks to false
	bool chance(unsigned num, unsigned den) {
		return choice(1, [=](Rng &r) { return (u64)(r.below(den) < num); }) != 0;
	}
	// index weighted by w
	size_t weighted(std::initializer_list<unsigned> w) {
		std::vector<unsigned> v(w);
		return (size_t)choice(v.size() - 1, [&v](Rng &r) {
			u64 t = 0;
			for (unsigned x : v) t += x;
			u64 k = r.below(t);
			for (size_t i = 0; i < v.size(); ++i) {
				if (k < v[i]) return (u64)i;
				k -= v[i];
			}
			return (u64)0;
		});
	}
	template <class T>
	const T &of(const std::vector<T> &v) { return v[draw(v.size() - 1)]; }
	template <class T>
	T of(std::initializer_list<T> l) { return *(l.begin() + draw(l.size() - 1)); }

	// A size in [lo,hi], biased to small values, to powers of two and their
	// neighbours, to the hints and to constants that occur in the sources.
	u64 size(u64 lo, u64 hi, std::initializer_list<u64> hints = {}) {
		std::vector<u64> hv(hints);
		u64 span = hi - lo;
		return lo + choice(span, [=](Rng &r) {
			for (int tries = 0; tries < 40; ++tries) {
				u64 v, k = r.below(100);
				if (k < 30) v = lo + r.upto(std::min<u64>(span, 24));
				else if (k < 45) {
					v = (1ULL << r.below(40)) + r.below(5) - 2;
				} else if (k < 60 && !hv.empty()) {
					v = hv[r.below(hv.size())] * (1 + (r.below(4) == 0 ? r.below(4) : 0)) + r.below(5) - 2;
				} else if (k < 72 && !dict().empty()) {
					v = dict()[r.below(dict().size())] + r.below(3) - 1;
				} else if (k < 86) {  // log-uniform
					int b = 0;
					while (b < 63 && (span >> b)) ++b;
					u64 m = r.below(b + 1);
					v = lo + (m ? r.upto((1ULL << m) - 1) : 0);
				} else
					v = lo + r.upto(span);
				if (v >= lo && v <= hi) return v - lo;
			}
			return r.upto(span);
		});
	}
	// A 64-bit value biased to patterns that arithmetic code gets wrong.
	u64 u64v() {
		return choice(~0ULL, [](Rng &r) {
			switch (r.below(16)) {
			case 0: return (u64)0;
			case 1: return ~(u64)0;
			case 2: return (u64)1 << r.below(64);
			case 3: return ((u64)1 << r.below(64)) - 1;
			case 4: return ~((u64)1 << r.below(64));
			case 5: return r.below(16);
			case 6: return (u64)0 - r.below(16);
			case 7: return (u64)(int64_t)INT64_MIN + r.below(3);
			case 8: return r.next() & r.next() & r.next();
			case 9: return r.next() | r.next() | r.next();
			case 10:
				if (!dict().empty()) return dict()[r.below(dict().size())] + r.below(3) - 1;
				return r.next();
			case 11: return r.next() >> r.below(64);
			case 12: return ((u64)1 << 32) + r.below(5) - 2;
			default: return r.next();
			}
		});
	}
	u64 bits(unsigned n) {
		u64 v = u64v();
		return n >= 64 ? v : v & ((1ULL << n) - 1);
	}
	// n bytes from one or two choices: zeros, a pattern, or seeded random.
	void bytes(void *p, size_t n) {
		unsigned char *q = (unsigned char *)p;
		u64 kind = weighted({1, 1, 1, 1, 9});
		if (kind == 0) memset(q, 0, n);
		else if (kind == 1) for (size_t i = 0; i < n; ++i) q[i] = (unsigned char)(i * 7 + 1 + (i >> 8));
		else if (kind == 2) memset(q, 0xff, n);
		else {
			u64 s = choice(0xffffffffULL, [](Rng &r) { return 1 + r.below(0xffffffffULL); });
			Rng r(s);
			size_t i = 0;
			for (; i + 8 <= n; i += 8) {
				u64 v = r.next();
				if (kind == 3) v &= r.next() & r.next();
				memcpy(q + i, &v, 8);
			}
			u64 v = r.next();
			memcpy(q + i, &v, n - i);
		}
	}
	std::vector<unsigned char> bytes(size_t n) {
		std::vector<unsigned char> v(n);
		if (n) bytes(v.data(), n);
		return v;
	}
	void bools(bool *p, size_t n) {
		std::vector<unsigned char> v(n);
		if (n) bytes(v.data(), n);
		for (size_t i = 0; i < n; ++i) p[i] = (v[i] >> (i % 8)) & 1;
	}
	__attribute__((format(printf, 2, 3))) void note(const char *f, ...) {
		if (notes.size() > 5000) return;
		va_list ap;
		va_start(ap, f);
		std::string t = fmtv(f, ap);
		va_end(ap);
		if (pubnote && notes.size() + t.size() < 5900) memcpy(pubnote + notes.size(), t.c_str(), t.size() + 1);
		notes += t;
	}
	void label(const std::string &s) {
		if (labels && mylabels.insert(s).second) (*labels)[s]++;
	}
	void nontrivial(bool c = true) { if (c) nontriv = true; }
	[[noreturn]] void fail(const std::string &s) { throw Failure{s}; }
};

#define PBT_CHECK(cond, ...)                                                  \
	do {                                                                      \
		if (!(cond)) throw pbt::Failure{pbt::fmt(__VA_ARGS__) + " [" #cond "]"}; \
	} while (0)

typedef void (*Body)(G &);
struct Sub {
	const char *name;
	Body body;
	u64 quick, thorough;
	const char *rule;
	unsigned hang_ms;
	unsigned workers;
	bool fixed;   // the number of cases is the size of a finite space: scaled down (slow builds), never up
};
inline std::vector<Sub> &subs() {
	static std::vector<Sub> s;
	return s;
}
struct Reg {
	Reg(const char *n, Body b, u64 q, u64 t, const char *rule, unsigned hang_ms = 40000, unsigned workers = 0, bool fixed = false) {
		subs().push_back(Sub{n, b, q, t, rule, hang_ms, workers, fixed});
	}
};

// ---- running code that may exit, die or hang inside a case ----
struct ChildResult {
	bool timeout = false;
	int sig = 0;
	int code = -1;
	std::string out;   // what the child wrote to the fd passed to it
	std::string err;   // captured stderr (prefix)
};
inline ChildResult run_child(const std::function<void(int)> &fn, unsigned timeout_ms = 20000) {
	int p[2], e[2];
	if (pipe(p) || pipe(e)) { perror("pipe"); _exit(99); }
	fflush(stdout); fflush(stderr);
	pid_t pid = fork();
	if (pid < 0) { perror("fork"); _exit(99); }
	if (pid == 0) {
		prctl(PR_SET_PDEATHSIG, SIGKILL);
		close(p[0]); close(e[0]);
		dup2(e[1], 2);
		close(e[1]);
		fn(p[1]);
		_exit(0);
	}
	close(p[1]); close(e[1]);
	ChildResult r;
	u64 t0 = now_ms();
	bool o1 = true, o2 = true;
	while (o1 || o2) {
		struct pollfd f[2] = {{o1 ? p[0] : -1, POLLIN, 0}, {o2 ? e[0] : -1, POLLIN, 0}};
		int64_t left = (int64_t)timeout_ms - (int64_t)(now_ms() - t0);
		if (left <= 0) { r.timeout = true; kill(pid, SIGKILL); break; }
		int n = poll(f, 2, (int)std::min<int64_t>(left, 1000));
		if (n <= 0) continue;
		char b[65536];
		if (o1 && f[0].revents) { ssize_t k = read(p[0], b, sizeof b); if (k > 0) r.out.append(b, k); else o1 = false; }
		if (o2 && f[1].revents) { ssize_t k = read(e[0], b, sizeof b); if (k > 0) { if (r.err.size() < 65536) r.err.append(b, k); } else o2 = false; }
	}
	close(p[0]); close(e[0]);
	int st = 0;
	// pipes closed: the child is about to end (or was killed)
	u64 t1 = now_ms();
	for (;;) {
		pid_t w = waitpid(pid, &st, WNOHANG);
		if (w == pid) break;
		if (now_ms() - t1 > timeout_ms) { kill(pid, SIGKILL); r.timeout = true; waitpid(pid, &st, 0); break; }
		usleep(200);
	}
	if (WIFSIGNALED(st)) r.sig = WTERMSIG(st);
	else if (WIFEXITED(st)) r.code = WEXITSTATUS(st);
	return r;
}
inline void wr_all(int fd, const void *p, size_t n) {
	const char *q = (const char *)p;
	while (n) {
		ssize_t k = write(fd, q, n);
		if (k <= 0) _exit(98);
		q += k; n -= k;
	}
}

// Harness hooks, defined per harness when needed.
inline std::function<void(u64)> &per_case_hook() {
	static std::function<void(u64)> f;
	return f;
}

// ---- engine internals ----
enum Outcome { OK = 0, FAIL = 1, HANG = 2, DISCARD = 3 };
struct RunRes {
	Outcome o = OK;
	std::string msg, note;
	std::vector<u64> used;
};
inline std::string errfile() {
	static std::string s = "/tmp/pbt_err_" + std::to_string(getpid());
	return s;
}
inline void child_io() {
	int fd = open("/dev/null", O_WRONLY);
	dup2(fd, 1);
	close(fd);
	fd = open(errfile().c_str(), O_WRONLY | O_CREAT | O_APPEND, 0600);
	dup2(fd, 2);
	close(fd);
}
inline std::string err_tail() {
	FILE *f = fopen(errfile().c_str(), "r");
	if (!f) return "";
	std::string s;
	char b[4096];
	size_t k;
	while ((k = fread(b, 1, sizeof b, f)) > 0 && s.size() < 200000) s.append(b, k);
	fclose(f);
	size_t p = s.find("ERROR: AddressSanitizer");
	if (p == std::string::npos) p = s.find("runtime error");
	if (p == std::string::npos) p = s.find("WARNING: ThreadSanitizer");
	if (p == std::string::npos) p = s.size() > 600 ? s.size() - 600 : 0;
	return s.substr(p, 600);
}
inline std::string describe_status(int st) {
	if (WIFSIGNALED(st)) return fmt("code under test died with signal %d (%s)", WTERMSIG(st), strsignal(WTERMSIG(st)));
	if (WIFEXITED(st) && WEXITSTATUS(st) == 76) return "sanitizer report";
	return fmt("code under test exited unexpectedly with status %d", WIFEXITED(st) ? WEXITSTATUS(st) : -1);
}
inline Slot *new_slot() {
	Slot *s = (Slot *)mmap(nullptr, sizeof(Slot), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	if (s == MAP_FAILED) { perror("mmap"); _exit(99); }
	return s;
}
inline RunRes run_choices(const Sub &sub, const std::vector<u64> &ch, Slot *slot, unsigned hang_ms) {
	RunRes r;
	slot->state = 0;
	slot->nrec = 0;
	slot->msg[0] = slot->note[0] = 0;
	unlink(errfile().c_str());
	fflush(stdout);
	pid_t pid = fork();
	if (pid < 0) { perror("fork"); _exit(99); }
	if (pid == 0) {
		setpgid(0, 0);
		prctl(PR_SET_PDEATHSIG, SIGKILL);
		child_io();
		G g;
		g.replay = true;
		g.pre = ch.data();
		g.npre = ch.size();
		g.rec = slot->rec;
		g.cap = MAXCH;
		g.pubn = &slot->nrec;
		g.pubnote = slot->note;
		int code = 1;
		if (per_case_hook()) per_case_hook()(hash_str(sub.name));
		try {
			sub.body(g);
		} catch (Failure &f) {
			snprintf(slot->msg, sizeof slot->msg, "%s", f.msg.c_str());
			code = 2;
		} catch (Discard &) {
			code = 3;
		} catch (std::exception &e) {
			snprintf(slot->msg, sizeof slot->msg, "exception: %s", e.what());
			code = 2;
		} catch (...) {
			snprintf(slot->msg, sizeof slot->msg, "unknown exception");
			code = 2;
		}
		snprintf(slot->note, sizeof slot->note, "%s", g.notes.c_str());
		slot->state = code;
		_exit(0);
	}
	u64 t0 = now_ms();
	int st = 0;
	bool hang = false;
	useconds_t nap = 100;
	for (;;) {
		pid_t w = waitpid(pid, &st, WNOHANG);
		if (w == pid) break;
		if (now_ms() - t0 > hang_ms) {
			hang = true;
			kill(-pid, SIGKILL);
			kill(pid, SIGKILL);
			waitpid(pid, &st, 0);
			break;
		}
		usleep(nap);
		if (nap < 5000) nap *= 2;
	}
	kill(-pid, SIGKILL);
	r.used.assign(slot->rec, slot->rec + slot->nrec.load());
	r.note = slot->note;
	if (hang) { r.o = HANG; r.msg = fmt("no result within %u ms", hang_ms); }
	else if (slot->state == 1) r.o = OK;
	else if (slot->state == 2) { r.o = FAIL; r.msg = slot->msg; }
	else if (slot->state == 3) r.o = DISCARD;
	else { r.o = FAIL; r.msg = describe_status(st) + ": " + err_tail(); }
	return r;
}

struct SubResult {
	std::string name, rule;
	u64 evals = 0, nontriv = 0, distinct = 0, discards = 0, planned = 0;
	std::map<std::string, u64> labels;
	std::vector<std::string> samples;
	double wall = 0;
	bool violated = false, flaky = false, truncated = false;
	std::string msg, note;
	std::vector<u64> choices;
	u64 case_index = 0;
	u64 shrink_execs = 0;
	bool first_fail = false;  // the unreproduced failure is a wrong result, a crash or a hang, not a harness problem
};

inline std::string jstr(const std::string &s) {
	std::string o = "\"";
	char b[8];
	for (unsigned char c : s) {
		if (c == '"' || c == '\\') { o += '\\'; o += c; }
		else if (c == '\n') o += "\\n";
		else if (c < 32 || c > 126) { snprintf(b, 8, "\\u%04x", c); o += b; }
		else o += c;
	}
	return o + "\"";
}

inline void shrink(const Sub &sub, std::vector<u64> &best, RunRes &bestr, Slot *slot, SubResult &sr, u64 budget_ms) {
	u64 t0 = now_ms();
	u64 execs = 0;
	unsigned hang = sub.hang_ms;
	auto still = [&](const std::vector<u64> &c) {
		if (now_ms() - t0 > budget_ms || execs > 3000) return false;
		++execs;
		RunRes r = run_choices(sub, c, slot, std::min(hang, 15000u));
		if (r.o != FAIL) return false;
		if (r.used.size() > best.size()) return false;
		std::vector<u64> nb = r.used.size() <= c.size() ? r.used : c;
		if (nb.size() > best.size() || (nb.size() == best.size() && !(nb < best))) return false;
		best = nb;
		bestr = r;
		return true;
	};
	bool progress = true;
	while (progress && now_ms() - t0 < budget_ms && execs <= 3000) {
		progress = false;
		// delete chunks
		for (size_t k = std::min<size_t>(best.size(), 256); k >= 1; k /= 2) {
			for (size_t i = best.size(); i-- > 0;) {
				if (i + k > best.size()) continue;
				std::vector<u64> c(best.begin(), best.begin() + i);
				c.insert(c.end(), best.begin() + i + k, best.end());
				if (still(c)) progress = true;
				else if (i > 0) {  // lower a preceding length by one and delete
					std::vector<u64> d(c);
					for (size_t b = 1; b <= 2 && i >= b; ++b)
						if (best.size() > i - b && d[i - b] > 0) {
							d[i - b]--;
							if (still(d)) { progress = true; break; }
							d[i - b]++;
						}
				}
				if (now_ms() - t0 > budget_ms) break;
				if (k > 1 && i >= k / 2) i -= k / 2;
			}
		}
		// zero chunks, then lower single choices by binary search
		for (size_t k = std::min<size_t>(best.size(), 16); k >= 1; k /= 2)
			for (size_t i = 0; i + k <= best.size(); i += k) {
				std::vector<u64> c(best);
				bool any = false;
				for (size_t j = i; j < i + k; ++j) { any |= c[j] != 0; c[j] = 0; }
				if (any && still(c)) progress = true;
			}
		for (size_t i = 0; i < best.size(); ++i) {
			u64 lo = 0;
			while (i < best.size() && lo < best[i]) {
				u64 mid = lo + (best[i] - lo) / 2;
				std::vector<u64> c(best);
				c[i] = mid;
				if (still(c)) progress = true;
				else {
					if (mid == lo) break;
					lo = mid;
				}
				if (now_ms() - t0 > budget_ms) break;
			}
		}
	}
	sr.shrink_execs = execs;
}

inline void run_sub_once(const Sub &sub, u64 seed, u64 count, unsigned nworkers, u64 deadline_ms, SubResult &sr,
                    const std::string &tmpdir) {
	u64 t0 = now_ms();
	sr.name = sub.name;
	sr.rule = sub.rule;
	sr.planned = count;
	if (sub.workers) nworkers = std::min(nworkers, sub.workers);
	if (count < nworkers) nworkers = count ? count : 1;
	std::vector<Slot *> slots;
	for (unsigned i = 0; i < nworkers; ++i) slots.push_back(new_slot());
	std::atomic<u64> *hs = (std::atomic<u64> *)mmap(nullptr, NHASH * 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	std::atomic<int> *stop = (std::atomic<int> *)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	u64 base = mix64(seed * 0x9E3779B97F4A7C15ULL ^ hash_str(sub.name));
	unlink(errfile().c_str());
	fflush(stdout);
	std::vector<pid_t> pids(nworkers);
	for (unsigned w = 0; w < nworkers; ++w) {
		pid_t pid = fork();
		if (pid < 0) { perror("fork"); _exit(99); }
		if (pid == 0) {
			setpgid(0, 0);
			prctl(PR_SET_PDEATHSIG, SIGKILL);
			child_io();
			Slot *s = slots[w];
			std::map<std::string, u64> labels;
			auto dump = [&]() {
				FILE *f = fopen((tmpdir + fmt("/lab_%u", w)).c_str(), "w");
				if (f) {
					for (auto &kv : labels) fprintf(f, "%" PRIu64 " %s\n", kv.second, kv.first.c_str());
					fclose(f);
				}
			};
			for (u64 i = w; i < count; i += nworkers) {
				if (stop->load() || now_ms() > deadline_ms) break;
				G g;
				g.rng = Rng(mix64(base + i));
				g.index = i;
				g.rec = s->rec;
				g.cap = MAXCH;
				g.pubn = &s->nrec;
				g.labels = &labels;
				s->nrec = 0;
				s->cur = i + 1;
				s->started = now_ms();
				if (per_case_hook()) per_case_hook()(hash_str(sub.name));
				bool bad = false;
				std::string msg;
				try {
					sub.body(g);
				} catch (Failure &f) {
					bad = true;
					msg = f.msg;
				} catch (Discard &) {
					s->discards++;
					s->started = 0;
					continue;
				} catch (std::exception &e) {
					bad = true;
					msg = std::string("exception: ") + e.what();
				} catch (...) {
					bad = true;
					msg = "unknown exception";
				}
				s->started = 0;
				if (bad) {
					snprintf(s->msg, sizeof s->msg, "%s", msg.c_str());
					snprintf(s->note, sizeof s->note, "%s", g.notes.c_str());
					s->state = 2;
					stop->store(1);
					_exit(0);
				}
				s->evals++;
				if (g.nontriv) {
					s->nontriv++;
					u64 hv = g.h | 1;
					size_t p = hv % NHASH;
					for (int t = 0; t < 64; ++t, p = (p + 1) % NHASH) {
						u64 z = 0;
						if (hs[p].compare_exchange_strong(z, hv)) { s->distinct++; break; }
						if (z == hv) break;
					}
					int ns = s->nsample.load();
					if (ns < 3 && (ns == 0 || i > count / 3 * ns)) {
						snprintf(s->sample[ns], sizeof s->sample[ns], "%s", g.notes.c_str());
						s->nsample = ns + 1;
					}
				}
			}
			dump();
			s->state = 1;
			_exit(0);
		}
		pids[w] = pid;
	}
	std::vector<int> live(nworkers, 1);
	unsigned nlive = nworkers;
	int bad = -1;
	RunRes first;
	bool infra = false;  // the harness could not get a process, a pipe or a port
	u64 stop_at = 0;
	while (nlive) {
		bool any = false;
		for (unsigned w = 0; w < nworkers; ++w) {
			if (!live[w]) continue;
			int st;
			pid_t r = waitpid(pids[w], &st, WNOHANG);
			if (r == pids[w]) {
				any = true;
				live[w] = 0;
				--nlive;
				kill(-pids[w], SIGKILL);
				if (slots[w]->state != 1 && bad < 0 && !(stop_at && WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL)) {
					bad = w;
					first.o = FAIL;
					first.msg = slots[w]->state == 2 ? slots[w]->msg : describe_status(st) + ": " + err_tail();
					first.note = slots[w]->note;
					infra = slots[w]->state != 2 && WIFEXITED(st) && WEXITSTATUS(st) == 99;
					stop->store(1);
					if (!stop_at) stop_at = now_ms();
				}
			} else {
				u64 s = slots[w]->started;
				if (s && now_ms() > s + sub.hang_ms) {
					kill(-pids[w], SIGKILL);
					kill(pids[w], SIGKILL);
					waitpid(pids[w], &st, 0);
					live[w] = 0;
					--nlive;
					any = true;
					if (bad < 0) {
						bad = w;
						first.o = HANG;
						first.msg = fmt("no result within %u ms", sub.hang_ms);
						stop->store(1);
						if (!stop_at) stop_at = now_ms();
					}
				}
			}
		}
		if (stop_at && now_ms() > stop_at + 3000)
			for (unsigned w = 0; w < nworkers; ++w)
				if (live[w]) { kill(-pids[w], SIGKILL); kill(pids[w], SIGKILL); }
		if (!any) usleep(2000);
	}
	for (unsigned w = 0; w < nworkers; ++w) {
		Slot *s = slots[w];
		sr.evals += s->evals;
		sr.nontriv += s->nontriv;
		sr.distinct += s->distinct;
		sr.discards += s->discards;
		for (int i = 0; i < s->nsample && sr.samples.size() < 4; ++i) sr.samples.push_back(s->sample[i]);
		std::string lf = tmpdir + fmt("/lab_%u", w);
		FILE *f = fopen(lf.c_str(), "r");
		if (f) {
			u64 c;
			char b[512];
			while (fscanf(f, "%" SCNu64 " %511[^\n]", &c, b) == 2) sr.labels[b] += c;
			fclose(f);
			unlink(lf.c_str());
		}
	}
	if (bad < 0 && sr.evals + sr.discards < count) sr.truncated = true;
	if (bad >= 0) {
		Slot *s = slots[bad];
		std::vector<u64> ch(s->rec, s->rec + s->nrec.load());
		sr.case_index = s->cur - 1;
		Slot *rs = new_slot();
		if (first.o == HANG) {
			// a hang that a re-run shows again is one, whatever the others do
			bool again = false;
			for (int i = 0; i < 6 && !again; ++i) {
				RunRes r = run_choices(sub, ch, rs, sub.hang_ms);
				if (r.o == HANG) { again = true; first.note = rs->note; }
				if (r.o == FAIL) { first = r; break; }
			}
			if (first.o == HANG) {
				sr.violated = again;
				sr.flaky = !again;
			}
		}
		if (first.o == FAIL) {
			int rep = 0, n;
			RunRes lastf;
			for (n = 0; n < 12; ++n) {
				RunRes r = run_choices(sub, ch, rs, sub.hang_ms);
				if (r.o == FAIL) { ++rep; lastf = r; }
				if (n == 2 && rep == 3) break;
			}
			if (rep == 0) sr.flaky = true;
			else {
				sr.violated = true;
				if (lastf.note.size()) first.note = lastf.note;
				first.msg = lastf.msg;
				if (rep == n + 1 || rep == 3) {
					std::vector<u64> best = ch;
					RunRes br = lastf;
					shrink(sub, best, br, rs, sr, 25000);
					int ok = 0;
					for (int i = 0; i < 3; ++i)
						if (run_choices(sub, best, rs, sub.hang_ms).o == FAIL) ++ok;
					if (ok == 3) { ch = best; first = br; }
				}
			}
		}
		sr.first_fail = !infra;
		sr.msg = first.msg;
		sr.note = first.note;
		sr.choices = ch;
		munmap(rs, sizeof(Slot));
	}
	for (Slot *s : slots) munmap(s, sizeof(Slot));
	munmap(hs, NHASH * 8);
	munmap(stop, 4096);
	unlink(errfile().c_str());
	sr.wall = (now_ms() - t0) / 1000.0;
}

// A failure that does not replay does not end the search: the rest of the cases
// run with another seed, and a second one is reported.
inline void run_sub(const Sub &sub, u64 seed, u64 count, unsigned nworkers, u64 deadline_ms, SubResult &sr,
                    const std::string &tmpdir) {
	std::string keep;
	for (int t = 0; t < 3; ++t) {
		SubResult r;
		u64 left = t ? std::max<u64>(count - std::min(count, sr.evals + sr.discards), 1) : count;
		run_sub_once(sub, t ? mix64(seed + 77 * t) : seed, left, nworkers, deadline_ms, r, tmpdir);
		bool real = r.flaky && r.first_fail;
		if (t == 0) sr = r;
		else {
			sr.evals += r.evals; sr.nontriv += r.nontriv; sr.distinct += r.distinct; sr.discards += r.discards;
			for (auto &kv : r.labels) sr.labels[kv.first] += kv.second;
			sr.wall += r.wall;
			sr.truncated |= r.truncated;
			sr.violated = r.violated;
			if (r.violated || r.flaky) { sr.msg = r.msg; sr.note = r.note; sr.choices = r.choices; sr.case_index = r.case_index; sr.shrink_execs = r.shrink_execs; }
			sr.flaky |= r.flaky;
		}
		if (real && !keep.empty()) {
			sr.violated = true;
			sr.msg += " (depends on timing: seen in two separate cases, this one and earlier: " + keep.substr(0, 300) + ")";
		}
		if (real && keep.empty()) keep = r.msg.empty() ? "failure" : r.msg;
		if (sr.violated) { sr.flaky = false; return; }
		if (!r.flaky || now_ms() > deadline_ms) return;
	}
}

inline void load_dict(const char *f) {
	FILE *fp = fopen(f, "r");
	if (!fp) return;
	u64 v;
	while (fscanf(fp, "%" SCNu64, &v) == 1) dict().push_back(v);
	fclose(fp);
}

#ifndef PBT_FUZZ
inline int pbt_main(int argc, char **argv) {
	u64 seed = 1;
	bool thorough = false;
	const char *out = nullptr, *rep = nullptr, *only = nullptr;
	double scale = 1;
	unsigned workers = 8;
	u64 cap_s = 0;
	for (int i = 1; i < argc; ++i) {
		std::string a = argv[i];
		auto nxt = [&]() { return i + 1 < argc ? argv[++i] : (char *)""; };
		if (a == "--seed") seed = strtoull(nxt(), 0, 10);
		else if (a == "--tier") thorough = std::string(nxt()) == "thorough";
		else if (a == "--out") out = nxt();
		else if (a == "--replay") rep = nxt();
		else if (a == "--only") only = nxt();
		else if (a == "--scale") scale = atof(nxt());
		else if (a == "--workers") workers = atoi(nxt());
		else if (a == "--cap") cap_s = atoi(nxt());
		else if (a == "--dict") load_dict(nxt());
	}
	signal(SIGPIPE, SIG_IGN);
	if (rep) {
		FILE *f = fopen(rep, "r");
		if (!f) { fprintf(stderr, "cannot open %s\n", rep); return 3; }
		char key[64], name[256] = "";
		std::vector<u64> ch;
		while (fscanf(f, "%63s", key) == 1) {
			if (!strcmp(key, "sub")) { if (fscanf(f, "%255s", name) != 1) break; }
			else if (!strcmp(key, "choices")) {
				u64 v;
				while (fscanf(f, "%" SCNu64, &v) == 1) ch.push_back(v);
				break;
			} else { int c; while ((c = fgetc(f)) != EOF && c != '\n'); }
		}
		fclose(f);
		for (auto &s : subs())
			if (!strcmp(s.name, name)) {
				Slot *sl = new_slot();
				RunRes r = run_choices(s, ch, sl, s.hang_ms);
				printf("%s: %s\n%s\n", r.o == OK ? "holds" : r.o == FAIL ? "FAILS" : r.o == HANG ? "HANGS" : "discarded", r.msg.c_str(), r.note.c_str());
				return r.o == OK || r.o == DISCARD ? 0 : 1;
			}
		fprintf(stderr, "no such subcheck %s\n", name);
		return 3;
	}
	char td[] = "/tmp/pbtXXXXXX";
	if (!mkdtemp(td)) { perror("mkdtemp"); return 3; }
	std::vector<SubResult> res;
	u64 t_end = cap_s ? now_ms() + cap_s * 1000 : ~0ULL;
	bool viol = false;
	for (auto &s : subs()) {
		if (only && strcmp(only, s.name)) continue;
		SubResult sr;
		u64 n = (u64)((thorough ? s.thorough : s.quick) * (s.workers == 1 || (s.fixed && scale > 0.3) ? 1.0 : scale));  // heavy cases are not scaled
		if (n == 0) n = 1;
		run_sub(s, seed, n, workers, t_end, sr, td);
		res.push_back(sr);
		fprintf(stderr, "  %-28s %7" PRIu64 " cases, %7" PRIu64 " distinct non-trivial, %.1fs%s%s\n", s.name, sr.evals, sr.distinct, sr.wall,
		        sr.violated ? "  VIOLATED" : "", sr.flaky ? "  (a failure did not replay)" : sr.truncated ? "  (time cap)" : "");
		if (sr.violated) {
			fprintf(stderr, "    %s\n    case: %s\n", sr.msg.c_str(), sr.note.c_str());
			viol = true;
			break;
		}
		if (sr.flaky) fprintf(stderr, "    unreproduced: %s\n", sr.msg.c_str());
	}
	rmdir(td);
	if (out) {
		FILE *f = fopen(out, "w");
		fprintf(f, "{\"subs\":[");
		for (size_t i = 0; i < res.size(); ++i) {
			SubResult &s = res[i];
			fprintf(f, "%s{\"name\":%s,\"rule\":%s,\"evaluations\":%" PRIu64 ",\"planned\":%" PRIu64 ",\"nontrivial\":%" PRIu64 ",\"distinct_nontrivial\":%" PRIu64 ",\"discards\":%" PRIu64 ",\"wall_s\":%.2f,\"truncated\":%s,\"flaky\":%s,\"violated\":%s,\"msg\":%s,\"note\":%s,\"case_index\":%" PRIu64 ",\"shrink_execs\":%" PRIu64 ",",
			        i ? "," : "", jstr(s.name).c_str(), jstr(s.rule).c_str(), s.evals, s.planned, s.nontriv, s.distinct, s.discards, s.wall,
			        s.truncated ? "true" : "false", s.flaky ? "true" : "false", s.violated ? "true" : "false", jstr(s.msg).c_str(), jstr(s.note).c_str(), s.case_index, s.shrink_execs);
			fprintf(f, "\"labels\":{");
			bool c = false;
			for (auto &kv : s.labels) { fprintf(f, "%s%s:%" PRIu64, c ? "," : "", jstr(kv.first).c_str(), kv.second); c = true; }
			fprintf(f, "},\"samples\":[");
			for (size_t j = 0; j < s.samples.size(); ++j) fprintf(f, "%s%s", j ? "," : "", jstr(s.samples[j]).c_str());
			fprintf(f, "],\"choices\":[");
			if (s.violated || s.flaky)
				for (size_t j = 0; j < s.choices.size(); ++j) fprintf(f, "%s%" PRIu64, j ? "," : "", s.choices[j]);
			fprintf(f, "]}");
		}
		fprintf(f, "]}\n");
		fclose(f);
	}
	return viol ? 1 : 0;
}
#endif
}  // namespace pbt

#ifdef PBT_FUZZ
// libFuzzer entry: the bytes are decoded into choices of the subcheck named in
// PBT_SUB; a failing case writes its choice sequence to PBT_FAILFILE and aborts.
extern "C" int LLVMFuzzerTestOneInput(const uint8_t *data, size_t size) {
	using namespace pbt;
	static const Sub *sub = nullptr;
	static std::vector<u64> recv_(MAXCH);
	if (!sub) {
		const char *n = getenv("PBT_SUB");
		for (auto &s : subs())
			if (!n || !strcmp(s.name, n)) { sub = &s; break; }
		if (!sub) { fprintf(stderr, "no subcheck\n"); _exit(3); }
		signal(SIGPIPE, SIG_IGN);
	}
	G g;
	g.fd = data;
	g.fn = size;
	g.rec = recv_.data();
	g.cap = MAXCH;
	std::string msg;
	bool bad = false;
	if (per_case_hook()) per_case_hook()(hash_str(sub->name));
	try {
		sub->body(g);
	} catch (Failure &f) { bad = true; msg = f.msg; }
	catch (Discard &) { return -1; }
	catch (std::exception &e) { bad = true; msg = e.what(); }
	if (bad) {
		fprintf(stderr, "PBT-FAIL %s\n", msg.c_str());
		abort();
	}
	return 0;
}
// Converts a saved libFuzzer input to a choice sequence: PBT_DUMP=<file>.
#define PBT_MAIN
#else
#define PBT_MAIN int main(int argc, char **argv) { return pbt::pbt_main(argc, argv); }
#endif
#define PBT_CAT2(a, b) a##b
#define PBT_CAT(a, b) PBT_CAT2(a, b)
// SUBCHECK(name, quick cases, thorough cases, rule [, hang ms [, max workers [, fixed]]]); with one worker the counts are not scaled
#define SUBCHECK(name, ...)                                          \
	static void name(pbt::G &g);                                     \
	static pbt::Reg PBT_CAT(reg_, name)(#name, name, __VA_ARGS__);   \
	static void name(pbt::G &g)
