// ThreadPool: every task runs exactly once, whatever the schedule.
#include "common.hpp"
#include "emp-tool/utils/ThreadPool.h"
#include <thread>
#include <mutex>
struct Task { int kind; int delay; int arg; int kids; int wait; };
enum { T_VAL, T_VOID, T_THROW, T_STR, T_REF, T_NEST, T_SUM3, T_KINDS };
static const char *tn[] = {"value", "void", "throw", "string", "ref", "nested", "sum3"};
static void pause_(int d) {
	if (d == 0) return;
	if (d < 4) { for (int i = 0; i < d; ++i) std::this_thread::yield(); return; }
	if (d < 8) { volatile int x = 0; for (int i = 0; i < d * 2000; ++i) x = x + i; return; }
	usleep((d - 7) * 40);
}
struct Probe {  // outlives the pool
	std::atomic<int> runs{0};
	std::atomic<int> order{-1};
	std::atomic<int> kids{0};
};
struct Ctx {
	std::atomic<int> cur{0}, peak{0}, seq{0};
	void in() { int c = ++cur, p = peak; while (p < c && !peak.compare_exchange_weak(p, c)); }
	void out() { --cur; }
};
static void add3(int a, const int &b, std::atomic<int> &sum, int d, Ctx *c) { c->in(); pause_(d); sum += a + b; c->out(); }
SUBCHECK(tasks, 6000, 120000, "a pool of 1 to 8 workers and up to 40 tasks (returning values, void, throwing, with string and reference arguments, enqueueing further tasks) submitted by 1 to 3 threads with generated delays; results awaited before, or only after, the pool is destroyed. Each task runs exactly once before the destructor returns, each future gives that task's result or exception, no more than the pool's size run at once, one worker with one submitter runs in order; non-trivial: at least 3 tasks", 20000) {
	size_t threads = 1 + g.draw(7), prods = 1 + g.draw(2);
	std::vector<std::vector<Task>> plan(prods);
	size_t total = 0;
	g.note("%zu workers: ", threads);
	for (size_t p = 0; p < prods; ++p) {
		size_t n = g.size(0, prods == 1 ? 40 : 15);
		for (size_t i = 0; i < n; ++i) {
			Task t;
			t.kind = (int)g.draw(T_KINDS - 1);
#ifdef __SANITIZE_THREAD__
			if (t.kind == T_THROW) t.kind = T_VAL;  // reference counts of exceptions live in uninstrumented code
#endif
			t.delay = g.chance(1, 2) ? 0 : (int)g.draw(11);
			t.arg = (int)g.draw(1000);
			t.kids = t.kind == T_NEST ? 1 + (int)g.draw(3) : 0;
			t.wait = g.chance(1, 4);   // wait for the result at once
			plan[p].push_back(t);
			g.note("%s%s%s ", tn[t.kind], t.delay ? "+d" : "", t.wait ? "!" : "");
			++total;
		}
		g.note("| ");
	}
	bool late = g.coin();  // look at the results after the pool is gone
	int prestop = g.chance(1, 2) ? 0 : (int)g.draw(11);
	g.nontrivial(total >= 3);
	struct Res {
		Task t;
		Probe pr;
		std::future<int> fi;
		std::future<void> fv;
		std::future<std::string> fs;
		int refval = 0;
		std::atomic<int> sum{0};
		std::string problem;
	};
	std::vector<std::vector<std::unique_ptr<Res>>> res(prods);
	for (size_t p = 0; p < prods; ++p) for (auto &t : plan[p]) { res[p].emplace_back(new Res()); res[p].back()->t = t; }
	Ctx cx;
	auto look = [](Res &r) {
		auto &t = r.t;
		try {
			switch (t.kind) {
			case T_VAL: case T_NEST: { int v = r.fi.get(); if (v != t.arg * 3 + 1) r.problem = fmt("gives %d, expected %d", v, t.arg * 3 + 1); break; }
			case T_VOID: r.fv.get(); break;
			case T_REF: r.fv.get(); if (r.refval != t.arg) r.problem = "did not write through its reference"; break;
			case T_SUM3: r.fv.get(); if (r.sum != t.arg + 7) r.problem = "sum"; break;
			case T_STR: { std::string s = r.fs.get(); if (s != fmt("s%d-x", t.arg)) r.problem = "gives " + s; break; }
			default: r.fi.get(); r.problem = "did not throw";
			}
		} catch (std::runtime_error &e) {
			if (t.kind != T_THROW || std::string(e.what()) != fmt("boom %d", t.arg)) r.problem = fmt("throws %s", e.what());
		} catch (std::exception &e) { r.problem = fmt("throws %s", e.what()); }
		if (r.problem.empty() && r.pr.runs != 1) r.problem = fmt("was run %d times when its result was ready", (int)r.pr.runs);
	};
	{
		std::unique_ptr<ThreadPool> pool(new ThreadPool(threads));
		REQUIRE(pool->size() == (int)threads, "size() of a pool of %zu is %d", threads, pool->size());
		auto submit = [&](size_t p) {
			for (auto &rp : res[p]) {
				Res *r = rp.get();
				Task t = r->t;
				Ctx *c = &cx;
				ThreadPool *pl = pool.get();
				switch (t.kind) {
				case T_VAL: r->fi = pool->enqueue([r, t, c] { c->in(); r->pr.order = c->seq++; ++r->pr.runs; pause_(t.delay); c->out(); return t.arg * 3 + 1; }); break;
				case T_VOID: r->fv = pool->enqueue([r, t, c] { c->in(); r->pr.order = c->seq++; pause_(t.delay); ++r->pr.runs; c->out(); }); break;
				case T_THROW: r->fi = pool->enqueue([r, t, c](int a) -> int { c->in(); r->pr.order = c->seq++; ++r->pr.runs; pause_(t.delay); c->out(); throw std::runtime_error(fmt("boom %d", a)); }, t.arg); break;
				case T_STR: { std::string s = fmt("s%d", t.arg); r->fs = pool->enqueue([r, t, c](std::string a, const char *b) { c->in(); r->pr.order = c->seq++; ++r->pr.runs; pause_(t.delay); c->out(); return a + b; }, s, "-x"); s = "changed"; break; }
				case T_REF: r->fv = pool->enqueue([r, t, c](int &x) { c->in(); r->pr.order = c->seq++; ++r->pr.runs; pause_(t.delay); x = t.arg; c->out(); }, std::ref(r->refval)); break;
				case T_SUM3: { r->pr.order = -2; ++r->pr.runs; int a = t.arg; r->fv = pool->enqueue(add3, a, 7, std::ref(r->sum), t.delay, c); a = 0; break; }
				default: r->fi = pool->enqueue([r, t, c, pl] {
					c->in();
					r->pr.order = c->seq++;
					for (int k = 0; k < t.kids; ++k) pl->enqueue([r, t, c, k] { c->in(); pause_(k == 0 ? t.delay : 0); ++r->pr.kids; c->out(); });
					++r->pr.runs;
					c->out();
					return t.arg * 3 + 1;
				});
				}
				if (t.wait) look(*r);
			}
		};
		std::vector<std::thread> ts;
		for (size_t p = 1; p < prods; ++p) ts.emplace_back(submit, p);
		submit(0);
		for (auto &t : ts) t.join();
		if (!late) for (auto &v : res) for (auto &r : v) if (!r->t.wait) look(*r);
		// nested tasks may only be enqueued while the pool accepts work
		for (auto &v : res) for (auto &r : v) if (r->t.kind == T_NEST && !r->t.wait && late) look(*r);
		pause_(prestop);
	}
	for (auto &v : res) for (auto &r : v) {
		REQUIRE(r->pr.runs == 1, "a %s task ran %d times by the time the pool was destroyed", tn[r->t.kind], (int)r->pr.runs);
		if (r->t.kind == T_SUM3) REQUIRE(r->sum == r->t.arg + 7, "a sum task gave %d by the time the pool was destroyed, expected %d", (int)r->sum, r->t.arg + 7);
		REQUIRE(r->pr.kids == r->t.kids, "%d of %d nested tasks ran", (int)r->pr.kids, r->t.kids);
		if (late && !r->t.wait && r->t.kind != T_NEST) look(*r);
		REQUIRE(r->problem.empty(), "a %s task %s", tn[r->t.kind], r->problem.c_str());
	}
	REQUIRE(cx.peak <= (int)threads, "%d tasks ran at once on %zu workers", (int)cx.peak, threads);
	if (threads == 1 && prods == 1) {
		int last = -1;
		for (auto &r : res[0]) if (r->pr.order >= 0) { REQUIRE(r->pr.order > last, "one worker ran tasks out of order"); last = r->pr.order; }
		g.label("one worker, in order");
	}
}
SUBCHECK(parallel, 1500, 30000, "as many tasks as the pool has workers wait for each other, several rounds, mixed with other tasks: all workers take part, or it would hang; non-trivial: at least 2 workers", 15000) {
	size_t threads = 1 + g.draw(7), rounds = 1 + g.draw(4);
	g.note("%zu workers, %zu rounds", threads, rounds);
	g.nontrivial(threads >= 2);
	ThreadPool pool(threads);
	for (size_t r = 0; r < rounds; ++r) {
		std::atomic<int> here{0};
		std::vector<std::future<int>> fs;
		size_t small = g.draw(3);
		for (size_t i = 0; i < small; ++i) fs.push_back(pool.enqueue([] { return 0; }));
		for (size_t i = 0; i < threads; ++i) {
			pause_((int)g.draw(8));
			fs.push_back(pool.enqueue([&here, threads](int k) { ++here; while (here < (int)threads) usleep(20); return k; }, (int)i + 1));
		}
		for (size_t i = 0; i < fs.size(); ++i) { int v = fs[i].get(); REQUIRE(v == (i < small ? 0 : (int)(i - small) + 1), "result %zu is %d", i, v); }
		REQUIRE(here == (int)threads, "%d of %zu took part", (int)here, threads);
	}
}
SUBCHECK(lifetime, 1500, 30000, "pools created and destroyed with work still queued behind slow tasks; the destructor returns only when all of it is done; non-trivial: more tasks than workers", 20000) {
	size_t threads = 1 + g.draw(4), n = g.size(0, 30), reps = 1 + g.draw(2);
	int d = (int)g.draw(11);
	g.note("%zu workers, %zu tasks, delay %d, %zu times", threads, n, d, reps);
	g.nontrivial(n > threads);
	for (size_t k = 0; k < reps; ++k) {
		std::atomic<int> done{0};
		std::shared_ptr<int> token(new int(1));
		{
			ThreadPool pool(threads);
			for (size_t i = 0; i < n; ++i) pool.enqueue([&done, d, token] { pause_(d); ++done; });
		}
		REQUIRE(done == (int)n, "%d of %zu tasks were done when the destructor returned", (int)done, n);
		REQUIRE(token.use_count() == 1, "a task object is still alive after the pool");
	}
}
SUBCHECK(many, 60, 1200, "pools of up to 100 workers, up to 20000 tasks from up to 4 threads, destroyed at once or after waiting; each runs once and each future holds its own result; non-trivial: more than 1000 tasks", 60000) {
	size_t threads = (size_t)g.size(1, 100, {64, 32}), prods = 1 + g.draw(3), n = (size_t)g.size(1, 20000, {1024, 4096, 10000, 16384});
	bool wait = g.coin();
	g.note("%zu workers, %zu tasks from %zu threads, %s", threads, n, prods, wait ? "awaited" : "destroyed at once");
	g.nontrivial(n > 1000);
	std::vector<std::atomic<int>> runs(n);
	for (auto &r : runs) r = 0;
	std::vector<std::future<size_t>> fs(n);
	{
		ThreadPool pool(threads);
		std::vector<std::thread> ts;
		for (size_t p = 0; p < prods; ++p)
			ts.emplace_back([&, p] { for (size_t i = p; i < n; i += prods) fs[i] = pool.enqueue([&runs](size_t k) { ++runs[k]; return k * 7 + 3; }, i); });
		for (auto &t : ts) t.join();
		if (wait) for (size_t i = 0; i < n; ++i) { size_t v = fs[i].get(); REQUIRE(v == i * 7 + 3, "task %zu gives %zu", i, v); }
	}
	for (size_t i = 0; i < n; ++i) REQUIRE(runs[i] == 1, "task %zu of %zu ran %d times", i, n, (int)runs[i]);
	if (!wait) for (size_t i = 0; i < n; ++i) { size_t v = fs[i].get(); REQUIRE(v == i * 7 + 3, "task %zu gives %zu", i, v); }
}
PBT_MAIN
