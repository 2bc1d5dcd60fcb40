// A controlled OpenMP runtime: code compiled with -fopenmp calls these entry points instead of the
// system's. The members of a team are real threads, but only one runs at a time, and at every
// scheduling point the explorer decides which one goes on, so that every assignment of work to
// workers and every interleaving (up to a bound on preemptions) can be enumerated and replayed.
#pragma once
#include <condition_variable>
#include <exception>
#include <functional>
#include <memory>
#include <mutex>
#include <stdexcept>
#include <thread>
#include <vector>
#include <string>

namespace mfem { extern void (*preemptionPoint)(); }

namespace omps {

struct Choice { int n, taken; };
struct Control {
	int workers = 1;          // team size the runtime offers
	int preemptions = 0;      // how often a worker may be interrupted
	std::vector<Choice> path;
	size_t pos = 0;
	int used = 0;
	long switches = 0;
	bool exploring = false;
};
inline Control& control() { static Control c; return c; }

inline int choose(int n)
{
	auto& c = control();
	if (n < 2 || !c.exploring) { return 0; }
	if (c.pos == c.path.size()) { c.path.push_back({ n, 0 }); }
	auto& x = c.path[c.pos++];
	if (x.n != n) { throw std::logic_error("schedule not reproducible"); }
	return x.taken;
}

struct Team {
	int n;
	std::mutex m;
	std::condition_variable cv;
	int running = 0;
	std::vector<int> blocked;             // 0 runnable, 1 waiting, 2 done
	int arrived = 0;
	long generation = 0;
	struct Loop { bool ready = false; unsigned long long next = 0, end = 0, incr = 1, chunk = 1; bool up = true; };
	std::vector<Loop> loops;
	std::vector<int> loopNo, singleNo;
	std::vector<int> singles;
	bool locked = false;
	std::exception_ptr error;
	explicit Team(int k) : n(k), blocked(k, 0), loopNo(k, -1), singleNo(k, -1) {}
};
struct Self { Team* team = nullptr; int id = 0; };
inline Self& self() { static thread_local Self s; return s; }

// Lets `to` go on and waits for its own turn (unless done).
inline void pass(Team& t, int me, int to)
{
	if (to == me) { return; }
	control().switches++;
	std::unique_lock<std::mutex> l(t.m);
	t.running = to;
	t.cv.notify_all();
	if (t.blocked[me] == 2) { return; }
	t.cv.wait(l, [&] { return t.running == me; });
}
// The caller cannot go on: another one has to.
inline void leave(Team& t, int me)
{
	std::vector<int> r;
	for (int i = 0; i < t.n; i++) { if (i != me && t.blocked[i] == 0) { r.push_back(i); } }
	if (r.empty()) { throw std::runtime_error("all workers wait"); }
	pass(t, me, r[choose(int(r.size()))]);
}
// A point at which the caller may be interrupted.
inline void point(bool free)
{
	auto& s = self();
	if (!s.team) { return; }
	auto& t = *s.team;
	auto& c = control();
	if (!free && c.used >= c.preemptions) { return; }
	std::vector<int> r{ s.id };
	for (int i = 0; i < t.n; i++) { if (i != s.id && t.blocked[i] == 0) { r.push_back(i); } }
	const int k = choose(int(r.size()));
	if (k == 0) { return; }
	if (!free) { c.used++; }
	pass(t, s.id, r[k]);
}
inline void preempt() { point(false); }

inline void barrier()
{
	auto& s = self();
	if (!s.team) { return; }
	auto& t = *s.team;
	int alive = 0;
	for (int b : t.blocked) { alive += b != 2; }
	if (++t.arrived == alive) {
		t.arrived = 0;
		for (int& b : t.blocked) { if (b == 1) { b = 0; } }
		point(true);
		return;
	}
	t.blocked[s.id] = 1;
	leave(t, s.id);
}
inline void parallel(void (*fn)(void*), void* data, unsigned want, const std::function<void(Team&)>& prepare = nullptr)
{
	const int n = want ? int(want) : control().workers;
	if (self().team) {
		Self keep = self();
		Team t(1);
		if (prepare) { prepare(t); }
		self() = { &t, 0 };
		fn(data);
		self() = keep;
		return;
	}
	Team t(n);
	if (prepare) { prepare(t); }
	auto body = [&](int id) {
		self() = { &t, id };
		if (id) { std::unique_lock<std::mutex> l(t.m); t.cv.wait(l, [&] { return t.running == id; }); }
		try { if (id == 0) { point(true); } fn(data); }
		catch (...) { if (!t.error) { t.error = std::current_exception(); } }
		t.blocked[id] = 2;
		// whoever waits for all the others may go on
		int alive = 0, waiting = 0;
		for (int b : t.blocked) { alive += b != 2; waiting += b == 1; }
		if (alive && alive == waiting && t.arrived == alive) { t.arrived = 0; for (int& b : t.blocked) { if (b == 1) { b = 0; } } }
		std::vector<int> r;
		for (int i = 0; i < t.n; i++) { if (t.blocked[i] == 0) { r.push_back(i); } }
		if (!r.empty()) { pass(t, id, r[choose(int(r.size()))]); }
		self() = {};
	};
	std::vector<std::thread> th;
	for (int i = 1; i < n; i++) { th.emplace_back(body, i); }
	body(0);
	for (auto& x : th) { x.join(); }
	if (t.error) { std::rethrow_exception(t.error); }
}
inline bool next(unsigned long long* a, unsigned long long* b)
{
	auto& s = self();
	point(true);
	auto& l = s.team->loops[s.team->loopNo[s.id]];
	const long long left = l.up ? (long long)(l.end - l.next) : (long long)(l.next - l.end);
	if (left <= 0) { return false; }
	*a = l.next;
	unsigned long long e = l.next + l.incr * l.chunk;
	if (l.up ? (long long)(e - l.end) > 0 : (long long)(l.end - e) > 0) { e = l.end; }
	*b = e;
	l.next = e;
	return true;
}
inline Self& single()       // a worker outside any team is a team of one
{
	auto& s = self();
	if (!s.team) { static thread_local std::unique_ptr<Team> own; own = std::make_unique<Team>(1); s = { own.get(), 0 }; }
	return s;
}
inline void open(Team& t, int id, bool up, unsigned long long start, unsigned long long end, unsigned long long incr, unsigned long long chunk)
{
	const int k = ++t.loopNo[id];
	if (int(t.loops.size()) <= k) { t.loops.resize(k + 1); }
	if (!t.loops[k].ready) { t.loops[k] = { true, start, end, incr, chunk ? chunk : 1, up }; }
}
inline bool start(bool up, unsigned long long s0, unsigned long long e, unsigned long long incr, unsigned long long chunk, unsigned long long* a, unsigned long long* b)
{
	auto& s = single();
	open(*s.team, s.id, up, s0, e, incr, chunk);
	return next(a, b);
}

// Runs `body` under every schedule; returns how many.
inline long explore(int workers, int preemptions, const std::function<bool(const std::string&)>& body)
{
	auto& c = control();
	c.workers = workers; c.preemptions = preemptions; c.path.clear(); c.exploring = true;
	mfem::preemptionPoint = preempt;
	long runs = 0;
	try {
		while (true) {
			c.pos = 0; c.used = 0;
			std::string sig;
			runs++;
			const bool go = body(sig);
			if (!go) { break; }
			while (!c.path.empty() && c.path.back().taken + 1 >= c.path.back().n) { c.path.pop_back(); }
			if (c.path.empty()) { break; }
			c.path.back().taken++;
		}
	} catch (...) { c.exploring = false; mfem::preemptionPoint = nullptr; throw; }
	c.exploring = false;
	mfem::preemptionPoint = nullptr;
	return runs;
}
inline std::string schedule() { std::string s; for (auto& x : control().path) { s += char('0' + x.taken); } return s; }

} // namespace omps

extern "C" {
int omp_get_thread_num() { return omps::self().team ? omps::self().id : 0; }
int omp_get_num_threads() { return omps::self().team ? omps::self().team->n : 1; }
int omp_get_max_threads() { return omps::self().team ? 1 : omps::control().workers; }
int omp_in_parallel() { return omps::self().team && omps::self().team->n > 1; }
void omp_set_num_threads(int) {}
int omp_get_num_procs() { return omps::control().workers; }
void GOMP_parallel(void (*fn)(void*), void* data, unsigned n, unsigned) { omps::parallel(fn, data, n); }
void GOMP_barrier() { omps::barrier(); }
bool GOMP_single_start()
{
	auto& s = omps::single();
	const int k = ++s.team->singleNo[s.id];
	if (int(s.team->singles.size()) <= k) { s.team->singles.resize(k + 1, 0); }
	return s.team->singles[k]++ == 0;
}
static void lockTeam() { auto& s = omps::self(); if (!s.team) { return; } while (s.team->locked) { s.team->blocked[s.id] = 1; omps::leave(*s.team, s.id); } s.team->locked = true; }
static void unlockTeam() { auto& s = omps::self(); if (!s.team) { return; } s.team->locked = false; for (int i = 0; i < s.team->n; i++) { if (s.team->blocked[i] == 1 && s.team->arrived == 0) { s.team->blocked[i] = 0; } } omps::preempt(); }
void GOMP_critical_start() { lockTeam(); }
void GOMP_critical_end() { unlockTeam(); }
void GOMP_critical_name_start(void**) { lockTeam(); }
void GOMP_critical_name_end(void**) { unlockTeam(); }
void GOMP_atomic_start() {}
void GOMP_atomic_end() {}
void GOMP_loop_end() { omps::barrier(); }
void GOMP_loop_end_nowait() {}
#define OMPS_LOOP(KIND) \
bool GOMP_loop_##KIND##_start(long s, long e, long i, long c, long* a, long* b) { return omps::start(i > 0, s, e, i, c, (unsigned long long*)a, (unsigned long long*)b); } \
bool GOMP_loop_##KIND##_next(long* a, long* b) { return omps::next((unsigned long long*)a, (unsigned long long*)b); } \
bool GOMP_loop_ull_##KIND##_start(bool up, unsigned long long s, unsigned long long e, unsigned long long i, unsigned long long c, unsigned long long* a, unsigned long long* b) { return omps::start(up, s, e, i, c, a, b); } \
bool GOMP_loop_ull_##KIND##_next(unsigned long long* a, unsigned long long* b) { return omps::next(a, b); } \
void GOMP_parallel_loop_##KIND(void (*fn)(void*), void* data, unsigned n, long s, long e, long i, long c, unsigned) { omps::parallel(fn, data, n, [=](omps::Team& t) { for (int k = 0; k < t.n; k++) { omps::open(t, k, i > 0, s, e, i, c); } }); }
OMPS_LOOP(dynamic)
OMPS_LOOP(guided)
OMPS_LOOP(nonmonotonic_dynamic)
OMPS_LOOP(nonmonotonic_guided)
#undef OMPS_LOOP
}
