// C38: evaluating the coupling with thin panels leaves no trace, completing a step advances every
// panel once, and the result does not depend on which worker advances which face or when.
//
// Oracle: the ordinary operator of the same mesh without panels, as a matrix. Wherever a panel
// separates two cells, each cell sees the panel's surface values instead of its neighbour's. Panel
// states are kept and advanced by this harness, one face node at a time, on a panel model of its own.
#include "panels.hpp"
#include "omps.hpp"

using namespace panels;

namespace {

// Every sequence of evaluations inside every step of a short run.
void histories(vh::Explorer& ex, const Setup& s, int steps, int evals, int workers)
{
	omps::control().workers = workers;
	auto probe = solver(s, true);
	const int n = 6 * probe->getFES().GetNDofs();
	// which side of the surface the stack starts at is the solver's choice, the same for all faces
	Oracle fwd(s, false), bwd(s, true);
	std::vector<Vec> in{ generic(n, 1), generic(n, 2) };
	const double at[] = { 0.0, 0.5, 1.0 };
	std::vector<std::vector<int>> words{ {} };
	for (size_t i = 0; i < words.size(); i++) { if (int(words[i].size()) < evals) { for (int k = 0; k < 3; k++) { auto x = words[i]; x.push_back(k); words.push_back(x); } } }
	std::vector<int> base(steps, int(words.size()));
	auto* sol = solver(s, true).release();
	std::unique_ptr<maxwell::Solver> own(sol);
	hx::tuples(base, [&](const std::vector<int>& pick) {
		if (ex.failed()) { return; }
		hx::MuteAll mute;
		own = solver(s, true);
		auto& g = *evolution(*own);
		std::vector<Oracle*> o{ &fwd };
		if (!s.symmetric) { o.push_back(&bwd); }
		for (auto* x : o) { for (auto& q : x->nodes) { q.st.fields_state = 0.0; } }
		std::vector<char> ok(o.size(), 1);
		double t = 0.0;
		std::string sig;
		double worst = 0;
		auto agree = [&](const Vec& got, const Vec& u, double time) {
			bool any = false;
			for (size_t k = 0; k < o.size(); k++) { const Vec e = o[k]->derivative(u, time); if (!same(got, e)) { ok[k] = 0; worst = std::max(worst, off(got, e)); } any = any || ok[k]; }
			return any;
		};
		for (int st = 0; st < steps; st++) {
			const double dt = s.dt * (st % 2 ? 0.4 : 1.0);
			const Vec u0 = generic(n, 10 + st), u1 = generic(n, 11 + st);
			put(*own, u0);
			g.commitSGBCCheckpoint(t, dt, own->getFields());
			for (auto* x : o) { x->commit(t, dt, u0); }
			sig += "C";
			for (int e : words[pick[st]]) {
				const Vec& u = in[e % 2];
				const double time = t + at[e] * dt;
				sig += char('0' + e);
				ex.step();
				if (!ex.check(agree(run(g, u, time), u, time), "evaluation after ", sig, " is off by ", worst)) { return; }
			}
			put(*own, u1);
			g.finalizeSGBCStep(own->getFields());
			for (auto* x : o) { x->complete(u1); }
			sig += "F";
			ex.step(2);
			t += dt;
			// what the panels are now, seen at the start of the next step
			put(*own, u1);
		}
		const Vec u = generic(n, 30);
		put(*own, u);
		g.commitSGBCCheckpoint(t, s.dt, own->getFields());
		for (auto* x : o) { x->commit(t, s.dt, u); }
		for (double f : { 0.0, 1.0 }) { if (!ex.check(agree(run(g, u, t + f * s.dt), u, t + f * s.dt), "after ", sig, " the panels are off by ", worst)) { return; } }
		ex.step(2);
		ex.state(sig);
		ex.trace();
	});
}

// Every schedule of the workers in one evaluation and in the completion of the step.
void schedules(vh::Explorer& ex, const Setup& s, int workers, int preemptions)
{
	hx::MuteAll mute;
	omps::control().workers = workers;
	auto sol = solver(s, true);
	auto& g = *evolution(*sol);
	const int n = 6 * sol->getFES().GetNDofs();
	Oracle fwd(s, false), bwd(s, true);
	std::vector<Oracle*> o{ &fwd };
	if (!s.symmetric) { o.push_back(&bwd); }
	const Vec u0 = generic(n, 1), u1 = generic(n, 2), u2 = generic(n, 3);
	// a first complete step so that the panels hold something
	put(*sol, u0);
	g.commitSGBCCheckpoint(0.0, s.dt, sol->getFields());
	put(*sol, u1);
	g.finalizeSGBCStep(sol->getFields());
	for (auto* x : o) { x->commit(0.0, s.dt, u0); x->complete(u1); }
	g.commitSGBCCheckpoint(s.dt, s.dt, sol->getFields());
	for (auto* x : o) { x->commit(s.dt, s.dt, u1); }
	std::vector<Vec> e, at0;
	for (auto* x : o) { e.push_back(x->derivative(u2, 2 * s.dt)); }
	auto any = [&](const Vec& got, const std::vector<Vec>& want) { for (auto& z : want) { if (same(got, z)) { return true; } } return false; };
	long runs = omps::explore(workers, preemptions, [&](const std::string&) {
		const Vec got = run(g, u2, 2 * s.dt);
		ex.step();
		ex.state("E" + omps::schedule());
		return ex.check(any(got, e), "evaluation under schedule ", omps::schedule(), " is off by ", off(got, e[0]));
	});
	ex.note("evaluation schedules", runs);
	if (ex.failed()) { return; }
	// completions, one after the other, each under the next schedule
	double t = s.dt;
	int k = 0;
	runs = omps::explore(workers, preemptions, [&](const std::string&) {
		const Vec u = generic(n, 40 + k++ % 7), v = generic(n, 60);
		put(*sol, u);
		g.finalizeSGBCStep(sol->getFields());
		for (auto* x : o) { x->complete(u); }
		t += s.dt;
		ex.step();
		ex.state("F" + omps::schedule());
		omps::control().exploring = false;
		g.commitSGBCCheckpoint(t, s.dt, sol->getFields());
		std::vector<Vec> want;
		for (auto* x : o) { x->commit(t, s.dt, u); want.push_back(x->derivative(v, t)); }
		const Vec got = run(g, v, t);
		omps::control().exploring = true;
		return ex.check(any(got, want), "panels completed under schedule ", omps::schedule(), " are off by ", off(got, want[0]));
	});
	ex.note("completion schedules", runs);
	ex.trace();
}

// The solver's own steps: four evaluations, one completion.
void stepping(vh::Explorer& ex, const Setup& s, int steps, int workers)
{
	hx::MuteAll mute;
	omps::control().workers = workers;
	auto sol = solver(s, true);
	const int n = 6 * sol->getFES().GetNDofs();
	Oracle fwd(s, false), bwd(s, true);
	std::vector<Oracle*> o{ &fwd };
	if (!s.symmetric) { o.push_back(&bwd); }
	std::vector<Vec> u(o.size(), generic(n, 4));
	put(*sol, u[0]);
	std::vector<char> ok(o.size(), 1);
	double t = 0, worst = 0;
	for (int i = 0; i < steps; i++) {
		sol->step();
		bool any = false;
		for (size_t k = 0; k < o.size(); k++) {
			auto& x = *o[k];
			const double h = s.dt;
			x.commit(t, h, u[k]);
			const Vec k1 = x.derivative(u[k], t), k2 = x.derivative(u[k] + h / 2 * k1, t + h / 2), k3 = x.derivative(u[k] + h / 2 * k2, t + h / 2), k4 = x.derivative(u[k] + h * k3, t + h);
			u[k] += h / 6 * (k1 + 2 * k2 + 2 * k3 + k4);
			x.complete(u[k]);
			Vec got(n);
			for (int j = 0; j < n; j++) { got[j] = sol->getFields().allDOFs()[j]; }
			if (!same(got, u[k])) { ok[k] = 0; worst = std::max(worst, off(got, u[k])); }
			any = any || ok[k];
		}
		t += s.dt;
		ex.step(5);
		ex.state(vh::str("s", i));
		ex.trace();
		if (!ex.check(any, "step ", i + 1, " is off by ", worst)) { return; }
	}
}

std::vector<Setup> setups(bool deep)
{
	std::vector<Setup> r;
	auto put = [&](std::string name, hx::MeshDef d, int order, double alpha, std::vector<SGBCProperties> p, bool sym) { Setup s; s.name = name; s.def = d; s.order = order; s.alpha = alpha; s.panels = p; s.symmetric = sym; r.push_back(s); };
	// one to three panels on a line
	for (int faces = 1; faces <= 3; faces++) for (int kinds = 0; kinds < 4; kinds++) for (int order : { 1, 2 }) {
		auto def = hx::box(hx::SEG, { 4, 0, 0 }, { 2, 0, 0 }, 0.0, [&](const V3& c) { const int i = int(std::lround(c[0] / 0.5)); return i <= faces ? (kinds == 3 ? 6 : 5 + i) : 0; });
		std::vector<SGBCProperties> p;
		if (kinds == 3) { p.push_back(stack(6, 2)); }
		else { for (int i = 1; i <= faces; i++) { p.push_back(stack(5 + i, (kinds + i) % 3)); } }
		put(vh::str("line", faces, " k", kinds, " p", order), def, order, kinds == 1 ? 0.0 : 1.0, p, true);
	}
	for (int kind : { 3, 4 }) {
		auto def = hx::box(hx::SEG, { 3, 0, 0 }, { 2, 0, 0 }, 0.0, [&](const V3& c) { return c[0] < 1 ? 6 : 0; });
		put(vh::str("line covered", kind), def, 1, 1.0, { stack(6, kind) }, true);
	}
	// plane and space: a wall across the middle, cells numbered from either side
	for (auto k : { hx::QUAD, hx::TRI, hx::HEX, hx::TET }) for (int kind : { 0, 2 }) for (int rev = 0; rev < 2; rev++) for (int axis = 0; axis < (hx::kindDim(k)); axis++) {
		std::array<int, 3> n{ 1, 1, 1 };
		V3 hi{ 1, 1, 1 };
		n[axis] = 2;
		auto def = hx::box(k, n, hi, 0.0, [&](const V3& c) { return std::abs(c[axis] - 0.5) < 1e-9 ? 8 : 0; });
		if (rev) { def.putFirst([&](const V3& c) { return c[axis] > 0.5; }); def.tagFaces([&](const V3& c, bool in) { return in ? (std::abs(c[axis] - 0.5) < 1e-9 ? 8 : 0) : hx::outerSide(c, hi, hx::kindDim(k)); }); }
		// every face of the wall given with the same sense
		Setup probe;
		for (auto& b : def.bdr) { if (b.tag == 8) {
			V3 nn{ 0, 0, 0 };
			const auto& X = def.verts;
			if (b.v.size() == 2) { const V3 t = hx::operator-(X[b.v[1]], X[b.v[0]]); nn = { t[1], -t[0], 0 }; }
			else { nn = hx::cross(hx::operator-(X[b.v[1]], X[b.v[0]]), hx::operator-(X[b.v[2]], X[b.v[0]])); }
			if (nn[axis] < 0) { std::reverse(b.v.begin(), b.v.end()); }
		} }
		put(vh::str(hx::kindName(k), " axis", axis, " rev", rev, " k", kind), def, 1, rev ? 1.0 : 0.5, { stack(8, kind) }, kind == 0);
	}
	// two walls with different panels, and a wall of several faces
	for (auto k : { hx::QUAD, hx::TRI }) {
		auto def = hx::box(k, { 3, 1, 0 }, { 3, 1, 0 }, 0.0, [&](const V3& c) { return std::abs(c[0] - 1) < 1e-9 ? 8 : std::abs(c[0] - 2) < 1e-9 ? 9 : 0; });
		put(vh::str(hx::kindName(k), " two walls"), def, 1, 1.0, { stack(8, 0), stack(9, 1) }, true);
		auto def2 = hx::box(k, { 2, 2, 0 }, { 1, 1, 0 }, 0.0, [&](const V3& c) { return std::abs(c[0] - 0.5) < 1e-9 ? 8 : 0; });
		put(vh::str(hx::kindName(k), " tall wall"), def2, 1, 1.0, { stack(8, 1) }, true);
		auto def3 = hx::box(k, { 2, 2, 0 }, { 1, 1, 0 }, 0.3, [&](const V3& c) { return 0; });
		const auto fe = def3.faceElems();
		def3.tagFaces([&](const V3& c, bool in) { return in ? (c[0] > 0.3 && c[0] < 0.7 && std::abs(c[1] - 0.5) > 0.1 ? 8 : 0) : hx::outerSide(c, { 1, 1, 0 }, 2); });
		// a corner cell enclosed by panels, and a cell between two panels
		for (int rev = 0; rev < 2; rev++) for (int two = 0; two < 2; two++) {
			auto tag = [&](const V3& c) { return std::abs(c[0] - 0.5) < 1e-9 && c[1] < 0.5 ? 8 : std::abs(c[1] - 0.5) < 1e-9 && c[0] < 0.5 ? 8 + two : 0; };
			auto def4 = hx::box(k, { 2, 2, 0 }, { 1, 1, 0 }, 0.0, tag);
			if (rev) { def4.putFirst([&](const V3& c) { return c[0] + c[1] > 1; }); def4.tagFaces([&](const V3& c, bool in) { return in ? tag(c) : hx::outerSide(c, { 1, 1, 0 }, 2); }); }
			std::vector<SGBCProperties> p{ stack(8, 0) };
			if (two) { p.push_back(stack(9, 1)); }
			put(vh::str(hx::kindName(k), " corner", two, " rev", rev), def4, 1, 1.0, p, true);
		}
		if (k == hx::QUAD) { put(vh::str(hx::kindName(k), " tilted wall"), def3, 1, 1.0, { stack(8, 0) }, true); }
	}
	(void)deep;
	return r;
}

} // namespace

int main()
{
	vh::Explorer ex;
	Eigen::setNbThreads(1);
	const bool deep = ex.thorough();
	for (auto& s : setups(deep)) {
		const bool line = s.def.kind == hx::SEG;
		const int pairs = [&] { int n = 0; for (auto& b : s.def.bdr) { if (b.tag > 5 && (line || b.tag > 7)) { n += b.v.size() == 3 ? 3 : int(b.v.size()); } } return n; }();
		for (int wk : { 1, 2, 3 }) {
			if (wk > 1 && pairs < 2) { continue; }
			const bool big = s.def.dim() == 3;
			if (ex.begin(vh::str("histories ", s.name, " w", wk))) { ex.guarded([&] { histories(ex, s, line ? (deep ? 3 : 2) : (big ? 1 : 2), big || !line ? 1 : 2, wk); }); }
			if (ex.begin(vh::str("steps ", s.name, " w", wk))) { ex.guarded([&] { stepping(ex, s, 3, wk); }); }
			if (wk == 1) { continue; }
			// quick: all interruptions for the smallest teams, all assignments for the others
			const bool rich = deep || s.name == "line2 k0 p1" || s.name == "line3 k0 p1" || s.name == "quad axis0 rev0 k0";
			if (pairs > (wk == 2 ? 6 : deep ? 4 : 3)) { continue; }
			const int most = wk == 2 ? (pairs <= 2 ? 1 + deep : pairs <= 4 && rich) : pairs <= 2 && deep;
			for (int pre = 0; pre <= most; pre++) {
				if (ex.begin(vh::str("schedules ", s.name, " w", wk, " preemptions", pre))) { ex.guarded([&] { schedules(ex, s, wk, pre); }); }
			}
		}
	}
	return ex.finish();
}
