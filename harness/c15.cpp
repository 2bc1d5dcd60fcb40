// C15: the time loop. Every (final time, time step, integrator) of a grid that surrounds exact
// multiples, run through, stepped one by one, and in mixed histories with a later final time.
#include "hx.hpp"
#include "solver/Solver.h"

using namespace maxwell;

static std::unique_ptr<maxwell::Solver> make(double tf, double dt, size_t ode, EvolutionOperatorType op = Global, bool sgbcFlag = true)
{
	static auto def = hx::box(hx::SEG, { 3, 0, 0 });
	auto mesh = def.build();
	auto model = hx::model(mesh, { { 1, BdrCond::PEC }, { 2, BdrCond::PMC } });
	Sources s;
	s.add(InitialField(Gaussian(0.2, mfem::Vector({ 0.0 })), E, mfem::Vector({ 0.0, 1.0, 0.5 }), mfem::Vector({ 0.4 })));
	Probes p;
	p.fieldProbes.push_back(FieldProbe(E, Y, { 0.35 }, 1, false));
	SolverOptions o;
	o.setOrder(2).setFinalTime(tf).setTimeStep(dt).setODEType(ode).setEvolutionOperator(op);
	return std::make_unique<maxwell::Solver>(model, p, s, o);
}
static std::vector<double> state(maxwell::Solver& s) { const auto& v = s.getFields().allDOFs(); return std::vector<double>(v.GetData(), v.GetData() + v.Size()); }
static std::vector<double> times(maxwell::Solver& s) { std::vector<double> r; for (auto& m : s.getFieldProbe(0).getFieldMovie()) { r.push_back(m.first); } return r; }

int main()
{
	vh::Explorer ex;
	std::vector<double> dts{ 0.01, 0.013, 1.0 / 64, 0.1 / 7 };
	std::vector<double> rel{ 0.0, 1e-13, -1e-13, 1e-10, -1e-10, 3e-8, -3e-8, 1e-6, -1e-6, 1e-3, -1e-3, 0.25, 0.5, -0.01 };
	std::vector<int> mult{ 0, 1, 2, 3, 7, 10, 30, 100 };
	if (ex.thorough()) { mult = { 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 30, 33, 100, 101, 300 }; dts.push_back(0.0007); }
	for (size_t ode = 0; ode <= 6; ode++) for (double dt : dts) for (int m : mult) for (double r : rel) {
		if (ode > 0 && m > 10) { continue; }
		const double tf = dt * (m + r);
		if (tf < 0) { continue; }
		if (!ex.begin(vh::str("run ode=", ode, " dt=", dt, " n=", m, " r=", r))) { continue; }
		ex.guarded([&] {
			hx::MuteAll mute;
			auto a = make(tf, dt, ode), b = make(tf, dt, ode);
			const auto x0 = state(*a);
			a->run();
			const auto ts = times(*a);
			const int n = int(ts.size()) - 1;
			const double q = tf / dt;
			const int lo = std::max(0, int(std::ceil(q - 1e-6))), hi = std::max(0, int(std::ceil(q + 1e-6)));
			ex.check(n >= lo && n <= hi, n, " steps for ", q, " step lengths");
			ex.check(std::abs(a->getTime() - tf) <= 2e-8 * dt + 1e-13 * tf, "ended at ", a->getTime(), " instead of ", tf);
			ex.check(ts[0] == 0.0, "first record not at zero");
			for (int i = 1; i <= n; i++) {
				const double h = ts[i] - ts[i - 1];
				ex.check(h > 0, "step ", i, " is not positive");
				ex.check(ts[i] <= tf * (1 + 1e-14), "passed the final time at step ", i);
				if (i < n) { ex.check(vh::close(h, dt, 1e-9, 1e-15 * tf), "step ", i, " has length ", h); }
			}
			if (n == 0) { ex.check(state(*a) == x0, "state changed without a step"); }
			ex.step(n);
			for (int i = 0; i < n; i++) { b->step(); ex.check(b->getTime() == ts[i + 1], "stepping singly reaches another time"); ex.step(); }
			ex.check(state(*a) == state(*b), "stepping singly reaches another state than running through");
			// a finished run has nothing left to do
			const auto xe = state(*a);
			a->run();
			ex.check(state(*a) == xe && int(times(*a).size()) == n + 1, "a finished run advanced again");
			ex.trace();
		});
	}
	// Histories: step / run / extend the final time, all sequences up to length 4.
	const char* ops[] = { "step", "run", "extend1", "extend2.5", "halfdt" };
	std::vector<int> h;
	std::function<void()> rec = [&] {
		if (!h.empty()) {
			for (double r : { 0.0, 0.4 }) {
				std::string key = vh::str("hist r=", r);
				for (int o : h) { key += std::string(" ") + ops[o]; }
				if (!ex.begin(key)) { continue; }
				ex.guarded([&] {
					hx::MuteAll mute;
					double dt = 0.01, tf = dt * (2 + r), t = 0;
					auto s = make(tf, dt, 0);
					size_t cnt = 1;
					for (int o : h) {
						if (o == 0) { if (t < tf - 1e-9) { s->step(); t = std::min(tf, t + dt); cnt++; } }
						if (o == 1) { s->run(); while (t < tf - 1e-8 * dt) { t += std::min(dt, tf - t); cnt++; } }
						if (o == 2 || o == 3) { tf += dt * (o == 2 ? 1 : 2.5); s->setFinalTime(tf); }
						if (o == 4) { dt /= 2; s->setTimeStep(dt); ex.check(s->getTimeStep() == dt, "time step not taken over"); }
						ex.step();
						ex.check(vh::close(s->getTime(), t, 1e-9, 1e-12), "time ", s->getTime(), " instead of ", t, " after ", ops[o]);
						ex.check(times(*s).size() == cnt, times(*s).size() - 1, " steps instead of ", cnt - 1, " after ", ops[o]);
						ex.state(vh::str(t, ":", cnt));
					}
					ex.trace();
				});
			}
		}
		if (h.size() == 4) { return; }
		for (int o = 0; o < 5; o++) { h.push_back(o); rec(); h.pop_back(); }
	};
	rec();
	// Other formulations drive the same loop.
	for (int op = 0; op < 2; op++) for (int m : { 0, 1, 3 }) for (double r : { 0.0, 0.5 }) {
		if (!ex.begin(vh::str("op=", op, " m=", m, " r=", r))) { continue; }
		ex.guarded([&] {
			hx::MuteAll mute;
			const double dt = 0.02, tf = dt * (m + r);
			auto s = make(tf, dt, 0, op ? Global : Maxwell);
			s->run();
			ex.check(int(times(*s).size()) - 1 == int(std::ceil(m + r - 1e-9)), "step count");
			ex.check(vh::close(s->getTime(), tf, 1e-12, 1e-14), "final time");
			ex.trace();
		});
	}
	return ex.finish();
}
