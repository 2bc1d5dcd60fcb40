// C35: one step of every integrator against its own equations, for every sequence of step sizes.
#include "ox.hpp"
namespace mfem { extern const std::vector<int>* forcedPartitioning; }

using namespace maxwell;
using hx::V3;
using ox::Mat;
using ox::Vec;

static const V3 HI{ 1.0, 0.8, 0.6 };
static vh::Explorer ex;

// Butcher tableaus from the literature.
struct Tableau { std::string name; std::vector<std::vector<double>> a; std::vector<double> b, c; };
static std::vector<Tableau> tableaus()
{
	const double g3 = 0.435866521508458999416019, c3 = (1 + g3) / 2, b3 = 1.20849664917601007033648;
	const double g2 = 1 - std::sqrt(0.5);
	const double a4 = 0.5 + std::cos(M_PI / 18) / std::sqrt(3.0), b4 = 1.0 / (6 * (2 * a4 - 1) * (2 * a4 - 1));
	return {
		{ "classical Runge-Kutta", { { 0, 0, 0, 0 }, { 0.5, 0, 0, 0 }, { 0, 0.5, 0, 0 }, { 0, 0, 1, 0 } }, { 1. / 6, 1. / 3, 1. / 3, 1. / 6 }, { 0, 0.5, 0.5, 1 } },
		{ "backward Euler", { { 1 } }, { 1 }, { 1 } },
		{ "trapezoidal rule", { { 0, 0 }, { 0.5, 0.5 } }, { 0.5, 0.5 }, { 0, 1 } },
		{ "implicit midpoint", { { 0.5 } }, { 1 }, { 0.5 } },
		{ "SDIRK33", { { g3, 0, 0 }, { c3 - g3, g3, 0 }, { b3, 1 - g3 - b3, g3 } }, { b3, 1 - g3 - b3, g3 }, { g3, c3, 1 } },
		{ "SDIRK23", { { g2, 0 }, { 1 - 2 * g2, g2 } }, { 0.5, 0.5 }, { g2, 1 - g2 } },
		{ "SDIRK34", { { a4, 0, 0 }, { 0.5 - a4, a4, 0 }, { 2 * a4, 1 - 4 * a4, a4 } }, { b4, 1 - 2 * b4, b4 }, { a4, 0.5, 1 - a4 } } };
}
static Vec step(const Tableau& T, const Mat& A, const std::function<Vec(double)>& src, const Vec& x, double t, double dt)
{
	std::vector<Vec> k;
	Vec r = x;
	for (size_t i = 0; i < T.b.size(); i++) {
		Vec y = x;
		for (size_t j = 0; j < i; j++) { y += dt * T.a[i][j] * k[j]; }
		Vec f = A * y + src(t + T.c[i] * dt);
		if (T.a[i][i] != 0.0) { f = (Mat::Identity(A.rows(), A.cols()) - dt * T.a[i][i] * A).partialPivLu().solve(f); }
		k.push_back(f);
		r += dt * T.b[i] * f;
	}
	return r;
}
static void put(maxwell::Solver& s, const Vec& x) { auto& v = s.getFields().allDOFs(); for (int i = 0; i < x.size(); i++) { v[i] = x[i]; } }
static Vec get(maxwell::Solver& s) { auto& v = s.getFields().allDOFs(); Vec x(v.Size()); for (int i = 0; i < v.Size(); i++) { x[i] = v[i]; } return x; }
static Vec generic(int n, double a = 1.0) { Vec x(n); for (int i = 0; i < n; i++) { x[i] = std::sin(a + 1.7 * i) + 0.3 * std::cos(2.9 * i * a); } return x; }

int main()
{
	const bool T = ex.thorough();
	const auto tabs = tableaus();
	const std::vector<double> dts{ 0.004, 0.02, 0.11, 0.6 };
	struct Case { std::string name; hx::Kind k; std::array<int, 3> n; int p; double alpha; bool src, lossy; EvolutionOperatorType op; };
	std::vector<Case> cases{
		{ "seg upwind", hx::SEG, { 4, 0, 0 }, 1, 1.0, false, false, Global }, { "seg centred", hx::SEG, { 3, 0, 0 }, 2, 0.0, false, false, Global }, { "seg lossy", hx::SEG, { 3, 0, 0 }, 1, 1.0, false, true, Global },
		{ "seg with source", hx::SEG, { 6, 0, 0 }, 1, 1.0, true, false, Global }, { "quad", hx::QUAD, { 2, 1, 0 }, 1, 1.0, false, false, Global }, { "tri", hx::TRI, { 1, 1, 0 }, 2, 0.5, false, true, Global },
		{ "seg separate", hx::SEG, { 4, 0, 0 }, 1, 1.0, false, true, Maxwell }, { "tri nodal", hx::TRI, { 1, 1, 0 }, 2, 1.0, false, false, Hesthaven } };
	for (auto& c : cases) for (size_t ode = 0; ode < tabs.size(); ode++) {
		if (c.op != Global && ode != 0) { continue; }   // only the global formulation offers implicit steps
		const int dim = hx::kindDim(c.k);
		auto make = [&](double dt) {
			auto def = hx::box(c.k, c.n, HI, 0.1, c.src ? std::function<int(const V3&)>([&](const V3& q) { return q[0] < 0.4 ? 7 : (q[0] > 0.6 ? 8 : 0); }) : nullptr, [](const V3& q) { return q[0] > 0.5 ? 2 : 1; });
			if (c.src) { def.tagFaces([&](const V3& q, bool in) { if (!in) { return hx::outerSide(q, HI, dim); } return std::abs(q[0] - def.verts[2][0]) < 1e-9 ? 3 : (std::abs(q[0] - def.verts[4][0]) < 1e-9 ? 3 : 0); }); }
			auto mesh = def.build();
			ox::Cfg g;
			g.op = c.op; g.order = c.p; g.alpha = c.alpha; g.dt = dt; g.ode = int(ode);
			g.outer = hx::allOuter(dim, BdrCond::PEC);
			g.outer[1] = BdrCond::SMA;
			if (c.lossy) { g.mats = { { 1, Material(2.0, 1.0, 0.7) }, { 2, Material(1.0, 1.5, 0.0) } }; }
			Sources s;
			if (c.src) {
				g.inner[3] = BdrCond::TotalFieldIn;
				s.add(TotalField(Planewave(Gaussian(0.3, mfem::Vector({ -0.4 })), mfem::Vector({ 0.0, 1.0, 0.0 }), mfem::Vector({ 1.0, 0.0, 0.0 }), E)));
			}
			auto r = ox::solver(mesh, g, s);
			r->setFinalTime(100.0);
			return r;
		};
		std::unique_ptr<maxwell::Solver> ref;
		Mat A;
		auto setup = [&] {
			if (ref) { return; }
			ref = make(0.01);
			const int n = 6 * ref->getFES().GetNDofs();
			const Vec z = ox::apply(*ref, Vec::Zero(n), 50.0);
			A.resize(n, n);
			for (int j = 0; j < n; j++) { A.col(j) = ox::apply(*ref, Vec::Unit(n, j), 50.0) - z; }
		};
		auto src = [&](double t) { return c.src ? ox::apply(*ref, Vec::Zero(A.rows()), t) : Vec(Vec::Zero(A.rows())); };
		auto judge = [&](const Vec& got, const Vec& want, const std::string& what) {
			const double sc = std::max(1.0, want.cwiseAbs().maxCoeff());
			Eigen::Index i = 0;
			const double m = (got - want).cwiseAbs().maxCoeff(&i);
			return ex.check(got.size() == want.size() && std::isfinite(got.sum()) && m < 1e-8 * sc, tabs[ode].name, ", ", what, ": unknown ", i, " becomes ", got[i], " instead of ", want[i]);
		};
		const std::string pre = vh::str(c.name, " ", tabs[ode].name);
		// all unit states, one step
		for (double dt : dts) {
			if (!ex.begin(vh::str(pre, " unit states dt=", dt))) { continue; }
			ex.guarded([&] {
				hx::MuteAll mute;
				hx::Scratch scratch;
				setup();
				auto s = make(dt);
				for (int j = 0; j < A.cols(); j++) {
					put(*s, Vec::Unit(A.cols(), j));
					s->setTime(0.2);
					s->step();
					ex.step();
					if (!judge(get(*s), step(tabs[ode], A, src, Vec::Unit(A.cols(), j), 0.2, dt), vh::str("unit state ", j))) { return; }
					if (!ex.check(std::abs(s->getTime() - 0.2 - dt) < 1e-12, "the time does not advance by the step")) { return; }
					ex.trace();
				}
			});
		}
		// all sequences of up to three step sizes
		for (int len = 1; len <= 3; len++) {
			std::vector<int> d(len, 0);
			for (;;) {
				std::string k = pre + " steps";
				for (int i : d) { k += vh::str(" ", dts[i]); }
				if (ex.begin(k)) {
					ex.guarded([&] {
						hx::MuteAll mute;
						hx::Scratch scratch;
						setup();
						auto s = make(dts[d[0]]);
						Vec x = generic(int(A.rows()));
						put(*s, x);
						double t = 0.0;
						for (int i : d) {
							s->setTimeStep(dts[i]);
							s->step();
							x = step(tabs[ode], A, src, x, t, dts[i]);
							t += dts[i];
							ex.step();
							if (!judge(get(*s), x, vh::str("after the step of ", dts[i]))) { return; }
							ex.trace();
						}
					});
				}
				int i = 0;
				while (i < len && ++d[i] == int(dts.size())) { d[i++] = 0; }
				if (i == len) { break; }
			}
		}
		// the stage equation itself: every sequence of step sizes, at two times
		if (c.op == Global && ode == 1) for (double a : dts) for (double b : dts) for (double e : dts) {
			if (!ex.begin(vh::str(c.name, " stage equation ", a, " ", b, " ", e))) { continue; }
			ex.guarded([&] {
				hx::MuteAll mute;
				hx::Scratch scratch;
				setup();
				auto s = make(0.01);
				auto* op = const_cast<mfem::TimeDependentOperator*>(s->getConstEvolTDO());
				const int n = int(A.rows());
				int call = 0;
				mfem::Vector k;   // kept between calls, as integrators do
				for (double dt : { a, b, e }) {
					const double t = 0.1 + 0.3 * call;
					const Vec x = generic(n, 1.0 + call++);
					mfem::Vector xv(n);
					for (int i = 0; i < n; i++) { xv[i] = x[i]; }
					op->SetTime(t);
					op->ImplicitSolve(dt, xv, k);
					Vec kk(n);
					for (int i = 0; i < n; i++) { kk[i] = k[i]; }
					ex.step();
					judge(kk, ox::apply(*s, x + dt * kk, t), vh::str("call ", call, " with ", dt, " (stage against its equation)"));
					if (ex.failed()) { return; }
					ex.trace();
				}
			});
		}
	}

	// Systems too large for a factorisation, and systems spread over ranks.
	struct Big { std::string name; hx::Kind k; std::array<int, 3> n; int p; std::vector<int> owner; };
	std::vector<Big> bigs{ { "large tri", hx::TRI, { 4, 4, 0 }, 1, {} } , { "large seg", hx::SEG, { 30, 0, 0 }, 3, {} } };
	for (int code = 1; code < 15; code++) { Big b{ vh::str("ranks ", code), hx::SEG, { 4, 0, 0 }, 1, {} }; for (int i = 0; i < 4; i++) { b.owner.push_back(code >> i & 1); } bigs.push_back(b); }
	for (int code : { 1, 5, 6, 9 }) { Big b{ vh::str("tri ranks ", code), hx::TRI, { 2, 1, 0 }, 1, {} }; for (int i = 0; i < 4; i++) { b.owner.push_back(code >> i & 1); } bigs.push_back(b); }
	for (auto& b : bigs) for (size_t ode = 1; ode < tabs.size(); ode++) for (double d1 : { 0.01, 0.08 }) for (double d2 : { 0.01, 0.08 }) {
		if (!ex.begin(vh::str(b.name, " ", tabs[ode].name, " ", d1, " ", d2))) { continue; }
		ex.guarded([&] {
			hx::MuteAll mute;
			hx::Scratch scratch;
			auto def = hx::box(b.k, b.n, HI, 0.1);
			const int dim = def.dim();
			ox::Cfg g;
			g.order = b.p; g.dt = d1; g.ode = int(ode);
			g.outer = hx::allOuter(dim, BdrCond::PEC);
			g.outer[1] = BdrCond::SMA;
			Mat A;
			std::vector<V3> pos, cen;
			auto locate = [&](mfem::FiniteElementSpace& fes, std::vector<V3>& p, std::vector<V3>& c) {
				p = hx::nodes(fes);
				auto e = ox::dofElem(fes);
				for (int i : e) { mfem::Vector q; fes.GetMesh()->GetElementCenter(i, q); V3 v{ 0, 0, 0 }; for (int d = 0; d < q.Size(); d++) { v[d] = q[d]; } c.push_back(v); }
			};
			{
				auto mesh = def.build();
				auto s = ox::solver(mesh, g);
				A = ox::matrix(*s);
				locate(s->getFES(), pos, cen);
			}
			const int N = int(pos.size());
			auto zero = [&](double) { return Vec(Vec::Zero(6 * N)); };
			Vec x0 = generic(6 * N);
			Vec want = step(tabs[ode], A, zero, step(tabs[ode], A, zero, x0, 0, d1), d1, d2);
			Vec got = Vec::Constant(6 * N, NAN);
			std::mutex lock;
			if (!b.owner.empty()) { mfem::forcedPartitioning = &b.owner; }
			try {
				mpisim::runWorld(b.owner.empty() ? 1 : 2, [&](int) {
					auto mesh = def.build();
					auto s = ox::solver(mesh, g);
					s->setFinalTime(100.0);
					std::vector<V3> p, c;
					locate(s->getFES(), p, c);
					const int M = int(p.size());
					std::vector<int> m(M, 0);
					for (int i = 0; i < M; i++) for (int j = 0; j < N; j++) { if (hx::norm(p[i] - pos[j]) < 1e-9 && hx::norm(c[i] - cen[j]) < 1e-9) { m[i] = j; } }
					Vec x(6 * M);
					for (int i = 0; i < 6 * M; i++) { x[i] = x0[i / M * N + m[i % M]]; }
					put(*s, x);
					s->setTimeStep(d1);
					s->step();
					s->setTimeStep(d2);
					s->step();
					x = get(*s);
					std::lock_guard<std::mutex> l(lock);
					for (int i = 0; i < 6 * M; i++) { got[i / M * N + m[i % M]] = x[i]; }
				});
			}
			catch (...) { mfem::forcedPartitioning = nullptr; throw; }
			mfem::forcedPartitioning = nullptr;
			ex.step(2);
			Eigen::Index i = 0;
			const double e = (got - want).cwiseAbs().maxCoeff(&i);
			// the solver stops at 1e-8 of the right-hand side A*x
			const double tol = 1e-6 * want.cwiseAbs().maxCoeff() + 1e-7 * (d1 + d2) * (A * x0).norm();
			ex.check(std::isfinite(got.sum()) && e < tol, tabs[ode].name, ": unknown ", i, " becomes ", got[i], " instead of ", want[i]);
			ex.trace(2);
			ex.note("large or distributed systems");
		});
	}
	return ex.finish();
}
