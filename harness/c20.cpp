// C20: the automatic time step over meshes, orders, CFL factors, scalings and formulations.
#include "ox.hpp"

using namespace maxwell;
using hx::V3;
using ox::Mat;

static vh::Explorer ex;

struct MeshCase { std::string name; hx::Kind k; std::array<int, 3> n; V3 hi; double warp; int pmax; };

static hx::MeshDef make(const MeshCase& m, int refine = 1, double scale = 1.0)
{
	auto d = hx::box(m.k, { m.n[0] * refine, m.n[1] * refine, m.n[2] * refine }, { scale * m.hi[0], scale * m.hi[1], scale * m.hi[2] }, 0.0);
	if (m.warp) for (auto& v : d.verts) {
		// A smooth map of the box onto itself, the same function for every refinement and scale.
		V3 x{ v[0] / (scale * m.hi[0]), v[1] / (scale * m.hi[1]), v[2] / (scale * m.hi[2]) };
		auto f = [&](double t) { return t + m.warp * t * (1 - t); };
		v = { scale * m.hi[0] * f(x[0]), hx::kindDim(m.k) > 1 ? scale * m.hi[1] * f(x[1]) : v[1], hx::kindDim(m.k) > 2 ? scale * m.hi[2] * f(x[2]) : v[2] };
	}
	return d;
}

static double step(const hx::MeshDef& d, EvolutionOperatorType op, int p, double cfl, int basis = mfem::BasisType::GaussLobatto, double fixed = 0.0, bool useSetters = true)
{
	auto mesh = d.build();
	auto m = hx::model(mesh, hx::allOuter(d.dim(), BdrCond::PEC));
	SolverOptions o;
	o.setOrder(p).setFinalTime(1.0).setTimeStep(fixed).setEvolutionOperator(op).setCFL(cfl);
	o.basis_type = basis;
	maxwell::Solver s(m, Probes(), Sources(), o);
	return s.getTimeStep();
}

int main()
{
	const bool T = ex.thorough();
	const std::vector<MeshCase> meshes{
		{ "seg1", hx::SEG, { 1, 0, 0 }, { 1, 1, 1 }, 0, 5 }, { "seg4", hx::SEG, { 4, 0, 0 }, { 1.3, 1, 1 }, 0.4, 5 },
		{ "tri11", hx::TRI, { 1, 1, 0 }, { 1, 1, 1 }, 0, 4 }, { "tri21", hx::TRI, { 2, 1, 0 }, { 1, 3, 1 }, 0.3, 4 }, { "tri thin", hx::TRI, { 2, 2, 0 }, { 1, 0.05, 1 }, 0, 3 },
		{ "quad11", hx::QUAD, { 1, 1, 0 }, { 1, 1, 1 }, 0, 4 }, { "quad22", hx::QUAD, { 2, 2, 0 }, { 1, 0.7, 1 }, 0.3, 4 }, { "quad thin", hx::QUAD, { 2, 2, 0 }, { 1, 0.05, 1 }, 0, 3 },
		{ "tet111", hx::TET, { 1, 1, 1 }, { 1, 1, 1 }, 0, 3 }, { "tet flat", hx::TET, { 1, 1, 1 }, { 1, 1, 0.2 }, 0.2, 3 },
		{ "hex111", hx::HEX, { 1, 1, 1 }, { 1, 1, 1 }, 0, 3 }, { "hex flat", hx::HEX, { 2, 1, 1 }, { 1, 1, 0.2 }, 0.2, 3 } };
	const std::vector<double> cfls{ 0.01, 0.25, 0.5, 0.8, 1.0 };
	auto forms = [](hx::Kind k) { std::vector<EvolutionOperatorType> r{ Global, Maxwell }; if (k == hx::TRI || k == hx::TET || k == hx::QUAD) { r.push_back(Hesthaven); } return r; };
	auto name = [&](EvolutionOperatorType f) { return f == Maxwell ? "maxwell" : (f == Global ? "global" : "hesthaven"); };
	// scaling laws
	for (auto& mc : meshes) for (auto f : forms(mc.k)) for (int basis : { int(mfem::BasisType::GaussLobatto), int(mfem::BasisType::GaussLegendre) }) {
		if (f == Hesthaven && basis != mfem::BasisType::GaussLobatto) { continue; }
		for (int p = f == Hesthaven ? 1 : 0; p <= mc.pmax; p++) {
			if (!ex.begin(vh::str("laws ", mc.name, " ", name(f), " basis", basis, " p", p))) { continue; }
			hx::MuteAll mute;
			ex.guarded([&] {
				const double base = step(make(mc), f, p, 1.0, basis);
				ex.step();
				if (!(base > 0) || !std::isfinite(base)) { ex.fail(vh::str("the step is ", base)); return; }
				for (double c : cfls) {
					ex.state(vh::str("cfl ", c)); ex.step();
					const double s = step(make(mc), f, p, c, basis);
					if (!vh::close(s, c * base, 1e-12)) { ex.fail(vh::str("CFL ", c, " gives ", s, " and CFL 1 gives ", base)); }
				}
				for (double c : { 0.001, 0.3, 2.0, 1000.0 }) {
					ex.state(vh::str("scale ", c)); ex.step();
					const double s = step(make(mc, 1, c), f, p, 1.0, basis);
					if (!(std::abs(s - c * base) <= 1e-9 * c * base)) { ex.fail(vh::str("scaling the mesh by ", c, " gives ", s, " instead of ", c * base)); }
				}
				if (p < mc.pmax) {
					const double s = step(make(mc), f, p + 1, 1.0, basis);
					ex.step();
					if (!(s > 0 && s <= base * (1 + 1e-12))) { ex.fail(vh::str("order ", p, " gives ", base, " and order ", p + 1, " gives ", s)); }
				}
				for (int r : { 2, 3 }) {
					if (kindDim(mc.k) == 3 && r == 3 && !T) { continue; }
					ex.state(vh::str("refined ", r)); ex.step();
					const double s = step(make(mc, r), f, p, 1.0, basis);
					if (!(s > 0 && s <= base * (1 + 1e-12))) { ex.fail(vh::str("the mesh gives ", base, " and refined ", r, " times ", s)); }
				}
				for (double dt : { 1e-9, 0.013, 0.5, 7.0 }) for (double c : { 0.2, 1.0 }) {
					ex.state(vh::str("explicit ", dt, " ", c)); ex.step();
					const double s = step(make(mc), f, p, c, basis, dt);
					if (s != dt) { ex.fail(vh::str("the explicit step ", dt, " became ", s)); }
				}
				ex.trace();
			});
		}
	}
	// the smallest cell governs, wherever it is and whatever its number
	for (auto& mc : meshes) for (auto f : forms(mc.k)) for (int p = f == Hesthaven ? 1 : 0; p <= std::min(mc.pmax, 3); p++) {
		const int dim = hx::kindDim(mc.k);
		if (mc.n[0] == 1 && dim == 1) { continue; }
		const std::array<int, 3> n{ dim == 1 ? 5 : 3, dim == 3 ? 1 : 2, 1 };
		for (int at = 0; at < n[0]; at++) {
			if (!ex.begin(vh::str("graded ", mc.name, " ", name(f), " p", p, " narrow ", at))) { continue; }
			hx::MuteAll mute;
			ex.guarded([&] {
				// columns of cells of equal width, but for one narrower than the others
				auto grade = [&](double q) {
					auto d = hx::box(mc.k, n, { double(n[0]), mc.hi[1], mc.hi[2] }, 0.0);
					for (auto& v : d.verts) { const double t = v[0]; v[0] = (t > at ? t - 1 + q : t) * mc.hi[0]; }
					return d;
				};
				const double even = step(grade(1.0), f, p, 1.0);
				double last = even;
				for (double q : { 0.5, 0.1, 0.02 }) {
					const auto d = grade(q);
					const double s = step(d, f, p, 1.0);
					ex.state(vh::str("q", q)); ex.step();
					if (!ex.check(s > 0 && s <= last * (1 + 1e-12), "a cell narrowed to ", q, " gives ", s, " after ", last)) { return; }
					last = s;
					const size_t N = d.elems.size();
					for (size_t sh = 1; sh < N; sh++) {
						auto r = d;
						for (size_t e = 0; e < N; e++) { r.elems[e] = d.elems[(e + sh) % N]; r.attrs[e] = d.attrs[(e + sh) % N]; }
						const double t = step(r, f, p, 1.0);
						ex.step();
						if (!ex.check(std::abs(t - s) <= 1e-9 * s, "with the cells numbered from ", sh, " the step is ", t, " instead of ", s)) { return; }
					}
				}
				if (mc.name.find("thin") == std::string::npos) ex.check(last < 0.2 * even, "a cell fifty times narrower only lowers the step from ", even, " to ", last);
				ex.trace();
			});
		}
	}
	// stability with the chosen step: the energy of every initial state
	for (auto& mc : meshes) for (auto f : forms(mc.k)) for (int p = f == Hesthaven ? 1 : 0; p <= mc.pmax; p++) for (double al : { 0.0, 0.5, 1.0 }) for (int bc = 0; bc < 3; bc++) {
		if (bc == 2 && f == Hesthaven && al != 1.0) { continue; }
		const auto d = make(mc);
		const int dim = d.dim();
		const int per = mc.k == hx::SEG ? p + 1 : mc.k == hx::TRI ? (p + 1) * (p + 2) / 2 : mc.k == hx::QUAD ? (p + 1) * (p + 1) : mc.k == hx::TET ? (p + 1) * (p + 2) * (p + 3) / 6 : (p + 1) * (p + 1) * (p + 1);
		if (6 * per * int(d.elems.size()) > (T ? 800 : 500)) { continue; }
		if (f != Global && al == 0.5 && !T) { continue; }
		if (!ex.begin(vh::str("energy ", mc.name, " ", name(f), " p", p, " alpha", al, " bc", bc))) { continue; }
		hx::MuteAll mute;
		ex.guarded([&] {
			ox::Cfg c;
			c.order = p; c.op = f; c.alpha = al; c.dt = 0.0;
			const double cfl = p > 1 ? 0.5 : 0.25;
			c.outer = hx::allOuter(dim, bc == 0 ? BdrCond::PEC : (bc == 1 ? BdrCond::PMC : BdrCond::SMA));
			if (bc == 1) { c.outer[2] = BdrCond::PEC; }
			auto mesh = d.build();
			auto s = ox::solver(mesh, c);
			const double dt = cfl * s->getTimeStep();      // proportionality is judged above
			Mat A = ox::matrix(*s), M = ox::energy(d, *s, c);
			Eigen::LLT<Mat> llt(M);
			Mat L = llt.matrixL();
			Mat B = dt * L.transpose() * A * L.transpose().inverse();
			const int n = int(A.rows());
			Mat I = Mat::Identity(n, n);
			Mat R = I + B * (I + B / 2 * (I + B / 3 * (I + B / 4)));
			ex.step(n);
			Mat R2 = R * R, R8 = R2 * R2;
			R8 = R8 * R8;
			auto nrm = [](const Mat& m) { Eigen::SelfAdjointEigenSolver<Mat> es(m.transpose() * m, Eigen::EigenvaluesOnly); return std::sqrt(es.eigenvalues().maxCoeff()); };
			const double n2 = nrm(R2), n8 = nrm(R8);
			if (!(n2 <= 1 + 1e-9)) { ex.fail(vh::str("two steps of ", dt, " multiply the norm by up to ", n2)); }
			if (!(n8 <= 1 + 1e-9)) { ex.fail(vh::str("eight steps of ", dt, " multiply the norm by up to ", n8)); }
			ex.trace();
		});
	}
	// refusals: every combination of valid and invalid options
	for (int order : { -3, -1, 0, 1, 2 }) for (double ft : { -1.0, -1e-12, 0.0, 1.0 }) for (double cfl : { -1.0, 0.0, 1e-6, 0.5, 1.0 }) for (double dt : { 0.0, 0.1, -0.1 }) {
		if (!ex.begin(vh::str("options order", order, " final", ft, " cfl", cfl, " dt", dt))) { continue; }
		hx::MuteAll mute;
		ex.guarded([&] {
			ex.step();
			const bool bad = order < 0 || ft < 0 || cfl <= 0 || dt < 0;
			bool refused = false;
			std::string what;
			try {
				auto mesh = hx::box(hx::SEG, { 3, 0, 0 }, { 1, 1, 1 }).build();
				auto m = hx::model(mesh, hx::allOuter(1, BdrCond::PEC));
				SolverOptions o;
				o.evolution.order = order; o.final_time = ft; o.cfl = cfl; o.time_step = dt;
				maxwell::Solver s(m, Probes(), Sources(), o);
			}
			catch (const mfem::ShimIndexError&) { throw; }
			catch (const std::exception& e) { refused = true; what = e.what(); }
			ex.check(refused == bad, bad ? "accepted" : "refused: " + what);
			ex.trace();
		});
	}
	return ex.finish();
}
