// C04: initial state = sum of the declared initial excitations, for every ordered list of up to
// three excitations from a pool, on several meshes and orders.
#include "hx.hpp"
#include "solver/Solver.h"

using namespace maxwell;
using hx::V3;

struct Item {
	std::string name;
	std::unique_ptr<Source> src;
	int ft;                               // -1: contributes nothing at the start
	V3 pol;
	std::function<double(const V3&)> f;   // argument: absolute position
};

static mfem::Vector vec(const V3& a, int n) { mfem::Vector v(n); for (int i = 0; i < n; i++) { v[i] = a[i]; } return v; }

static std::vector<Item> pool(int dim, bool thorough)
{
	std::vector<Item> r;
	auto gauss = [&](const std::string& n, double s, FieldType ft, V3 pol, V3 c) {
		mfem::Vector zero(dim);
		zero = 0.0;
		r.push_back({ n, std::make_unique<InitialField>(Gaussian(s, zero, dim), ft, vec(pol, 3), vec(c, 3)), int(ft), pol,
			[=](const V3& p) { double q = 0; for (int d = 0; d < dim; d++) { q += (p[d] - c[d]) * (p[d] - c[d]); } return std::exp(-q / (2 * s * s)); } });
	};
	gauss("gEy", 0.3, E, { 0, 1, 0 }, { 0.4, 0.3, 0 });
	gauss("gHz", 0.5, H, { 0, 0, 1 }, { -0.2, 0.9, 0 });
	gauss("gEmix", 0.2, E, { 0.6, -0.8, 0.5 }, { 0.7, 0.1, 0 });
	{
		std::vector<std::size_t> m(dim, 1);
		if (dim > 1) { m[1] = 2; }
		const V3 c{ 0.25, -0.5, 0.1 };
		r.push_back({ "mEz", std::make_unique<InitialField>(SinusoidalMode(m), E, vec({ 0, 0, -2 }, 3), vec(c, 3)), 0, V3{ 0, 0, -2 },
			[=](const V3& p) { double q = std::sin(M_PI * (p[0] - c[0])); if (dim > 1) { q *= std::sin(2 * M_PI * (p[1] - c[1])); } if (dim > 2) { q *= std::sin(M_PI * (p[2] - c[2])); } return q; } });
	}
	gauss("gHmix", 0.4, H, { 1, 0, -0.5 }, { 0.0, 0.0, 0 });
	r.push_back({ "pw", std::make_unique<TotalField>(Planewave(Gaussian(0.4, mfem::Vector({ 0.0 })), mfem::Vector({ 0.0, 1.0, 0.0 }), mfem::Vector({ 1.0, 0.0, 0.0 }), E)), -1, V3{ 0, 0, 0 }, [](const V3&) { return 0.0; } });
	if (thorough) { gauss("gEx", 1.5, E, { 1, 0, 0 }, { 0.5, 0.5, 0 }); }
	return r;
}

int main()
{
	vh::Explorer ex;
	struct Cfg { hx::Kind k; std::array<int, 3> n; int order; double warp; };
	std::vector<Cfg> cfgs{ { hx::SEG, { 3, 0, 0 }, 1, 0.2 }, { hx::SEG, { 2, 0, 0 }, 3, 0 }, { hx::TRI, { 2, 1, 0 }, 2, 0.1 }, { hx::QUAD, { 2, 2, 0 }, 1, 0.2 }, { hx::TRI, { 1, 1, 0 }, 0, 0.0 }, { hx::TET, { 1, 1, 1 }, 1, 0.0 }, { hx::HEX, { 1, 1, 1 }, 1, 0.0 } };
	const std::vector<EvolutionOperatorType> ops{ Global, Maxwell };
	for (auto& c : cfgs) {
		const int dim = hx::kindDim(c.k);
		auto P = pool(dim, ex.thorough());
		auto def = hx::box(c.k, c.n, { 1, 0.8, 0.6 }, c.warp);
		std::vector<std::vector<int>> lists{ {} };
		for (size_t a = 0; a < P.size(); a++) { lists.push_back({ int(a) }); for (size_t b = 0; b < P.size(); b++) { lists.push_back({ int(a), int(b) }); if (dim < 3) for (size_t d = 0; d < P.size(); d++) { lists.push_back({ int(a), int(b), int(d) }); } } }
		for (auto op : ops) for (auto& l : lists) {
			if (op == Maxwell && (l.size() > 2 || dim == 3)) { continue; }
			bool pw = false;
			std::string key = vh::str(hx::kindName(c.k), c.order, op == Global ? " G" : " M");
			for (int i : l) { key += " " + P[i].name; pw = pw || P[i].ft < 0; }
			if (pw && op == Maxwell) { continue; }
			if (!ex.begin(key)) { continue; }
			ex.guarded([&] {
				hx::MuteAll mute;
				auto mesh = def.build();
				auto model = hx::model(mesh, hx::allOuter(dim, BdrCond::PEC));
				Sources s;
				for (int i : l) { s.add(P[i].src->clone()); }
				SolverOptions o;
				o.setOrder(c.order).setFinalTime(0.1).setTimeStep(0.01).setEvolutionOperator(op);
				maxwell::Solver solver(model, Probes(), s, o);
				auto X = hx::nodes(solver.getFES());
				for (int f = 0; f < 2; f++) for (int d = 0; d < 3; d++) {
					const auto& gf = solver.getConstField(FieldType(f), d);
					bool fed = false;
					for (int i : l) { fed = fed || (P[i].ft == f && P[i].pol[d] != 0.0); }
					for (size_t n = 0; n < X.size(); n++) {
						double w = 0;
						for (int i : l) { if (P[i].ft == f) { w += P[i].f(X[n]) * P[i].pol[d]; } }
						const double v = gf[int(n)];
						ex.step();
						if (!fed) { ex.check(v == 0.0, f ? "H" : "E", d, " is fed by nothing but is ", v); }
						else { ex.check(vh::close(v, w, 1e-10, 1e-12), f ? "H" : "E", d, " at node ", n, " is ", v, " instead of ", w); }
					}
				}
				ex.check(solver.getTime() == 0.0, "time is not zero at the start");
				ex.trace();
			});
		}
	}
	return ex.finish();
}
