// C22: far field and radar cross section of every small recording, however split over ranks.
#include "rx.hpp"
#include "components/RCSSurfacePostProcessor.h"
#include "solver/Solver.h"

using namespace maxwell;
using hx::V3;

static const int NTFF = static_cast<int>(BdrCond::NearToFarField);
static double fHz(double k) { return k * rx::c0 / (2 * M_PI); }

int main()
{
	vh::Explorer ex;
	struct G { std::string name; rx::Surface s; int order, basis; };
	std::vector<G> gs;
	auto ring = [](const V3& c) { return std::abs(c[0] - 0.45) > 0.1 || std::abs(c[1] - 0.45) > 0.1; };
	for (int basis = 0; basis < 2; basis++) {
		gs.push_back({ "quad", rx::surface(hx::QUAD, { 2, 2, 0 }, { -0.5, 0, 0 }, { 1, 1, 0 }, 0), 1, basis });
		gs.push_back({ "tri", rx::surface(hx::TRI, { 2, 1, 0 }, { 0.1, -0.4, 0 }, { 1.1, 0.6, 0 }, 0.2), 1 + basis, basis });
		gs.push_back({ "hex", rx::surface(hx::HEX, { 2, 1, 1 }, { -0.3, -0.2, 0 }, { 0.9, 0.7, 0.5 }, 0.2), 1, basis });
		gs.push_back({ "tet", rx::surface(hx::TET, { 1, 1, 1 }, { -0.3, -0.2, 0 }, { 0.7, 0.7, 0.5 }, 0), 1 + (ex.thorough() ? basis : 0), basis });
	}
	gs.push_back({ "ring", rx::surface(hx::QUAD, { 3, 3, 0 }, { -0.4, -0.2, 0 }, { 0.9, 0.9, 0 }, 0.1, ring), 2, 1 });
	gs.push_back({ "line", rx::surface(hx::QUAD, { 2, 1, 0 }, { -0.5, 0, 0 }, { 1, 0.5, 0 }, 0), 0, 1 });

	auto phiSet = [](bool many) { std::vector<double> r; if (many) { for (int i = 0; i < 8; i++) { r.push_back(i * M_PI / 4); } r.push_back(0.3); r.push_back(-2.0); } else { r = { 0.3, M_PI, 1.25 * M_PI }; } return r; };
	// shape: 0 constant, 1 linear in space; every component has its own profile and time course
	auto field = [](std::vector<double> amp, int shape) {
		return rx::FieldFn([=](int c, const V3& x, int t) {
			if (amp[c] == 0) { return 0.0; }
			double p = 1.0;
			if (shape) { p = 0.4 + (0.7 - 0.2 * c) * x[0] - (0.3 - 0.11 * c) * x[1] + (0.5 + 0.07 * c) * x[2]; }
			return amp[c] * p * (0.3 + std::sin(0.9 * (t + 1) + 0.7 * c));
		});
	};
	auto judge = [&](const G& g, const std::vector<rx::Quad>& q, const std::string& dir, RCSSurfacePostProcessor& pp, const std::vector<double>& times, const rx::FieldFn& F, const std::vector<double>& fs, const std::vector<SphericalAngles>& as, const rx::Pulse& pw) {
		for (auto& a : as) {
			std::vector<rx::Row> rf, rr;
			if (!ex.check(rx::readRows(rx::fileName(dir, false, a.theta, a.phi), rf) && rx::readRows(rx::fileName(dir, true, a.theta, a.phi), rr), "no readable result for angle ", a.theta, " ", a.phi)) { continue; }
			if (!ex.check(rf.size() == fs.size() && rr.size() == fs.size(), "rows ", rf.size(), " ", rr.size())) { continue; }
			for (size_t i = 0; i < fs.size(); i++) {
				auto want = rx::expected(g.s, q, times, F, fs[i], a.theta, a.phi, pw);
				ex.step();
				auto same = [&](double v, double w, double scale, double rel) { return std::isfinite(v) && std::abs(v - w) <= rel * std::abs(w) + 2e-6 * scale; };
				ex.check(same(rf[i].val, want.pot, want.potScale, 1e-4), "far field ", rf[i].val, " instead of ", want.pot, " at ", fs[i], " Hz, angle ", a.theta, " ", a.phi);
				ex.check(same(rr[i].val, want.rcs, want.rcsScale, 1e-4), "cross section ", rr[i].val, " instead of ", want.rcs, " at ", fs[i], " Hz, angle ", a.theta, " ", a.phi);
				ex.check(vh::close(rf[i].f, fs[i], 1e-5) && vh::close(rr[i].f, fs[i], 1e-5), "row for ", rf[i].f, " Hz instead of ", fs[i]);
				const double lam = rx::c0 / fs[i], nrm = g.s.dim() == 2 ? lam : lam * lam;
				ex.check(vh::close(rf[i].nrm, nrm, 1e-5) && vh::close(rr[i].nrm, nrm, 1e-5), "normalisation ", rr[i].nrm, " instead of ", nrm);
				const double key = fs[i] / physicalConstants::speedOfLight_SI;
				bool got = false;
				for (double k : { key, std::nextafter(key, 1e9), std::nextafter(key, -1e9) }) {
					try { const double v = pp.getRCS(a, k), u = pp.getFarField(a, k); got = true; ex.check(vh::close(v, rr[i].val, 1e-5) && vh::close(u, rf[i].val, 1e-5), "values in memory ", v, " ", u, " differ from the files"); break; } catch (const std::out_of_range&) {}
				}
				ex.check(got, "no value in memory for ", fs[i], " Hz");
			}
		}
	};
	auto run = [&](const std::string& key, const G& g, const std::vector<int>& owner, const std::vector<double>& times, const rx::FieldFn& F, const std::vector<double>& fs, const std::vector<SphericalAngles>& as, const rx::Pulse& pw, const V3& dir, bool litter) {
		if (!ex.begin(key)) { return; }
		ex.guarded([&] {
			hx::Scratch scratch;
			hx::MuteAll mute;
			rx::writeRanks("data", g.s, owner, g.order, g.basis, times, F, NTFF);
			if (litter) {
				hx::spew("data/rcs/old.dat", "x");
				hx::spew("data/rank_old/surface_data.bin", "nothing");
				hx::spew("data/xrank1/mesh", "nothing");
				hx::spew("data/rank9", "a file");
			}
			hx::spew("case.json", rx::caseJson(pw, dir, litter ? "{\"type\":\"initial\",\"magnitude\":{\"type\":\"gaussian\",\"spread\":9}}," : ""));
			auto f2 = fs;
			RCSSurfacePostProcessor pp("data", "case.json", f2, as);
			judge(g, rx::quadrature(g.s), "data", pp, times, F, fs, as, pw);
			ex.trace();
		});
	};

	const std::vector<std::vector<double>> timeSets{ { 0.7 }, { 0.0, 1.1 }, { 0.0, 0.4, 0.8, 1.2, 1.6 }, { 0.0, 0.1, 0.5, 1.9, 2.0, 4.5 } };
	const rx::Pulse plain{ 0.8, -1.0 }, mod{ 0.8, -1.3, fHz(0.9) };

	for (auto& g : gs) {
		const int dim = g.s.dim(), ne = int(g.s.def.elems.size());
		std::vector<SphericalAngles> many, few;
		for (double p : phiSet(true)) { if (dim == 2) { many.push_back({ M_PI_2, p }); } else { for (double t : { 0.0, 0.6, M_PI_2, 2.2, M_PI }) { many.push_back({ t, p }); } } }
		for (double p : phiSet(false)) { few.push_back({ dim == 2 ? M_PI_2 : 0.4 + p, p }); }
		const std::string tag = vh::str(g.name, " p", g.order, " b", g.basis);
		// (1) field patterns: single components, pairs, all
		std::vector<std::pair<std::string, std::vector<double>>> amps;
		for (int a = 0; a < 6; a++) for (int b = a; b < 6; b++) { std::vector<double> v(6, 0.0); v[a] = 1.0; v[b] = a == b ? 1.0 : -0.6; amps.push_back({ vh::str(a, b), v }); }
		amps.push_back({ "all", { 1.0, -0.7, 0.5, 0.8, 0.9, -0.4 } });
		for (auto& am : amps) for (int shape = 0; shape < (g.order ? 2 : 1); shape++) {
			run(vh::str(tag, " comp ", am.first, " shape ", shape), g, std::vector<int>(ne, 0), timeSets[2], field(am.second, shape), { fHz(1.0) }, few, plain, { 1, 0, 0 }, false);
		}
		const auto full = field(amps.back().second, g.order ? 1 : 0);
		// (2) times, frequencies (any order), angles, pulses
		for (size_t ts = 0; ts < timeSets.size(); ts++) for (int fi = 0; fi < 4; fi++) for (int pi = 0; pi < 2; pi++) {
			static const std::vector<std::vector<double>> ks{ { 0.05 }, { 0.4, 1.7 }, { 1.5, 0.3, 0.9 }, { 0.2, 0.4, 0.6, 0.8, 1.0, 1.2 } };
			std::vector<double> fs;
			for (double k : ks[fi]) { fs.push_back(fHz(k)); }
			run(vh::str(tag, " times ", ts, " freqs ", fi, " pulse ", pi), g, std::vector<int>(ne, 0), timeSets[ts], full, fs, fi < 2 ? many : few, pi ? mod : plain, pi ? V3{ 1, 2, dim == 2 ? 0.0 : 2.0 } : V3{ 0, -1, 0 }, pi == 1);
		}
		// (3) every distribution of the elements over up to three recordings
		const int nr = ne <= 6 ? 3 : 2;
		if (dim == 3 && ne == 6 && g.basis == 0 && !ex.thorough()) { continue; }
		long total = 1;
		for (int e = 0; e < ne; e++) { total *= nr; }
		for (long i = 0; i < total; i++) {
			std::vector<int> o(ne);
			long r = i;
			std::string key;
			for (auto& x : o) { x = int(r % nr) * 5; r /= nr; key += std::to_string(x) + "."; } // rank0, rank5, rank10
			run(vh::str(tag, " split ", key), g, o, timeSets[2], full, { fHz(0.8) }, { few[0], few[1] }, mod, { 1, 1, 0 }, i % 2 == 1);
		}
	}

	// (4) recordings made by real runs, on one to three ranks
	{
		struct R { hx::Kind k; std::array<int, 3> n; int order; std::function<bool(const V3&)> in; int maxRanks; };
		const double t = 1.0 / 3;
		std::vector<R> rs{
			{ hx::QUAD, { 4, 3, 0 }, 1, [=](const V3& x) { return hx::inside(2, x, { 0.25, t, 0 }, { 0.75, 2 * t, 0 }); }, 1 },
			{ hx::TRI, { 4, 3, 0 }, 2, [=](const V3& x) { return hx::inside(2, x, { 0.25, t, 0 }, { 0.75, 2 * t, 0 }); }, 1 },
			{ hx::QUAD, { 3, 3, 0 }, 1, [=](const V3& x) { return hx::inside(2, x, { t, t, 0 }, { 2 * t, 2 * t, 0 }); }, 2 },
			{ hx::TRI, { 2, 2, 0 }, 2, [](const V3& x) { return x[0] + x[1] < 0.8; }, 2 },
			{ hx::HEX, { 2, 2, 1 }, 1, [](const V3& x) { return x[0] < 0.5 && x[1] < 0.5; }, 3 },
			{ hx::HEX, { 2, 2, 1 }, 1, [](const V3& x) { return x[0] < 0.5 || x[1] < 0.5; }, 3 },
			{ hx::TET, { 1, 1, 1 }, 1, [](const V3& x) { return x[0] < x[1]; }, 2 },
			{ hx::TET, { 1, 1, 1 }, 2, [](const V3& x) { return x[0] < x[2]; }, 2 } };
		for (size_t ci = 0; ci < rs.size(); ci++) {
			auto& c = rs[ci];
			const int dim = hx::kindDim(c.k);
			auto def = hx::box(c.k, c.n);
			def.putFirst(c.in);
			const int ne = int(def.elems.size());
			int inner = 0;
			for (auto& e : def.elems) { inner += c.in(def.centre(e)); }
			for (auto& fe : def.faceElems()) {
				const auto& v = fe.second;
				if (v.size() != 2 || (v[0] < inner) == (v[1] < inner)) { continue; }
				for (auto& lf : hx::localFaces(c.k)) {
					std::vector<int> f, g;
					for (int i : lf) { f.push_back(def.elems[v[0]][i]); }
					g = f;
					std::sort(g.begin(), g.end());
					if (g == fe.first) { def.bdr.push_back({ f, 9 }); }
				}
			}
			// the cells of the two large meshes in step, all cells of the small ones independently
			std::vector<std::vector<int>> owners;
			if (c.maxRanks == 1) { for (int how = 0; how < (1 << inner); how++) for (int rest = 0; rest < 2; rest++) { std::vector<int> o(ne, rest); for (int i = 0; i < inner; i++) { o[i] = (how >> i) & 1; } owners.push_back(o); } }
			for (int nr = 2; nr <= c.maxRanks; nr++) {
				long total = 1;
				for (int e = 0; e < ne; e++) { total *= nr; }
				for (long i = 0; i < total; i++) {
					std::vector<int> o(ne);
					long r = i;
					for (auto& x : o) { x = int(r % nr); r /= nr; }
					if (*std::max_element(o.begin(), o.end()) == nr - 1) { owners.push_back(o); }
				}
			}
			for (auto& owner : owners) {
				std::string code;
				for (int x : owner) { code += char('0' + x); }
				if (!ex.begin(vh::str("run ", ci, " ", hx::kindName(c.k), " ", code))) { continue; }
				ex.guarded([&] {
					hx::Scratch scratch;
					hx::MuteAll mute;
					const int most = *std::max_element(owner.begin(), owner.end()) + 1;
					std::vector<double> val[2];
					std::vector<double> fs{ fHz(0.5), fHz(1.5) };
					std::vector<SphericalAngles> as{ { dim > 2 ? 0.7 : M_PI_2, 0.3 }, { M_PI_2, M_PI } };
					hx::spew("case.json", rx::caseJson(plain, { 1, 0, 0 }));
					for (int pass = 0; pass < 2; pass++) {
						const int nr = pass ? most : 1;
						if (pass && (most == 1 || int(std::set<int>(owner.begin(), owner.end()).size()) != most)) { return; }
						if (pass) { mfem::forcedPartitioning = &owner; }
						mfem::sharedInternalBoundaries = true;
						mpisim::runWorld(nr, [&](int) {
							auto mesh = def.build();
							auto model = hx::model(mesh, hx::allOuter(dim, BdrCond::PEC));
							Sources s;
							mfem::Vector zero(dim);
							zero = 0.0;
							s.add(InitialField(Gaussian(0.3, zero, dim), E, mfem::Vector({ 1.0, -0.5, 0.3 }), mfem::Vector({ 0.4, 0.6, 0.5 })));
							s.add(InitialField(Gaussian(0.35, zero, dim), H, mfem::Vector({ 0.2, 0.9, -0.4 }), mfem::Vector({ 0.6, 0.3, 0.5 })));
							Probes p;
							RCSSurfaceProbe q;
							q.name = "surf";
							q.expSteps = 2;
							q.tags = { 9 };
							p.rcsSurfaceProbes.push_back(q);
							SolverOptions o;
							o.setOrder(c.order).setFinalTime(0.05).setTimeStep(0.01);
							maxwell::Solver sol(model, p, s, o);
							sol.run();
						});
						mfem::forcedPartitioning = nullptr;
						const std::string dir = pass ? vh::str("Exports/mpi-", nr, "/case/RCSSurface/surf") : std::string("Exports/single-core/case/RCSSurface/surf");
						if (!ex.check(hx::fs::exists(dir), "no recording directory ", dir)) { return; }
						auto f2 = fs;
						RCSSurfacePostProcessor pp(dir, "case.json", f2, as);
						for (auto& a : as) for (int r = 0; r < 2; r++) {
							std::vector<rx::Row> rows;
							ex.check(rx::readRows(rx::fileName(dir, r == 1, a.theta, a.phi), rows) && rows.size() == 2, "results incomplete");
							for (auto& x : rows) { val[pass].push_back(x.val); }
						}
						ex.step();
					}
					if (!ex.check(val[0].size() == val[1].size(), "different number of results")) { return; }
					for (size_t i = 0; i < val[0].size(); i++) { ex.check(vh::close(val[0][i], val[1][i], 1e-4, 1e-300), "value ", i, ": ", val[0][i], " on one rank, ", val[1][i], " on ", most); }
					ex.trace();
				});
			}
		}
	}
	return ex.finish();
}
