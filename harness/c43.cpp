// C43: what snapshots, near-field recordings and visualisation files hold, read back after every
// step and compared with the fields the solver has at that moment.
#include "hx.hpp"
#include "solver/Solver.h"
#include "mpi_sim.hpp"
#include <mutex>
namespace mfem { extern const std::vector<int>* forcedPartitioning; }
namespace fs = std::filesystem;

using namespace maxwell;
using hx::V3;

namespace {

const char* names[6] = { "Ex", "Ey", "Ez", "Hx", "Hy", "Hz" };

// one value per element (named by its centre) and node position
using Values = std::map<std::array<long, 6>, double>;

std::array<long, 6> key(const V3& c, const V3& x)
{
	std::array<long, 6> r;
	for (int d = 0; d < 3; d++) { r[d] = std::lround(c[d] * 1e4); r[3 + d] = std::lround(x[d] * 1e4); }
	return r;
}

void tabulate(mfem::FiniteElementSpace& fes, const mfem::Vector& g, Values& t)
{
	auto x = hx::nodes(fes);
	for (int e = 0; e < fes.GetNE(); e++) {
		mfem::Array<int> dofs, v;
		fes.GetElementDofs(e, dofs);
		V3 c{ 0, 0, 0 };
		for (int i = 0; i < dofs.Size(); i++) { for (int d = 0; d < 3; d++) { c[d] += x[dofs[i]][d] / dofs.Size(); } }
		for (int i = 0; i < dofs.Size(); i++) {
			V3 p = x[dofs[i]];
			t[key(c, p)] = g(dofs[i]);
		}
	}
}

Values readBack(const std::string& meshFile, const std::string& fieldFile)
{
	mfem::Mesh m(meshFile.c_str(), 1, 0, false); // as recordings are read: cells kept as written
	std::ifstream in(fieldFile);
	if (!in) { throw std::runtime_error("no " + fieldFile); }
	mfem::GridFunction g(&m, in);
	Values t;
	tabulate(*g.FESpace(), g, t);
	return t;
}

std::string pad(int n) { char b[16]; std::snprintf(b, sizeof b, "%06d", n); return b; }

struct Cfg { hx::Kind k; std::array<int, 3> n; int order; double warp; int basis; };

std::string name(const Cfg& c) { return vh::str(hx::kindName(c.k), c.n[0], c.n[1], c.n[2], " p", c.order, c.warp > 0 ? " warped" : "", c.basis == mfem::BasisType::GaussLobatto ? "" : " legendre"); }

// every file holding mesh data of a rank
std::string meshOf(const std::string& dir, const std::string& stem)
{
	std::string r;
	for (auto& e : fs::directory_iterator(dir)) {
		const auto f = e.path().filename().string();
		if (f == stem || f.rfind(stem + ".", 0) == 0) { r = e.path().string(); }
	}
	return r;
}

struct Moment { double time; int cycle; std::vector<std::array<Values, 6>> ranks; };

}

int main()
{
	vh::Explorer ex;
	const int GLo = mfem::BasisType::GaussLobatto, GLe = mfem::BasisType::GaussLegendre;
	std::vector<Cfg> cfgs{
		{ hx::SEG, { 4, 0, 0 }, 1, 0, GLo }, { hx::SEG, { 4, 0, 0 }, 3, 0.2, GLo }, { hx::SEG, { 3, 0, 0 }, 2, 0.2, GLe },
		{ hx::TRI, { 3, 3, 0 }, 1, 0, GLo }, { hx::TRI, { 3, 3, 0 }, 2, 0, GLo }, { hx::TRI, { 3, 3, 0 }, 2, 0, GLe }, { hx::TRI, { 3, 3, 0 }, 3, 0, GLo },
		{ hx::QUAD, { 3, 3, 0 }, 1, 0, GLo }, { hx::QUAD, { 4, 3, 0 }, 2, 0, GLo }, { hx::QUAD, { 3, 3, 0 }, 2, 0, GLe },
		{ hx::TET, { 3, 3, 3 }, 1, 0, GLo }, { hx::HEX, { 3, 3, 3 }, 1, 0, GLo }, { hx::HEX, { 3, 3, 3 }, 1, 0, GLe } };
	// probes declared: bit 0 snapshot, 1 near field, 2 visualisation
	for (auto& c : cfgs) for (int st = 1; st <= 3; st++) for (int N = 0; N <= 4; N++) for (int which = 1; which < 8; which++) {
		const int dim = hx::kindDim(c.k);
		if (dim == 1 && (which & 2)) { continue; }
		if (dim == 3 && !ex.thorough() && (which != 7 || st > 2 || N > 3)) { continue; }
		if (!ex.begin(vh::str(name(c), " every ", st, " of ", N, " probes ", which))) { continue; }
		ex.guarded([&] {
			hx::Scratch scratch;
			hx::MuteAll mute;
			V3 lo{ 0, 0, 0 }, hi{ 0, 0, 0 };
			for (int d = 0; d < dim; d++) { lo[d] = 1.0 / c.n[d]; hi[d] = 1 - lo[d]; }
			auto def = dim > 1 ? hx::box(c.k, c.n, { 1, 1, 1 }, c.warp, hx::around(dim, lo, hi, 9)) : hx::box(c.k, c.n, { 1, 1, 1 }, c.warp);
			if (dim > 1) { def.putFirst([&](const V3& x) { return hx::inside(dim, x, lo, hi); }); }
			auto mesh = def.build();
			auto model = hx::model(mesh, hx::allOuter(dim, BdrCond::PEC));
			Sources s;
			mfem::Vector zero(dim);
			zero = 0.0;
			s.add(InitialField(Gaussian(0.3, zero, dim), E, mfem::Vector({ 1.0, -0.5, 0.3 }), mfem::Vector({ 0.4, 0.6, 0.5 })));
			s.add(InitialField(Gaussian(0.35, zero, dim), H, mfem::Vector({ 0.2, 0.9, -0.4 }), mfem::Vector({ 0.6, 0.3, 0.5 })));
			Probes p;
			if (which & 1) { DomainSnapshotProbe q; q.expSteps = st; p.domainSnapshotProbes.push_back(q); }
			if (which & 2) { NearFieldProbe q; q.name = "near"; q.expSteps = st; q.tags = { 9 }; p.nearFieldProbes.push_back(q); }
			if (which & 4) { ExporterProbe q; q.name = "view"; q.visSteps = st; p.exporterProbes.push_back(q); }
			const double dt = 0.0123;
			SolverOptions o;
			o.setOrder(c.order).setFinalTime(N * dt).setTimeStep(dt);
			o.basis_type = c.basis;
			maxwell::Solver sol(model, p, s, o);
			std::vector<int> due;
			std::map<int, std::array<Values, 6>> want;
			std::map<int, std::array<std::vector<double>, 2>> raw;
			std::map<int, double> when;
			double big = 0;
			for (int n = 0; n <= N; n++) {
				if (n) { sol.step(); ex.step(); }
				if (n % st == 0 || n == N) {
					due.push_back(n);
					when[n] = sol.getTime();
					for (int f = 0; f < 6; f++) {
						const auto& g = sol.getConstField(FieldType(f / 3), f % 3);
						tabulate(sol.getFES(), g, want[n][f]);
						for (int i = 0; i < g.Size(); i++) { raw[n][f / 3].push_back(g(i)); big = std::max(big, std::abs(g(i))); }
					}
				}
				// every recording due so far is there and holds its moment, nothing else is
				const double tol = 2e-5 * big;
				auto times = [&](const std::string& f, double t, const char* what, int cyc) {
					double got = -1;
					std::ifstream in(f);
					ex.check(bool(in >> got) && std::abs(got - t) <= 1e-5 * std::max(1.0, t), what, " ", cyc, " is dated ", got, " instead of ", t);
				};
				auto compare = [&](const Values& got, const Values& all, bool whole, const char* what, int cyc, int f) {
					if (whole) { ex.check(got.size() == all.size(), what, " ", cyc, ": ", names[f], " has ", got.size(), " values instead of ", all.size()); }
					for (auto& [k, v] : got) {
						auto it = all.find(k);
						if (!ex.check(it != all.end(), what, " ", cyc, ": ", names[f], " has a node the solver has not")) { return; }
						if (!ex.check(std::abs(v - it->second) <= tol, what, " ", cyc, ": ", names[f], " is ", v, " at ", k[3] * 1e-4, ",", k[4] * 1e-4, ",", k[5] * 1e-4, " instead of ", it->second)) { return; }
					}
					ex.trace();
				};
				if (which & 1) {
					const std::string d = "Exports/single-core/case/DomainSnapshotProbes/";
					int count = 0;
					for (auto& e : fs::directory_iterator(d + "rank_0")) { (void) e; count++; }
					ex.check(count == int(due.size()), count, " snapshots instead of ", due.size(), " after step ", n);
					for (int cyc : due) {
						if (n < N && cyc != due.back()) { continue; }
						const std::string f = d + "rank_0/cycle_" + pad(cyc) + "/";
						for (int i = 0; i < 6; i++) { compare(readBack(meshOf(d + "meshes", "mesh_rank0"), f + names[i] + ".gf"), want[cyc][i], true, "snapshot", cyc, i); }
						times(f + "time.txt", when[cyc], "snapshot", cyc);
					}
				}
				if (which & 2) {
					const std::string d = "Exports/single-core/case/NearToFarFieldProbes/near/rank0/";
					int count = 0;
					for (auto& e : fs::directory_iterator(d)) { count += e.is_directory(); }
					ex.check(count == int(due.size()), count, " near-field recordings instead of ", due.size(), " after step ", n);
					for (int cyc : due) {
						if (n < N && cyc != due.back()) { continue; }
						const std::string f = d + "near_" + pad(cyc) + "/";
						for (int i = 0; i < 6; i++) {
							auto got = readBack(d + "mesh", f + names[i] + ".gf");
							compare(got, want[cyc][i], false, "near field", cyc, i);
							// the recording reaches every face of the surface, from the enclosed side
							for (auto& b : def.bdr) {
								if (b.tag != 9) { continue; }
								for (int v : b.v) {
									if (c.basis != GLo) { continue; }
									const auto k = key({ 0, 0, 0 }, def.verts[v]);
									bool found = false;
									for (auto& g : got) { found = found || (std::abs(g.first[3] - k[3]) < 2 && std::abs(g.first[4] - k[4]) < 2 && std::abs(g.first[5] - k[5]) < 2); }
									ex.check(found, "near field ", cyc, ": a corner of the surface is not recorded");
								}
							}
							for (auto& g : got) {
								const V3 x{ g.first[0] * 1e-4, g.first[1] * 1e-4, g.first[2] * 1e-4 };
								if (!ex.check(hx::inside(dim, x, lo, hi), "near field ", cyc, " records an element outside its surface")) { break; }
							}
						}
						times(f + "time.txt", when[cyc], "near field", cyc);
					}
				}
				if (which & 4) {
					const std::string d = "Exports/ParaView/single-core/view/";
					int count = 0;
					for (auto& e : fs::directory_iterator(d)) { count += e.is_directory(); }
					ex.check(count == int(due.size()), count, " visualisation files instead of ", due.size(), " after step ", n);
					for (int cyc : due) {
						if (n < N && cyc != due.back()) { continue; }
						std::ifstream in(d + "Cycle" + pad(cyc) + "/data_rank0.txt");
						std::string w;
						double t = -1;
						int k = -1;
						in >> w >> t >> w >> k;
						ex.check(std::abs(t - when[cyc]) <= 6e-4 && k == cyc, "visualisation file ", cyc, " is dated ", t, ", number ", k, " instead of ", when[cyc]);
						for (int f = 0; f < 2; f++) {
							std::string nm;
							size_t sz = 0;
							in >> w >> nm >> sz;
							if (!ex.check(w == "field" && (nm == "E" || nm == "H") && sz == raw[cyc][0].size(), "visualisation file ", cyc, " lists ", nm, " with ", sz, " values")) { break; }
							for (size_t i = 0; i < sz; i++) {
								double v = 0;
								in >> v;
								if (!ex.check(std::abs(v - raw[cyc][nm == "H"][i]) <= 1e-12 * big, "visualisation file ", cyc, ": ", nm, " value ", i, " is ", v, " instead of ", raw[cyc][nm == "H"][i])) { break; }
							}
						}
						ex.trace();
					}
				}
				ex.state(vh::str("after ", n, ":", due.size()));
			}
		});
	}
	// distributed: every rank leaves its own cells, together they are the whole mesh
	struct D { hx::Kind k; std::array<int, 3> n; int order; };
	std::vector<D> ds{ { hx::SEG, { 4, 0, 0 }, 2 }, { hx::QUAD, { 3, 2, 0 }, 1 }, { hx::TRI, { 2, 2, 0 }, 2 }, { hx::HEX, { 2, 2, 1 }, 1 } };
	for (auto& c : ds) for (int nr = 2; nr <= 3; nr++) {
		const int dim = hx::kindDim(c.k);
		auto def = hx::box(c.k, c.n);
		const int ne = int(def.elems.size());
		// a surface between some cells and the rest, the enclosed ones numbered first
		const auto in = [k = c.k](const V3& x) { return k == hx::HEX ? x[0] < 0.5 || x[1] < 0.5 : x[0] + x[1] < 0.8; };
		std::set<std::array<long, 3>> near;
		if (dim > 1) {
			def.putFirst(in);
			for (auto& fe : def.faceElems()) {
				const auto& v = fe.second;
				if (v.size() != 2 || in(def.centre(def.elems[v[0]])) == in(def.centre(def.elems[v[1]]))) { continue; }
				const int e = in(def.centre(def.elems[v[0]])) ? v[0] : v[1];
				const auto k = key(def.centre(def.elems[e]), { 0, 0, 0 });
				near.insert({ k[0], k[1], k[2] });
				for (auto& lf : hx::localFaces(c.k)) {
					std::vector<int> f, g;
					for (int i : lf) { f.push_back(def.elems[e][i]); }
					g = f;
					std::sort(g.begin(), g.end());
					if (g == fe.first) { def.bdr.push_back({ f, 9 }); }
				}
			}
		}
		long total = 1;
		for (int i = 0; i < ne; i++) { total *= nr; }
		if (total > (ex.thorough() ? 10000 : 800)) { continue; }
		for (long code = 0; code < total; code++) {
			std::vector<int> part(ne), used(nr, 0);
			long q = code;
			for (int i = 0; i < ne; i++) { part[i] = int(q % nr); used[part[i]]++; q /= nr; }
			if (std::find(used.begin(), used.end(), 0) != used.end()) { continue; }
			std::string pn;
			for (int r : part) { pn += char('0' + r); }
			if (!ex.begin(vh::str("ranks ", hx::kindName(c.k), " ", pn))) { continue; }
			ex.guarded([&] {
				hx::Scratch scratch;
				hx::MuteAll mute;
				std::vector<std::map<int, std::array<Values, 6>>> want(nr);
				std::vector<std::map<int, std::array<std::vector<double>, 2>>> raw(nr);
				std::map<int, double> when;
				const int N = 3, st = 2;
				mfem::forcedPartitioning = &part;
				mfem::sharedInternalBoundaries = true;
				try {
					mpisim::runWorld(nr, [&](int r) {
						auto mesh = def.build();
						std::vector<int> pp = part;
						maxwell::Model model(mesh, GeomTagToMaterialInfo(), GeomTagToBoundaryInfo(hx::allOuter(dim, BdrCond::PEC), GeomTagToInteriorBoundary{}), pp.data());
						model.meshName_ = "case";
						Sources s;
						mfem::Vector zero(dim);
						zero = 0.0;
						s.add(InitialField(Gaussian(0.3, zero, dim), E, mfem::Vector({ 1.0, -0.5, 0.3 }), mfem::Vector({ 0.4, 0.6, 0.5 })));
						Probes p;
						DomainSnapshotProbe q; q.expSteps = st; p.domainSnapshotProbes.push_back(q);
						ExporterProbe v; v.name = "view"; v.visSteps = st; p.exporterProbes.push_back(v);
						if (dim > 1) { NearFieldProbe w; w.name = "near"; w.expSteps = st; w.tags = { 9 }; p.nearFieldProbes.push_back(w); }
						const double dt = 0.0123;
						SolverOptions o;
						o.setOrder(c.order).setFinalTime(N * dt).setTimeStep(dt);
						maxwell::Solver sol(model, p, s, o);
						for (int n = 0; n <= N; n++) {
							if (n) { sol.step(); }
							if (n % st && n != N) { continue; }
							if (r == 0) { when[n] = sol.getTime(); }
							for (int f = 0; f < 6; f++) {
								const auto& g = sol.getConstField(FieldType(f / 3), f % 3);
								tabulate(sol.getFES(), g, want[r][n][f]);
								for (int i = 0; i < g.Size(); i++) { raw[r][n][f / 3].push_back(g(i)); }
							}
						}
					});
				} catch (...) { mfem::forcedPartitioning = nullptr; throw; }
				mfem::forcedPartitioning = nullptr;
				for (int i = 0; i < N; i++) { ex.step(); }
				const std::string base = vh::str("Exports/mpi-", nr, "/case/DomainSnapshotProbes/");
				double big = 0;
				for (auto& r : raw) for (auto& m : r) for (auto& a : m.second) for (double v : a) { big = std::max(big, std::abs(v)); }
				for (int n : { 0, 2, 3 }) {
					size_t cells = 0, all = 0;
					for (int r = 0; r < nr; r++) {
						const std::string f = vh::str(base, "rank_", r, "/cycle_", pad(n), "/");
						for (int i = 0; i < 6; i++) {
							auto got = readBack(meshOf(base + "meshes", vh::str("mesh_rank", r)), f + names[i] + ".gf");
							ex.check(got.size() == want[r][n][i].size(), "rank ", r, " snapshot ", n, ": ", got.size(), " values instead of ", want[r][n][i].size());
							for (auto& [k, v] : got) {
								auto it = want[r][n][i].find(k);
								if (!ex.check(it != want[r][n][i].end() && std::abs(v - it->second) <= 2e-5 * big, "rank ", r, " snapshot ", n, ": ", names[i], " is ", v, " where the solver has ", it == want[r][n][i].end() ? NAN : it->second)) { break; }
							}
							ex.trace();
						}
						double got = -1;
						std::ifstream in(f + "time.txt");
						ex.check(bool(in >> got) && std::abs(got - when[n]) <= 1e-5, "rank ", r, " snapshot ", n, " is dated ", got, " instead of ", when[n]);
						std::ifstream pv(vh::str("Exports/ParaView/mpi-", nr, "/view/Cycle", pad(n), "/data_rank", r, ".txt"));
						std::string w, nm;
						double t = -1;
						int k = -1;
						pv >> w >> t >> w >> k;
						ex.check(std::abs(t - when[n]) <= 6e-4 && k == n, "rank ", r, " visualisation ", n, " is dated ", t, " number ", k);
						for (int fi = 0; fi < 2; fi++) {
							size_t sz = 0;
							pv >> w >> nm >> sz;
							if (!ex.check(sz == raw[r][n][nm == "H"].size(), "rank ", r, " visualisation ", n, " has ", sz, " values of ", nm)) { break; }
							for (size_t i = 0; i < sz; i++) { double v = 0; pv >> v; if (!ex.check(std::abs(v - raw[r][n][nm == "H"][i]) <= 1e-12 * big, "rank ", r, " visualisation ", n, ": ", nm, " differs at ", i)) { break; } }
						}
						cells += want[r][n][0].size();
					}
					for (int i = 0; dim > 1 && i < 6; i++) {
						std::set<std::array<long, 3>> seen;
						for (int r = 0; r < nr; r++) {
							const std::string d = vh::str("Exports/mpi-", nr, "/case/NearToFarFieldProbes/near/rank", r, "/");
							if (!fs::exists(d + "mesh")) { continue; } // no part of the surface
							for (auto& [k, v] : readBack(d + "mesh", d + "near_" + pad(n) + "/" + names[i] + ".gf")) {
								seen.insert({ k[0], k[1], k[2] });
								auto it = want[r][n][i].find(k);
								if (!ex.check(it != want[r][n][i].end() && std::abs(v - it->second) <= 2e-5 * big, "rank ", r, " near field ", n, ": ", names[i], " is ", v, " where the solver has ", it == want[r][n][i].end() ? NAN : it->second)) { break; }
							}
						}
						ex.check(seen == near, "near field ", n, ": ", seen.size(), " cells beside the surface recorded instead of ", near.size());
						ex.trace();
					}
					auto mesh = def.build();
					mfem::DG_FECollection fec(c.order, dim, mfem::BasisType::GaussLobatto);
					mfem::FiniteElementSpace fes(&mesh, &fec);
					all = fes.GetNDofs();
					ex.check(cells == all, "the ranks' snapshots hold ", cells, " of ", all, " values");
				}
				ex.state("done");
			});
		}
	}
	return ex.finish();
}
