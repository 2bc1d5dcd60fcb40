// C19: surface recordings, the file inspected after every step.
#include "hx.hpp"
#include "solver/Solver.h"

using namespace maxwell;
using hx::V3;

int main()
{
	vh::Explorer ex;
	struct Cfg { hx::Kind k; std::array<int, 3> n; int order; V3 lo, hi; int basis = mfem::BasisType::GaussLobatto; };
	const double t = 1.0 / 3;
	std::vector<Cfg> cfgs{
		{ hx::TRI, { 3, 3, 0 }, 1, { t, t, 0 }, { 2 * t, 2 * t, 0 } }, { hx::TRI, { 3, 3, 0 }, 2, { t, t, 0 }, { 2 * t, 2 * t, 0 } },
		{ hx::QUAD, { 4, 3, 0 }, 1, { 0.25, t, 0 }, { 0.75, 2 * t, 0 } }, { hx::QUAD, { 3, 3, 0 }, 2, { t, t, 0 }, { 2 * t, 2 * t, 0 } }, { hx::QUAD, { 5, 5, 0 }, 1, { 0.2, 0.2, 0 }, { 0.8, 0.8, 0 } },
		{ hx::HEX, { 3, 3, 3 }, 1, { t, t, t }, { 2 * t, 2 * t, 2 * t } }, { hx::TET, { 3, 3, 3 }, 1, { t, t, t }, { 2 * t, 2 * t, 2 * t } },
		{ hx::TRI, { 3, 3, 0 }, 1, { t, t, 0 }, { 2 * t, 2 * t, 0 }, mfem::BasisType::GaussLegendre }, { hx::QUAD, { 3, 3, 0 }, 2, { t, t, 0 }, { 2 * t, 2 * t, 0 }, mfem::BasisType::GaussLegendre }, { hx::HEX, { 3, 3, 3 }, 1, { t, t, t }, { 2 * t, 2 * t, 2 * t }, mfem::BasisType::GaussLegendre } };
	for (size_t ci = 0; ci < cfgs.size(); ci++) for (int st = 1; st <= 4; st++) for (int N = 0; N <= 5; N++) for (int two = 0; two < 2; two++) {
		auto& c = cfgs[ci];
		const int dim = hx::kindDim(c.k);
		if (dim == 3 && (N > 3 || two || st > 2)) { continue; }
		if (!ex.begin(vh::str(hx::kindName(c.k), c.order, " n=", c.n[0], " steps=", st, " N=", N, two ? " two" : "", c.basis ? "" : " legendre"))) { continue; }
		ex.guarded([&] {
			hx::Scratch scratch;
			hx::MuteAll mute;
			auto def = hx::box(c.k, c.n, { 1, 1, 1 }, 0.0, hx::around(dim, c.lo, c.hi, 9));
			// recording surfaces need the enclosed elements numbered first
			def.putFirst([&](const V3& x) { return hx::inside(dim, x, c.lo, c.hi); });
			if (two) { // the same surface split over two tags
				for (auto& b : def.bdr) { if (b.tag == 9 && def.centre(b.v)[0] > 0.5) { b.tag = 8; } }
			}
			auto mesh = def.build();
			auto model = hx::model(mesh, hx::allOuter(dim, BdrCond::PEC));
			Sources s;
			mfem::Vector zero(dim);
			zero = 0.0;
			s.add(InitialField(Gaussian(0.3, zero, dim), E, mfem::Vector({ 1.0, -0.5, 0.3 }), mfem::Vector({ 0.4, 0.6, 0.5 })));
			s.add(InitialField(Gaussian(0.35, zero, dim), H, mfem::Vector({ 0.2, 0.9, -0.4 }), mfem::Vector({ 0.6, 0.3, 0.5 })));
			Probes p;
			RCSSurfaceProbe q;
			q.name = "surf";
			q.expSteps = st;
			q.tags = two ? std::vector<int>{ 8, 9 } : std::vector<int>{ 9 };
			p.rcsSurfaceProbes.push_back(q);
			const double dt = 0.004;
			SolverOptions o;
			o.setOrder(c.order).setFinalTime(N * dt).setTimeStep(dt);
			o.basis_type = c.basis;
			maxwell::Solver sol(model, p, s, o);
			const std::string dir = "Exports/single-core/case/RCSSurface/surf/rank0/";
			auto X = hx::nodes(sol.getFES());
			std::vector<std::array<std::vector<double>, 6>> want;
			std::vector<double> wt;
			double lastT = 0;
			std::vector<std::vector<int>> map; // recording dof -> solver dof
			for (int n = 0; n <= N; n++) {
				if (n) { sol.step(); ex.step(); }
				if (n % st == 0 || n == N) {
					std::array<std::vector<double>, 6> h;
					for (int f = 0; f < 6; f++) { const auto& g = sol.getConstField(FieldType(f / 3), f % 3); h[f].assign(g.GetData(), g.GetData() + g.Size()); }
					want.push_back(h);
					wt.push_back(sol.getTime());
				}
				lastT = sol.getTime();
				auto f = hx::readSurface(hx::slurp(dir + "surface_data.bin"));
				if (!ex.check(f.ok, "header or geometry incomplete after step ", n)) { return; }
				ex.check(f.trailing == 0, f.trailing, " stray bytes after step ", n);
				if (!ex.check(f.recs.size() == want.size(), f.recs.size(), " records instead of ", want.size(), " after step ", n)) { return; }
				ex.state(vh::str("after ", n, ":", f.recs.size()));
				if (n == 0) {
					ex.check(f.dim == dim, "dimension ", f.dim);
					// measure, normals, positions
					double sum = 0, meas = 0;
					V3 flux{ 0, 0, 0 };
					for (auto& b : def.bdr) {
						if (b.tag < 8) { continue; }
						if (dim == 2) { meas += hx::norm(def.verts[b.v[0]] - def.verts[b.v[1]]); }
						else { const double a = hx::norm(hx::cross(def.verts[b.v[1]] - def.verts[b.v[0]], def.verts[b.v[2]] - def.verts[b.v[0]])); meas += b.v.size() == 3 ? a / 2 : a; }
					}
					const V3 mid = 0.5 * (c.lo + c.hi);
					for (int i = 0; i < f.nq; i++) {
						V3 x{ 0, 0, 0 }, nn{ f.nrm[3 * i], f.nrm[3 * i + 1], f.nrm[3 * i + 2] };
						for (int d = 0; d < dim; d++) { x[d] = f.pos[i * dim + d]; }
						ex.check(f.wgt[i] > 0, "weight ", i, " not positive");
						sum += f.wgt[i];
						flux = flux + f.wgt[i] * nn;
						ex.check(vh::close(hx::norm(nn), 1.0, 1e-10), "normal ", i, " not of unit length");
						bool onSurf = false, outward = false;
						for (int d = 0; d < dim; d++) for (int sgn = 0; sgn < 2; sgn++) {
							if (std::abs(x[d] - (sgn ? c.hi : c.lo)[d]) < 1e-9) { onSurf = true; outward = outward || vh::close(nn[d], sgn ? 1 : -1, 1e-9); }
						}
						for (int d = 0; d < dim; d++) { onSurf = onSurf && x[d] > c.lo[d] - 1e-9 && x[d] < c.hi[d] + 1e-9; }
						ex.check(onSurf, "point ", i, " is not on the surface");
						ex.check(outward, "normal ", i, " does not point outward");
						(void)mid;
					}
					ex.check(vh::close(sum, meas, 1e-10), "weights sum to ", sum, " instead of ", meas);
					ex.check(hx::norm(flux) < 1e-10, "normals do not close");
					// dofs of the saved mesh: same positions as solver dofs of the enclosed elements next to the surface
					mfem::Mesh sm(dir + "mesh", 1, 0, true);
					mfem::DG_FECollection fec(c.order, dim, f.basis);
					mfem::FiniteElementSpace sfes(&sm, &fec);
					if (!ex.check(sfes.GetNDofs() == f.ndofs, "recording has ", f.ndofs, " values per field, its mesh ", sfes.GetNDofs())) { return; }
					auto Y = hx::nodes(sfes);
					map.assign(f.ndofs, {});
					for (int e = 0; e < sm.GetNE(); e++) {
						mfem::Vector ce;
						sm.GetElementCenter(e, ce);
						V3 cc{ 0, 0, 0 };
						for (int d = 0; d < dim; d++) { cc[d] = ce[d]; }
						if (!ex.check(hx::inside(dim, cc, c.lo, c.hi), "recorded element outside the surface")) { return; }
						int ge = -1;
						for (int g = 0; g < mesh.GetNE(); g++) { mfem::Vector d2; mesh.GetElementCenter(g, d2); if (d2.DistanceTo(ce) < 1e-9) { ge = g; } }
						if (!ex.check(ge >= 0, "recorded element not in the mesh")) { return; }
						mfem::Array<int> a, b;
						sfes.GetElementDofs(e, a);
						sol.getFES().GetElementDofs(ge, b);
						for (int i = 0; i < a.Size(); i++) for (int j = 0; j < b.Size(); j++) { if (hx::norm(Y[a[i]] - X[b[j]]) < 1e-9) { map[a[i]].push_back(b[j]); } }
					}
				}
				for (size_t r = 0; r < want.size(); r++) {
					ex.check(f.recs[r].t == wt[r], "record ", r, " at time ", f.recs[r].t, " instead of ", wt[r]);
					for (int fc = 0; fc < 6; fc++) for (int i = 0; i < f.ndofs; i++) {
						if (!ex.check(map[i].size() == 1, "node ", i, " not matched")) { return; }
						ex.check(f.recs[r].f[fc][i] == want[r][fc][map[i][0]], "record ", r, " field ", fc, " value ", i, " differs from the solution");
						ex.step();
					}
				}
			}
			(void)lastT;
			ex.trace();
		});
	}
	return ex.finish();
}
