// C17: point and field probe files against an independent evaluation of the discrete solution.
#include "hx.hpp"
#include "solver/Solver.h"

using namespace maxwell;
using hx::V3;

int main()
{
	vh::Explorer ex;
	struct Cfg { hx::Kind k; std::array<int, 3> n; int order; double warp; };
	std::vector<Cfg> cfgs{ { hx::SEG, { 3, 0, 0 }, 2, 0.2 }, { hx::SEG, { 2, 0, 0 }, 1, 0.0 }, { hx::TRI, { 2, 2, 0 }, 2, 0.15 }, { hx::TRI, { 2, 1, 0 }, 1, 0.0 }, { hx::QUAD, { 2, 2, 0 }, 2, 0.0 }, { hx::TET, { 1, 1, 1 }, 1, 0.0 }, { hx::HEX, { 2, 1, 1 }, 1, 0.0 } };
	const V3 hi{ 1.0, 0.8, 0.6 };
	for (auto& c : cfgs) {
		const int dim = hx::kindDim(c.k);
		auto def = hx::box(c.k, c.n, hi, c.warp);
		// positions: grid (vertices, faces, interiors), element centres, near faces, outside
		std::vector<V3> pts;
		const std::vector<double> g{ 0.0, 0.21, 0.5, 0.77, 1.0 };
		for (double a : g) for (double b : dim > 1 ? g : std::vector<double>{ 0 }) for (double d : dim > 2 ? std::vector<double>{ 0.0, 0.3, 0.5, 1.0 } : std::vector<double>{ 0 }) { pts.push_back({ a * hi[0], b * hi[1], d * hi[2] }); }
		for (auto& e : def.elems) { pts.push_back(def.centre(e)); }
		for (auto& v : def.verts) { pts.push_back(v); }
		std::vector<V3> outside;
		for (int d = 0; d < dim; d++) { V3 a = 0.5 * hi, b = 0.5 * hi; a[d] = -0.1; b[d] = hi[d] + 0.05; outside.push_back(a); outside.push_back(b); }
		// one probe per run, all kinds; plus groups of several probes
		struct Q { V3 p; bool out; };
		std::vector<std::pair<std::string, std::vector<Q>>> runs;
		for (size_t i = 0; i < pts.size(); i++) { runs.push_back({ vh::str("pt", i), { { pts[i], false } } }); }
		for (size_t i = 0; i < outside.size(); i++) {
			runs.push_back({ vh::str("out", i), { { outside[i], true } } });
			runs.push_back({ vh::str("in+out", i), { { pts[3 % pts.size()], false }, { outside[i], true }, { pts[7 % pts.size()], false } } });
			runs.push_back({ vh::str("out+in", i), { { outside[i], true }, { pts[5 % pts.size()], false } } });
		}
		for (size_t i = 0; i + 2 < pts.size(); i += 2) { runs.push_back({ vh::str("trio", i), { { pts[i], false }, { pts[i + 1], false }, { pts[i + 2], false } } }); }
		for (int ft = 0; ft < 2; ft++) for (int dir = 0; dir < 3; dir++) for (auto& r : runs) {
			if (!ex.begin(vh::str(hx::kindName(c.k), c.order, ft ? " H" : " E", dir, " ", r.first))) { continue; }
			ex.guarded([&] {
				hx::Scratch scratch;
				hx::MuteAll mute;
				auto mesh = def.build();
				auto model = hx::model(mesh, hx::allOuter(dim, BdrCond::PEC));
				Sources s;
				for (int f = 0; f < 2; f++) {
					mfem::Vector zero(dim);
					zero = 0.0;
					s.add(InitialField(Gaussian(0.4 + 0.1 * f, zero, dim), FieldType(f), mfem::Vector({ 1.0 + f, -0.7, 0.4 - f }), mfem::Vector({ 0.3, 0.2, 0.1 })));
				}
				const size_t base = 3;
				Probes p;
				for (size_t i = 0; i < r.second.size(); i++) {
					maxwell::Point pt(dim);
					for (int d = 0; d < dim; d++) { pt[d] = r.second[i].p[d]; }
					FieldProbe f(FieldType(ft), dir, pt, 1);
					f.setProbeID(base + i);
					p.fieldProbes.push_back(f);
					PointProbe q(pt, 1);
					q.setProbeID(base + i);
					p.pointProbes.push_back(q);
				}
				SolverOptions o;
				o.setOrder(c.order).setFinalTime(0.02).setTimeStep(0.01);
				std::vector<std::array<std::vector<double>, 6>> hist;
				std::vector<double> ht;
				std::vector<V3> X;
				std::vector<std::vector<int>> el;
				std::vector<FieldMovie> fms;
				std::vector<FieldMovies> pms;
				{
					maxwell::Solver sol(model, p, s, o);
					X = hx::nodes(sol.getFES());
					for (int e = 0; e < sol.getFES().GetNE(); e++) { mfem::Array<int> d; sol.getFES().GetElementDofs(e, d); el.push_back(std::vector<int>(d.begin(), d.end())); }
					for (int n = 0; n <= 2; n++) {
						std::array<std::vector<double>, 6> h;
						for (int f = 0; f < 6; f++) { const auto& g = sol.getConstField(FieldType(f / 3), f % 3); h[f].assign(g.GetData(), g.GetData() + g.Size()); }
						hist.push_back(h);
						ht.push_back(sol.getTime());
						if (n < 2) { sol.step(); ex.step(); }
					}
					for (size_t i = 0; i < r.second.size(); i++) { fms.push_back(sol.getFieldProbe(i).getFieldMovie()); pms.push_back(sol.getPointProbe(i).getFieldMovies()); }
				}
				auto mine = model.getConstSerialMesh();
				for (size_t i = 0; i < r.second.size(); i++) {
					const auto& q = r.second[i];
					const std::string fn[2] = { vh::str("Exports/single-core/case/FieldProbes/FieldProbe", base + i, ".dat"), vh::str("Exports/single-core/case/PointProbes/PointProbe", base + i, ".dat") };
					if (q.out) {
						for (auto& f : fn) { if (hx::fs::exists(f)) { auto L = hx::lines(hx::slurp(f)); ex.check(L.size() <= 4, "a probe outside the mesh wrote ", L.size() - 4, " rows"); } }
						ex.check(fms[i].empty() && pms[i].empty(), "a probe outside the mesh recorded values");
						continue;
					}
					// elements containing the point (affine elements: inverse map through vertices)
					std::vector<int> cand;
					for (size_t e = 0; e < def.elems.size(); e++) {
						bool in = true;
						auto& v = def.elems[e];
						// on the inner side of every face, judged by the element centre
						V3 ce = def.centre(v);
						for (auto& lf : hx::localFaces(c.k)) {
							V3 a = def.verts[v[lf[0]]], n;
							if (dim == 1) { n = { 1, 0, 0 }; }
							else if (dim == 2) { V3 t = def.verts[v[lf[1]]] - a; n = { -t[1], t[0], 0 }; }
							else { n = hx::cross(def.verts[v[lf[1]]] - a, def.verts[v[lf[2]]] - a); }
							n = hx::unit(n);
							const double sc = hx::dot(ce - a, n), sp = hx::dot(q.p - a, n);
							if (sp * (sc > 0 ? 1 : -1) < -1e-9) { in = false; }
						}
						if (in) { cand.push_back(int(e)); }
					}
					if (!ex.check(!cand.empty(), "model: no element contains the point")) { return; }
					for (int w = 0; w < 2; w++) {
						auto L = hx::lines(hx::slurp(fn[w]));
						if (!ex.check(L.size() == 4 + hist.size(), w ? "point" : "field", " probe file has ", L.size(), " lines")) { return; }
						ex.check(L[0].find(vh::str(base + i)) != std::string::npos, "header does not name the probe: ", L[0]);
						auto hp = hx::numbers(L[2]);
						if (ex.check(hp.size() == 3, "header position has ", hp.size(), " entries")) { for (int d = 0; d < 3; d++) { ex.check(std::abs(hp[d] - (d < dim ? q.p[d] : 0.0)) < 1e-6, "header states position ", hp[0], " ", hp[1], " ", hp[2]); } }
						if (!w) {
							const std::string comp = std::string(ft ? "H" : "E") + "xyz"[dir];
							ex.check(L[3].find(comp) != std::string::npos, "header does not name the component: ", L[3]);
						}
						// A single candidate element must explain all rows and components.
						bool explained = false;
						std::string why;
						for (int e : cand) {
							bool good = true;
							for (size_t n = 0; n < hist.size() && good; n++) {
								auto row = hx::numbers(L[4 + n]);
								if (row.size() != (w ? 7u : 2u)) { good = false; why = vh::str("row has ", row.size(), " columns"); break; }
								if (!vh::close(row[0], ht[n] / 299792458.0, 1.1e-5, 1e-22)) { good = false; why = vh::str("time ", row[0], " instead of ", ht[n] / 299792458.0); break; }
								for (size_t col = 1; col < row.size() && good; col++) {
									const int f = w ? int(col) - 1 : ft * 3 + dir;
									std::vector<V3> xs;
									std::vector<double> vs;
									for (int dof : el[e]) { xs.push_back(X[dof]); vs.push_back(hist[n][f][dof]); }
									const double val = hx::interpolate(xs, vs, q.p, dim, c.order, c.k == hx::QUAD || c.k == hx::HEX);
									if (!vh::close(row[col], val, 1.1e-5, 1e-9)) { good = false; why = vh::str("column ", col, " row ", n, " is ", row[col], " instead of ", val); }
									ex.step();
								}
							}
							explained = explained || good;
						}
						ex.check(explained, w ? "point" : "field", " probe ", i, ": ", why);
					}
					ex.check(fms[i].size() == hist.size() && pms[i].size() == hist.size(), "in-memory record length");
				}
				ex.trace();
			});
		}
	}
	return ex.finish();
}
