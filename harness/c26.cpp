// C26: far-field helpers against their definitions, and the merging of per-rank results.
#include "rx.hpp"
#include "components/FarField.h"
#include "components/RCSManager.h"
#include <nlohmann/json.hpp>

using namespace maxwell;
using hx::V3;
using rx::cd;
using J = nlohmann::json;

static const int NTFF = static_cast<int>(BdrCond::NearToFarField);
static double fHz(double k) { return k * rx::c0 / (2 * M_PI); }

namespace maxwell {
// present in the library, not in a header; skipped when absent
void writeParallelDataIntoSingleFiles(const std::string& case_path) __attribute__((weak));
}

static mfem::Vector vec(const V3& a, int n) { mfem::Vector v(n); for (int i = 0; i < n; i++) { v[i] = a[i]; } return v; }

// a field-snapshot recording of one rank
static void writeSnapshots(const std::string& dir, const rx::Surface& s, const std::vector<int>& owner, int rank, int order, int basis, const std::vector<double>& times, const rx::FieldFn& F)
{
	auto m = rx::part(s, owner, rank, NTFF).build();
	hx::fs::create_directories(dir);
	m.Save(dir + "/mesh");
	mfem::DG_FECollection fec(order, m.Dimension(), basis);
	mfem::FiniteElementSpace fes(&m, &fec);
	auto X = hx::nodes(fes);
	static const char* names[] = { "Ex", "Ey", "Ez", "Hx", "Hy", "Hz" };
	for (size_t t = 0; t < times.size(); t++) {
		char buf[32];
		std::snprintf(buf, sizeof buf, "/cyc_%06d", int(t) * 7);
		const std::string d = dir + buf;
		hx::spew(d + "/time.txt", vh::num(times[t]) + "\n");
		for (int c = 0; c < 6; c++) {
			mfem::GridFunction g(&fes);
			for (size_t i = 0; i < X.size(); i++) { g[int(i)] = F(c, X[i], int(t)); }
			std::ofstream o(d + "/" + names[c] + ".gf");
			o.precision(17);
			g.Save(o);
		}
	}
}

int main()
{
	vh::Explorer ex;
	// (a) transform of a sample
	for (int n = 0; n <= 3; n++) for (int nf = 0; nf <= 3; nf++) for (double t : { 0.0, 0.5, 3.7, 100.0 }) {
		if (!ex.begin(vh::str("dft ", n, " ", nf, " ", t))) { continue; }
		ex.guarded([&] {
			mfem::Vector g(n);
			for (int i = 0; i < n; i++) { g[i] = 1.5 * i - 1; }
			std::vector<Frequency> f;
			for (int i = 0; i < nf; i++) { f.push_back(0.3 * i * i); }
			auto r = calculateDFT(g, f, t);
			if (!ex.check(int(r.size()) == nf, "number of frequencies")) { return; }
			for (int i = 0; i < nf; i++) {
				if (!ex.check(int(r[i].size()) == n, "number of values")) { return; }
				for (int j = 0; j < n; j++) { ex.step(); ex.check(std::abs(r[i][j] - g[j] * std::exp(cd(0, -2 * M_PI * f[i] * t))) < 1e-12, "transform of value ", j, " at frequency ", f[i]); }
			}
			ex.trace();
		});
	}
	// (b) phase factor at every point of a grid, every angle, points along the observation direction included
	for (int dim = 2; dim <= 3; dim++) for (int it = 0; it < (dim == 2 ? 1 : 9); it++) for (int ip = 0; ip < 16; ip++) for (double f : { 0.01, 0.2, 1.3 }) {
		if (!ex.begin(vh::str("phase ", dim, " ", it, " ", ip, " ", f))) { continue; }
		ex.guarded([&] {
			const double th = dim == 2 ? M_PI_2 : it * M_PI / 8, ph = ip * M_PI / 8;
			const V3 r = rx::rhat(th, ph);
			const SphericalAngles a{ th, ph };
			std::vector<V3> pts;
			for (int i = -3; i <= 3; i++) for (int j = -3; j <= 3; j++) for (int k = (dim == 3 ? -3 : 0); k <= (dim == 3 ? 3 : 0); k++) { pts.push_back({ 0.3 * i, 0.3 * j, 0.3 * k }); }
			for (int i = 1; i <= 40; i++) { pts.push_back((0.07 * i) * r); pts.push_back((-0.07 * i) * r); }
			auto re = dim == 2 ? buildFC_2D(f, a, true) : buildFC_3D(f, a, true);
			auto im = dim == 2 ? buildFC_2D(f, a, false) : buildFC_3D(f, a, false);
			for (auto& p : pts) {
				if (dim == 2) { p[2] = 0; }
				auto v = vec(p, dim);
				const double k = 2 * M_PI * f, arg = k * hx::dot(r, p);
				const double c = dim == 2 ? func_exp_real_part_2D(v, f, a) : func_exp_real_part_3D(v, f, a);
				const double s = dim == 2 ? func_exp_imag_part_2D(v, f, a) : func_exp_imag_part_3D(v, f, a);
				ex.step();
				ex.check(std::abs(c - std::cos(arg)) < 1e-6 * (1 + k) && std::abs(s - std::sin(arg)) < 1e-6 * (1 + k), "phase factor ", c, " ", s, " instead of ", std::cos(arg), " ", std::sin(arg), " at ", p[0], " ", p[1], " ", p[2]);
			}
			// the coefficients used for integration are the same functions
			auto m = dim == 2 ? hx::box(hx::TRI, { 2, 2, 0 }, { 0.6, 0.6, 0.6 }).build() : hx::box(hx::TET, { 1, 1, 1 }, { 0.6, 0.6, 0.6 }).build();
			for (int e = 0; e < m.GetNE(); e++) {
				auto* T = m.GetElementTransformation(e);
				const auto& ir = mfem::IntRules.Get(m.GetElementBaseGeometry(e), 3);
				for (int q = 0; q < ir.GetNPoints(); q++) {
					mfem::Vector x;
					T->SetIntPoint(&ir.IntPoint(q));
					T->Transform(ir.IntPoint(q), x);
					double d = 0;
					for (int i = 0; i < dim; i++) { d += r[i] * x[i]; }
					ex.check(std::abs(re->Eval(*T, ir.IntPoint(q)) - std::cos(2 * M_PI * f * d)) < 1e-5 && std::abs(im->Eval(*T, ir.IntPoint(q)) - std::sin(2 * M_PI * f * d)) < 1e-5, "phase coefficient differs");
				}
			}
			ex.trace();
		});
	}
	// (c) incident pulse
	for (double s : { 0.1, 1.0, 4.0 }) for (double m : { -3.0, 0.0, 2.5 }) for (int n = 0; n <= 4; n++) {
		if (!ex.begin(vh::str("pulse ", s, " ", m, " ", n))) { continue; }
		ex.guarded([&] {
			std::vector<Time> t;
			for (int i = 0; i < n; i++) { t.push_back(1.1 * i); }
			auto r = evaluateGaussianVector(t, s, m);
			if (!ex.check(r.size() == t.size(), "number of values")) { return; }
			for (int i = 0; i < n; i++) { ex.step(); ex.check(vh::close(r[i], std::exp(-std::pow(t[i] - std::abs(m), 2) / (2 * s * s)), 1e-12), "pulse at ", t[i], " is ", r[i]); }
			ex.trace();
		});
	}
	// (d) trimming: all magnitude patterns of up to five frequencies
	for (int n = 0; n <= 5; n++) for (int pat = 0; pat < int(std::pow(4, n)); pat++) {
		if (!ex.begin(vh::str("trim ", n, " ", pat))) { continue; }
		ex.guarded([&] {
			std::map<Frequency, cd> m;
			std::vector<Frequency> f;
			size_t want = 0;
			bool open = true;
			int p = pat;
			for (int i = 0; i < n; i++, p /= 4) {
				const cd v[] = { cd(0.009, 0), cd(0.0, -0.011), cd(-0.008, 0.0075), cd(1e-9, 0.0) };
				f.push_back(0.5 + i);
				m[f.back()] = v[p % 4];
				if (std::abs(v[p % 4]) < 1e-2) { open = false; }
				if (open) { want++; }
			}
			auto g = f;
			trimLowMagFreqs(m, g);
			ex.step();
			if (ex.check(g.size() == want, g.size(), " frequencies kept instead of ", want)) { for (size_t i = 0; i < want; i++) { ex.check(g[i] == f[i], "frequency ", i); } }
			ex.trace();
		});
	}
	// (e) snapshot directories and times: every subset of a set of names
	{
		const std::vector<std::string> dirs{ "p_000000", "p_000002", "p_000010", "p_000100", "mesh", "rcs", "farfield" };
		for (int sub = 0; sub < 1 << dirs.size(); sub++) for (int rev = 0; rev < 2; rev++) {
			if (!ex.begin(vh::str("dirs ", sub, " ", rev))) { continue; }
			ex.guarded([&] {
				hx::Scratch scratch;
				hx::fs::create_directories("d");
				hx::spew("d/p_000001", "file");
				std::vector<std::string> want;
				std::vector<double> times;
				for (size_t k = 0; k < dirs.size(); k++) {
					const size_t i = rev ? dirs.size() - 1 - k : k;
					if (!((sub >> i) & 1)) { continue; }
					hx::spew("d/" + dirs[i] + "/time.txt", vh::str(5.0 - 0.25 * double(i), "\nmore\n"));
				}
				for (size_t i = 0; i < 4; i++) { if ((sub >> i) & 1) { want.push_back(dirs[i]); times.push_back(5.0 - 0.25 * double(i)); } }
				auto got = getSortedSnapshotDirs("d");
				ex.step();
				std::vector<std::string> names;
				for (auto& p : got) { names.push_back(p.filename().string()); }
				ex.check(names == want, "snapshot directories wrong: ", names.size(), " instead of ", want.size());
				auto tv = buildTimeVector("d");
				if (ex.check(tv.size() == times.size(), "number of times")) { for (size_t i = 0; i < times.size(); i++) { ex.check(vh::close(tv[i], times[i], 1e-14), "time ", i, " is ", tv[i]); } }
				bool threw = false;
				try { getTime("d/nowhere/time.txt"); } catch (const mfem::ShimIndexError&) { throw; } catch (const std::exception&) { threw = true; }
				ex.check(threw, "a missing time file gives a time");
				ex.trace();
			});
		}
	}
	// (f) plane-wave description
	{
		const std::vector<V3> dirs{ { 1, 0, 0 }, { -1, 0, 0 }, { 0, 2, 0 }, { 1, 1, 0 }, { 1, -2, 2 } };
		auto arr = [](const V3& v) { return J{ v[0], v[1], v[2] }; };
		for (size_t di = 0; di < dirs.size(); di++) for (int mode = 0; mode < 5; mode++) for (double spread : { 0.2, 1.0 }) for (int freq = 0; freq < 2; freq++) for (int pos = 0; pos < 3; pos++) for (int kind = 0; kind < 3; kind++) {
			// mode: 0 explicit mean, 1 mesh and tags, 2 no mesh directory, 3 no tags, 4 tags marking nothing
			if (kind && mode != 1) { continue; }
			if (!ex.begin(vh::str("wave ", di, " ", mode, " ", spread, " ", freq, " ", pos, " ", kind))) { continue; }
			ex.guarded([&] {
				hx::Scratch scratch;
				J mag{ { "type", freq ? "modulated_gaussian" : "gaussian" }, { "spread", spread } };
				if (freq) { mag["frequency"] = 3e8; }
				const V3 mean{ -1.5, 0.4, 0.3 };
				if (mode == 0) { mag["mean"] = arr(mean); }
				J pwj{ { "type", "planewave" }, { "propagation", arr(dirs[di]) }, { "polarization", { 0, 0, 1 } }, { "magnitude", mag } };
				if (mode != 3) { pwj["tags"] = mode == 4 ? J{ 77 } : J{ 8, 9 }; }
				const J other{ { "type", "initial" }, { "magnitude", { { "spread", 7.0 }, { "mean", { 9, 9, 9 } }, { "frequency", 1e9 } } }, { "propagation", { 0, 0, 1 } } };
				J src = J::array();
				if (pos == 1) { src.push_back(other); }
				src.push_back(pwj);
				if (pos == 2) { src.push_back(other); }
				J j{ { "model", { { "filename", "m.msh" } } }, { "sources", src } };
				const V3 u = hx::unit(dirs[di]);
				const hx::Kind k = kind == 0 ? hx::QUAD : (kind == 1 ? hx::TRI : hx::TET);
				const int dim = hx::kindDim(k);
				const V3 lo{ 0.25, 0.25, 0.25 }, hi{ 0.75, 0.5, 0.75 };
				auto def = hx::box(k, { 4, 4, dim == 3 ? 4 : 0 }, { 1, 1, 1 }, 0, hx::around(dim, lo, hi, 9));
				for (auto& b : def.bdr) { if (b.tag == 9 && def.centre(b.v)[0] > 0.6) { b.tag = 8; } }
				for (auto& v : def.verts) { v = v + V3{ 0.3, -2.0, dim == 3 ? 1.0 : 0.0 }; }
				auto mesh = def.build();
				mesh.Save("m.msh");
				double want;
				if (mode == 0) { want = hx::dot(mean, u); }
				else if (mode == 1 || mode == 4) {
					double mp = 1e300;
					for (auto& b : def.bdr) { if (mode == 1 && (b.tag == 8 || b.tag == 9)) { mp = std::min(mp, hx::dot(def.centre(b.v), u)); } }
					if (mp == 1e300) { mp = 0; }
					want = mp - 5 * spread * std::sqrt(2.0);
				} else { want = -5 * spread * std::sqrt(2.0); }
				auto r = buildPlaneWaveData(j, mode == 2 ? "" : ".");
				ex.step();
				ex.check(vh::close(r.spread, spread, 1e-14), "spread ", r.spread);
				ex.check(vh::close(r.mean, want, 1e-10, 1e-12), "delay ", r.mean, " instead of ", want);
				ex.check(vh::close(r.frequency, freq ? 3e8 / rx::c0 : 0.0, 1e-12) && r.isModulated() == (freq == 1), "carrier ", r.frequency);
				ex.trace();
			});
		}
		for (int n = 0; n < 3; n++) {
			if (!ex.begin(vh::str("no wave ", n))) { continue; }
			ex.guarded([&] {
				J src = J::array();
				for (int i = 0; i < n; i++) { src.push_back({ { "type", i ? "dipole" : "initial" }, { "magnitude", { { "spread", 2.0 } } } }); }
				bool threw = false;
				try { buildPlaneWaveData(J{ { "sources", src } }); } catch (const mfem::ShimIndexError&) { throw; } catch (const std::exception&) { threw = true; }
				ex.step();
				ex.check(threw, "a case without plane wave is given a pulse");
				ex.trace();
			});
		}
	}
	// (g) inner products and markers
	for (int a = 0; a <= 3; a++) for (int b = 0; b <= 3; b++) {
		if (!ex.begin(vh::str("inner ", a, " ", b))) { continue; }
		ex.guarded([&] {
			ComplexVector x, y;
			cd want = 0;
			for (int i = 0; i < a; i++) { x.push_back(cd(i + 1, 0.5 - i)); }
			for (int i = 0; i < b; i++) { y.push_back(cd(0.3 * i, 2.0 - i)); if (i < a) { want += x[i] * y[i]; } }
			bool threw = false;
			cd got = 0;
			try { got = complexInnerProduct(x, y); } catch (const mfem::ShimIndexError&) { throw; } catch (const std::exception&) { threw = true; }
			ex.step();
			if (a != b) { ex.check(threw, "vectors of different length accepted"); } else { ex.check(!threw && std::abs(got - want) < 1e-13, "inner product"); }
			ex.trace();
		});
	}
	for (int n = NTFF; n < NTFF + 4; n++) {
		if (!ex.begin(vh::str("marker ", n))) { continue; }
		ex.guarded([&] { auto m = getNearToFarFieldMarker(n); ex.check(m.Size() == n, "size"); for (int i = 0; i < m.Size(); i++) { ex.check(m[i] == (i == NTFF - 1), "marker ", i); } ex.step(); ex.trace(); });
	}
	// (h) far field of snapshot recordings, and merging over ranks
	{
		struct G { std::string name; rx::Surface s; int order; };
		std::vector<G> gs{
			{ "quad", rx::surface(hx::QUAD, { 3, 1, 0 }, { -0.5, 0, 0 }, { 1, 1, 0 }, 0), 1 },
			{ "tri", rx::surface(hx::TRI, { 2, 1, 0 }, { 0.1, -0.4, 0 }, { 1.1, 0.6, 0 }, 0), 2 },
			{ "hex", rx::surface(hx::HEX, { 2, 1, 1 }, { -0.3, -0.2, 0 }, { 0.7, 0.7, 0.5 }, 0), 1 },
			{ "tet", rx::surface(hx::TET, { 1, 1, 1 }, { -0.3, -0.2, 0 }, { 0.7, 0.7, 0.5 }, 0), 1 } };
		auto F = rx::FieldFn([](int c, const V3& x, int t) { return (0.5 + 0.3 * c - 0.17 * c * c) * (1 + std::sin(1.3 * t + c)) * (1 + 0.3 * x[0]); });
		const rx::Pulse pw{ 0.8, -0.4 };
		const std::vector<double> T{ 0.0, 0.45, 0.9 };
		for (auto& g : gs) for (int basis = 0; basis < 2; basis++) {
			const int dim = g.s.dim(), ne = int(g.s.def.elems.size());
			std::vector<SphericalAngles> as;
			for (double p : { 0.0, 0.3, M_PI_4, M_PI }) { as.push_back({ dim == 2 ? M_PI_2 : 0.3 + 0.5 * p, p }); }
			if (ex.begin(vh::str("potential ", g.name, " ", basis))) {
				ex.guarded([&] {
					hx::Scratch scratch;
					hx::MuteAll mute;
					writeSnapshots("r", g.s, std::vector<int>(ne, 0), 0, g.order, basis, T, F);
					hx::spew("case.json", rx::caseJson(pw, { 1, 0, 0 }));
					std::vector<Frequency> f{ 0.05, 0.2 };
					FarField ff("r", "case.json", f, as);
					auto q = rx::quadrature(g.s);
					for (auto& a : as) for (double x : f) {
						auto w = rx::expected(g.s, q, T, F, x * rx::c0, a.theta, a.phi, pw);
						// this reader always applies the three-dimensional constant
						const double e = dim == 2 ? w.pot / (M_PI * M_PI) : w.pot;
						ex.step();
						ex.check(std::abs(ff.getPotRad(a, x) - e) <= 1e-4 * e + 1e-6 * w.potScale, "potential ", ff.getPotRad(a, x), " instead of ", e);
					}
					ex.trace();
				});
			}
			// every distribution of the elements over up to three ranks (all non-empty ranks present)
			const int cap = ne <= 3 ? 27 : 81;
			for (int i = 0; i < cap; i++) {
				if (ne > 4 && i % 7) { continue; }
				std::vector<int> owner(ne);
				int r = i;
				for (int e = 0; e < ne; e++) { owner[e] = e < 4 ? r % 3 : e % 3; r /= 3; }
				if (basis && i % 5) { continue; }
				if (!ex.begin(vh::str("merge ", g.name, " ", basis, " ", i))) { continue; }
				ex.guarded([&] {
					hx::Scratch scratch;
					hx::MuteAll mute;
					hx::spew("case.json", rx::caseJson(pw, { 1, 0, 0 }));
					std::set<int> rs(owner.begin(), owner.end());
					std::vector<double> fs{ fHz(0.6), fHz(1.2) };
					auto run = [&](const std::string& d) { auto f2 = fs; RCSManager m(d, "case.json", f2, as); };
					auto read = [&](const std::string& d) {
						std::vector<rx::Row> all;
						for (auto& a : as) for (int r = 0; r < 2; r++) { std::vector<rx::Row> rows; ex.check(rx::readRows(rx::fileName(d, r == 1, a.theta, a.phi), rows) && rows.size() == fs.size(), "result file incomplete in ", d); rows.resize(fs.size()); all.insert(all.end(), rows.begin(), rows.end()); }
						return all;
					};
					std::vector<rx::Row> sum;
					for (int r : rs) {
						writeSnapshots(vh::str("one", r, "/rank", r), g.s, owner, r, g.order, basis, T, F);
						run(vh::str("one", r));
						auto v = read(vh::str("one", r));
						if (sum.empty()) { sum = v; } else { for (size_t k = 0; k < v.size(); k++) { sum[k].val += v[k].val; sum[k].nrm += v[k].nrm; } }
						writeSnapshots(vh::str("all/rank", r), g.s, owner, r, g.order, basis, T, F);
					}
					hx::spew("all/rcs/stale.dat", "old\n");
					run("all");
					auto got = read("all");
					size_t k = 0;
					for (auto& a : as) for (int r = 0; r < 2; r++) for (double f : fs) {
						(void)r;
						ex.step();
						ex.check(vh::close(got[k].th, a.theta, 1e-5, 1e-9) && vh::close(got[k].ph, a.phi, 1e-5, 1e-9) && vh::close(got[k].f, f, 1e-5), "row ", k, " labelled ", got[k].th, " ", got[k].ph, " ", got[k].f);
						ex.check(vh::close(got[k].val, sum[k].val, 3e-5) && vh::close(got[k].nrm, sum[k].nrm, 3e-5), "row ", k, ": ", got[k].val, " ", got[k].nrm, " instead of the ranks' sum ", sum[k].val, " ", sum[k].nrm);
						k++;
					}
					ex.check(!hx::fs::exists("all/rcs/stale.dat"), "stale results remain");
					for (int r : rs) { ex.check(!hx::fs::exists(vh::str("all/rank", r, "/rcs")) && hx::fs::exists(vh::str("all/rank", r, "/mesh")), "per-rank intermediate results remain or the recording was removed"); }
					ex.trace();
				});
			}
		}
	}
	// (i) merging result files directly: row counts per rank
	if (&maxwell::writeParallelDataIntoSingleFiles) {
		for (int ranks = 0; ranks <= 3; ranks++) for (int pat = 0; pat < int(std::pow(4, ranks)); pat++) for (int twoFiles = 0; twoFiles < 2; twoFiles++) for (int odd = 0; odd < 3; odd++) {
			if (odd && ranks < 2) { continue; }
			if (!ex.begin(vh::str("files ", ranks, " ", pat, " ", twoFiles, " ", odd))) { continue; }
			ex.guarded([&] {
				hx::Scratch scratch;
				hx::fs::create_directories("c/other");
				std::vector<int> n;
				int p = pat;
				for (int r = 0; r < ranks; r++, p /= 4) { n.push_back(p % 4); }
				for (int r = 0; r < ranks; r++) for (std::string type : { "farfield", "rcs" }) for (int f = 0; f <= twoFiles; f++) {
					std::string s = "head // er\n";
					const bool last = r == ranks - 1;
					if (last && odd == 1 && f == 0) { s = ""; }               // empty file
					else if (last && odd == 2 && f == 0) { s += "0.1 0.2 3\n"; } // malformed row
					else { for (int i = 0; i < n[r]; i++) { s += vh::str(0.1 * (f + 1), " ", 0.2, " ", 100 + i, " ", (r + 1) * (i + 1) + 0.5 * f, " ", 2 * r + 1, "\n"); } }
					hx::spew(vh::str("c/rank", r * 6, "/", type, "/f", f, ".dat"), s);
				}
				bool ok = true;
				try { hx::MuteAll mute; writeParallelDataIntoSingleFiles("c"); } catch (const mfem::ShimIndexError&) { throw; } catch (const std::exception&) { ok = false; }
				bool same = ranks > 0 && odd == 0;
				for (int r = 1; r < ranks; r++) { same = same && n[r] == n[0]; }
				ex.step();
				if (!ex.check(ok == same, ok ? "mismatching files merged" : "matching files refused") || !same) { return; }
				for (std::string type : { "farfield", "rcs" }) for (int f = 0; f <= twoFiles; f++) {
					std::vector<rx::Row> rows;
					if (!ex.check(rx::readRows(vh::str("c/", type, "/f", f, ".dat"), rows) && int(rows.size()) == n[0], "merged rows")) { continue; }
					for (int i = 0; i < n[0]; i++) {
						double v = 0, w = 0;
						for (int r = 0; r < ranks; r++) { v += (r + 1) * (i + 1) + 0.5 * f; w += 2 * r + 1; }
						ex.check(vh::close(rows[i].val, v, 1e-5) && vh::close(rows[i].nrm, w, 1e-5) && vh::close(rows[i].f, 100 + i, 1e-5) && vh::close(rows[i].th, 0.1 * (f + 1), 1e-5), "merged row ", i);
					}
				}
				ex.trace();
			});
		}
	}
	return ex.finish();
}
