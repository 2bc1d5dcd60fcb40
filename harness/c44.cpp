// C44: the exported spatial operator against the derivative the solver computes, for every unit
// state, and against the states recorded by the same run.
#include "ox.hpp"
#include "mpi_sim.hpp"
namespace fs = std::filesystem;

using namespace maxwell;
using hx::V3;
using ox::Mat;
using ox::Vec;

static vh::Explorer ex;

// rows, columns, row starts, column numbers, values: one number per line
static bool readCsr(const std::string& file, Mat& A)
{
	std::ifstream in(file);
	long r = 0, c = 0;
	if (!(in >> r >> c) || r <= 0 || c <= 0) { return false; }
	std::vector<long> I(r + 1);
	for (auto& i : I) { if (!(in >> i)) { return false; } }
	if (I[0] != 0) { return false; }
	for (long i = 0; i < r; i++) { if (I[i + 1] < I[i]) { return false; } }
	std::vector<long> J(I[r]);
	for (auto& j : J) { if (!(in >> j) || j < 0 || j >= c) { return false; } }
	A = Mat::Zero(r, c);
	for (long i = 0; i < r; i++) for (long k = I[i]; k < I[i + 1]; k++) { double v; if (!(in >> v)) { return false; } A(i, J[k]) += v; }
	std::string rest;
	return !(in >> rest);
}

static Sources lump(int dim)
{
	Sources s;
	mfem::Vector zero(dim);
	zero = 0.0;
	s.add(InitialField(Gaussian(0.3, zero, dim), E, mfem::Vector({ 1.0, -0.5, 0.3 }), mfem::Vector({ 0.4, 0.6, 0.5 })));
	s.add(InitialField(Gaussian(0.35, zero, dim), H, mfem::Vector({ 0.2, 0.9, -0.4 }), mfem::Vector({ 0.6, 0.3, 0.5 })));
	return s;
}

int main()
{
	const bool T = ex.thorough();
	struct MeshCase { hx::Kind k; std::array<int, 3> n; double warp; std::vector<int> orders; };
	std::vector<MeshCase> meshes{ { hx::SEG, { 4, 0, 0 }, 0.2, { 1, 2, 3 } }, { hx::TRI, { 2, 1, 0 }, 0.0, { 1, 2 } }, { hx::QUAD, { 2, 2, 0 }, 0.2, { 1, 2 } }, { hx::TET, { 1, 1, 1 }, 0.0, { 1 } }, { hx::HEX, { 2, 1, 1 }, 0.0, { 1 } } };
	const std::vector<BdrCond> bcs{ BdrCond::PEC, BdrCond::PMC, BdrCond::SMA };
	const std::vector<std::map<int, Material>> mats{ {}, { { 1, Material(2.0, 1.3, 0.6) }, { 2, Material(1.0, 2.0, 0.0) } } };
	for (auto& mc : meshes) for (int p : mc.orders) for (double al : { 0.0, 0.4, 1.0 }) for (int b = 0; b < 9; b++) for (size_t mt = 0; mt < mats.size(); mt++) for (int sheet = 0; sheet < 3; sheet++) {
		const int dim = hx::kindDim(mc.k);
		if (!T && dim == 3 && (al == 0.4 || b % 4)) { continue; }
		for (int saves = 1; saves <= 3; saves++) {
		if (saves > 1 && (b || sheet)) { continue; }
		if (!ex.begin(vh::str(hx::kindName(mc.k), " p=", p, " alpha=", al, " ", ox::bcName(bcs[b % 3]), "/", ox::bcName(bcs[b / 3]), mt ? " materials" : "", sheet ? vh::str(" sheet ", ox::bcName(bcs[sheet - 1])) : std::string(), " states ", saves))) { continue; }
		ex.guarded([&] {
			hx::MuteAll mute;
			hx::Scratch scratch;
			const V3 hi{ 1, 1, 1 };
			const int tag = 2 * dim + 1;
			auto def = hx::box(mc.k, mc.n, hi, mc.warp, nullptr, [&](const V3& q) { return mt && q[0] > 0.5 ? 2 : 1; });
			if (sheet) { // one interior face of the mesh
				for (auto& f : def.faceElems()) { if (f.second.size() == 2) { std::vector<int> v; for (auto& lf : hx::localFaces(mc.k)) { std::vector<int> w; for (int i : lf) { w.push_back(def.elems[f.second[0]][i]); } auto sw = w; std::sort(sw.begin(), sw.end()); if (sw == f.first) { v = w; } } def.bdr.push_back({ v, tag }); break; } }
			}
			ox::Cfg c;
			c.order = p; c.alpha = al; c.mats = mats[mt]; c.dt = 0.002;
			for (int t = 1; t <= 2 * dim; t++) { c.outer[t] = bcs[t % 2 ? b % 3 : b / 3]; }
			if (sheet) { c.inner[tag] = bcs[sheet - 1]; }
			const int N = 4;
			auto make = [&](bool exp) {
				auto mesh = def.build();
				auto m = hx::model(mesh, c.outer, c.inner, c.mats);
				auto o = ox::options(c);
				o.setFinalTime(N * c.dt).setExportEO(exp);
				Probes pr;
				MORStateProbe q;
				q.name = "states";
				q.record_time_start = 0.0;
				q.record_time_final = N * c.dt;
				q.saves = saves;
				pr.morStateProbes.push_back(q);
				return std::make_unique<maxwell::Solver>(m, pr, lump(dim), o);
			};
			auto all = [](maxwell::Solver& s) { std::vector<double> r; for (int f = 0; f < 6; f++) { const auto& g = s.getConstField(FieldType(f / 3), f % 3); for (int i = 0; i < g.Size(); i++) { r.push_back(g(i)); } } return r; };
			std::vector<double> plain;
			{
				auto s = make(false);
				for (int i = 0; i < N; i++) { s->step(); }
				plain = all(*s);
				ex.check(!fs::exists("Exports/Operators"), "an operator is exported unasked");
				ex.step(N);
			}
			auto s = make(true);
			Mat A;
			if (!ex.check(readCsr("Exports/Operators/case/case_global.csr", A), "the exported operator cannot be read")) { return; }
			const int n = 6 * s->getFES().GetNDofs();
			if (!ex.check(A.rows() == n && A.cols() == n, "exported ", A.rows(), " by ", A.cols(), " instead of ", n)) { return; }
			Mat B = ox::matrix(*s);
			ex.step(n);
			const double sc = B.cwiseAbs().maxCoeff();
			for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) {
				if (!ex.check(std::abs(A(i, j) - B(i, j)) <= 1e-5 * std::abs(B(i, j)) + 1e-9 * sc, "unit state ", j, " acts on unknown ", i, " as ", B(i, j), ", exported as ", A(i, j))) { return; }
			}
			ex.trace(n);
			// recorded states, multiplied offline
			int k = 0;
			double when = 0;
			for (int st = 0; st <= N; st++) {
				if (st) { s->step(); }
				const std::string f = vh::str("Exports/single-core/case/MORStateProbes/states/x_", k);
				if (k >= saves || !fs::exists(f)) { continue; }
				auto nums = hx::numbers(hx::slurp(f));
				// size then values, possibly after the time of the state
				const bool dated = nums.size() == size_t(n) + 2;
				if (!ex.check((dated && nums[1] == n) || (nums.size() == size_t(n) + 1 && nums[0] == n), "state ", k, " has ", nums.size(), " numbers for ", n, " unknowns")) { return; }
				Vec x(n);
				for (int i = 0; i < n; i++) { x[i] = nums[nums.size() - n + i]; }
				const auto now = all(*s);
				double off = 0;
				for (int i = 0; i < n; i++) { off = std::max(off, std::abs(x[i] - now[i])); }
				ex.check(off < 1e-14, "state ", k, " is off by ", off, " from the fields of step ", st);
				const Vec want = ox::apply(*s, x, s->getTime()), got = A * x;
				// every product loses what its own digits lose
				const Vec room = 1e-5 * (B.cwiseAbs() * x.cwiseAbs()) + Vec::Constant(n, 1e-9 * sc);
				for (int i = 0; i < n; i++) { if (!ex.check(std::abs(got[i] - want[i]) <= room[i], "state ", k, ": the derivative of unknown ", i, " is ", want[i], ", offline ", got[i])) { return; } }
				when = s->getTime();
				k++;
				ex.trace();
			}
			(void) when;
			ex.check(k == saves, k, " states recorded instead of ", saves);
			const auto after = all(*s);
			double off = 0;
			for (size_t i = 0; i < after.size(); i++) { off = std::max(off, std::abs(after[i] - plain[i])); }
			ex.check(after.size() == plain.size() && off == 0.0, "exporting changes the run by ", off);
			ex.state("done");
		});
		}
	}
	// several processes: nothing half-written
	for (int nr = 2; nr <= 3; nr++) {
		if (!ex.begin(vh::str("ranks ", nr))) { continue; }
		ex.guarded([&] {
			hx::MuteAll mute;
			hx::Scratch scratch;
			auto def = hx::box(hx::SEG, { 6, 0, 0 });
			mpisim::runWorld(nr, [&](int) {
				auto mesh = def.build();
				std::vector<int> part;
				for (int e = 0; e < 6; e++) { part.push_back(e * nr / 6); }
				maxwell::Model m(mesh, GeomTagToMaterialInfo(), GeomTagToBoundaryInfo(hx::allOuter(1, BdrCond::PEC), GeomTagToInteriorBoundary{}), part.data());
				m.meshName_ = "case";
				ox::Cfg c;
				auto o = ox::options(c);
				o.setExportEO(true);
				maxwell::Solver s(m, Probes(), lump(1), o);
				s.step();
			});
			ex.step();
			Mat A;
			const std::string f = "Exports/Operators/case/case_global.csr";
			ex.check(!fs::exists(f) || (readCsr(f, A) && A.rows() == 72), "part of an operator is exported as if whole");
			ex.trace();
		});
	}
	return ex.finish();
}
