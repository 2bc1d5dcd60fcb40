// C16: recording schedule of every probe kind, for all intervals / save counts / run lengths.
#include "hx.hpp"
#include "solver/Solver.h"

using namespace maxwell;

struct Want { int steps = 0, saves = 0; };
enum PK { FIELD, POINT, EXPO, NEAR, SNAP, SURF, NPK };
static const char* PN[] = { "field", "point", "exporter", "near", "snapshot", "surface" };

static std::vector<int> cycleDirs(const std::string& dir, const std::string& prefix)
{
	std::vector<int> r;
	if (!hx::fs::exists(dir)) { return r; }
	for (auto& e : hx::fs::directory_iterator(dir)) {
		const auto n = e.path().filename().string();
		if (e.is_directory() && n.rfind(prefix, 0) == 0) { r.push_back(std::stoi(n.substr(prefix.size()))); }
	}
	std::sort(r.begin(), r.end());
	return r;
}

int main()
{
	vh::Explorer ex;
	const hx::V3 lo{ 1.0 / 3, 1.0 / 3, 0 }, hi{ 2.0 / 3, 2.0 / 3, 0 };
	auto def = hx::box(hx::QUAD, { 3, 3, 0 }, { 1, 1, 1 }, 0.0, hx::around(2, lo, hi, 7));
	const int maxN = ex.thorough() ? 9 : 6;

	double step0 = 0.01;   // the step asked for, in several units of length
	// kinds: one kind alone or all together; i-th probe of a kind uses want[i]
	auto explore = [&](const std::string& key, std::vector<PK> kinds, const std::vector<Want>& want, int N, double frac, bool autoDt) {
		if (!ex.begin(key)) { return; }
		ex.guarded([&] {
			hx::Scratch scratch;
			hx::MuteAll mute;
			auto mesh = def.build();
			auto model = hx::model(mesh, hx::allOuter(2, BdrCond::PEC));
			Sources s;
			s.add(InitialField(Gaussian(0.2, mfem::Vector({ 0.0, 0.0 }), 2), E, mfem::Vector({ 0.0, 0.0, 1.0 }), mfem::Vector({ 0.4, 0.6, 0.0 })));
			SolverOptions o;
			o.setOrder(1);
			double dt = step0;
			if (autoDt) {
				o.setFinalTime(0.0);
				auto m2 = hx::model(mesh, hx::allOuter(2, BdrCond::PEC));
				maxwell::Solver probe(m2, Probes(), s, o);
				dt = probe.getTimeStep();
			}
			else { o.setTimeStep(dt); }
			const double tf = dt * (N - frac);
			o.setFinalTime(tf);
			Probes p;
			for (PK k : kinds) for (size_t i = 0; i < want.size(); i++) {
				const auto& w = want[i];
				const std::string name = vh::str(PN[k], i);
				switch (k) {
				case FIELD: { FieldProbe q(E, Z, { 0.5, 0.4 + 0.1 * i }, w.steps ? w.steps : 10); q.setSaves(w.saves); q.setProbeID(i); p.fieldProbes.push_back(q); break; }
				case POINT: { PointProbe q({ 0.5, 0.4 + 0.1 * i }, w.steps ? w.steps : 10); q.setSaves(w.saves); q.setProbeID(i); p.pointProbes.push_back(q); break; }
				case EXPO: { ExporterProbe q; q.name = name; if (w.steps) { q.visSteps = w.steps; } q.saves = w.saves; p.exporterProbes.push_back(q); break; }
				case NEAR: { NearFieldProbe q; q.name = name; if (w.steps) { q.expSteps = w.steps; } q.saves = w.saves; q.tags = { 7 }; p.nearFieldProbes.push_back(q); break; }
				case SNAP: { DomainSnapshotProbe q; q.name = name; if (w.steps) { q.expSteps = w.steps; } q.saves = w.saves; p.domainSnapshotProbes.push_back(q); break; }
				default: { RCSSurfaceProbe q; q.name = name; if (w.steps) { q.expSteps = w.steps; } q.saves = w.saves; q.tags = { 7 }; p.rcsSurfaceProbes.push_back(q); break; }
				}
			}
			std::vector<FieldMovie> fm;
			std::vector<FieldMovies> pm;
			{
				maxwell::Solver sol(model, p, s, o);
				sol.run();
				ex.step(N);
				for (size_t i = 0; i < p.fieldProbes.size(); i++) { fm.push_back(sol.getFieldProbe(i).getFieldMovie()); }
				for (size_t i = 0; i < p.pointProbes.size(); i++) { pm.push_back(sol.getPointProbe(i).getFieldMovies()); }
			}
			for (PK k : kinds) for (size_t i = 0; i < want.size(); i++) {
				const int interval = want[i].saves > 0 ? std::max(1, N / want[i].saves) : want[i].steps;
				std::vector<int> cyc;
				for (int c = 0; c <= N; c++) { if (c % interval == 0 || c == N) { cyc.push_back(c); } }
				std::vector<double> tw;
				for (int c : cyc) { tw.push_back(c == N ? tf : c * dt); }
				const std::string name = vh::str(PN[k], i);
				auto cmpTimes = [&](const std::vector<double>& t, double tol, const char* what) {
					if (!ex.check(t.size() == tw.size(), name, " ", what, ": ", t.size(), " records instead of ", tw.size(), " (interval ", interval, ", ", N, " steps)")) { return; }
					for (size_t j = 0; j < t.size(); j++) { ex.check(std::abs(t[j] - tw[j]) <= tol * std::max(tf, dt), name, " ", what, ": record ", j, " at ", t[j], " instead of ", tw[j]); }
				};
				if (want[i].saves > 0 && N >= want[i].saves) { ex.check(int(cyc.size()) >= want[i].saves, "model: too few records"); }
				switch (k) {
				case FIELD: case POINT: {
					std::vector<double> t, r;
					if (k == FIELD) { for (auto& m : fm[i]) { t.push_back(m.first); } } else { for (auto& m : pm[i]) { t.push_back(m.first); } }
					cmpTimes(t, 1e-12, "record");
					auto L = hx::lines(hx::slurp(vh::str("Exports/single-core/case/", k == FIELD ? "FieldProbes/FieldProbe" : "PointProbes/PointProbe", i, ".dat")));
					for (size_t j = 4; j < L.size(); j++) { auto v = hx::numbers(L[j]); ex.check(v.size() == (k == FIELD ? 2u : 7u), name, ": row with ", v.size(), " columns"); if (!v.empty()) { r.push_back(v[0] * 299792458.0); } }
					cmpTimes(r, 1e-5, "file");
					break;
				}
				case EXPO: { auto c = cycleDirs("Exports/ParaView/single-core/" + name, "Cycle"); ex.check(c == cyc, name, ": ", c.size(), " saved cycles instead of ", cyc.size()); break; }
				case NEAR: {
					const std::string d = "Exports/single-core/case/NearToFarFieldProbes/" + name + "/rank0/";
					auto c = cycleDirs(d, name + "_");
					ex.check(c == cyc, name, ": ", c.size(), " saved cycles instead of ", cyc.size());
					std::vector<double> t;
					for (int q : c) { char b[16]; std::snprintf(b, sizeof b, "%06d", q); t.push_back(std::strtod(hx::slurp(d + name + "_" + b + "/time.txt").c_str(), nullptr)); }
					cmpTimes(t, 1e-5, "time");
					break;
				}
				case SNAP: {
					const std::string d = "Exports/single-core/case/DomainSnapshotProbes/rank_0/";
					auto c = cycleDirs(d, "cycle_");
					ex.check(c == cyc, name, ": ", c.size(), " saved cycles instead of ", cyc.size());
					std::vector<double> t;
					for (int q : c) { char b[16]; std::snprintf(b, sizeof b, "%06d", q); t.push_back(std::strtod(hx::slurp(d + "cycle_" + b + "/time.txt").c_str(), nullptr)); }
					cmpTimes(t, 1e-5, "time");
					break;
				}
				default: {
					auto f = hx::readSurface(hx::slurp("Exports/single-core/case/RCSSurface/" + name + "/rank0/surface_data.bin"));
					ex.check(f.ok && f.trailing == 0, name, ": malformed recording");
					std::vector<double> t;
					for (auto& r : f.recs) { t.push_back(r.t); }
					cmpTimes(t, 1e-12, "record");
				}
				}
				ex.trace();
			}
		});
	};
	for (int k = 0; k < NPK; k++) for (int N = 0; N <= maxN; N++) for (double frac : { 0.0, 0.6 }) {
		if (N == 0 && frac > 0) { continue; }
		for (int st = 1; st <= maxN + 1; st++) { explore(vh::str(PN[k], " N=", N, " f=", frac, " steps=", st), { PK(k) }, { Want{ st, 0 } }, N, frac, false); }
		for (int sv = 1; sv <= maxN + 3; sv++) { if (N > 0) { explore(vh::str(PN[k], " N=", N, " f=", frac, " saves=", sv), { PK(k) }, { Want{ 0, sv } }, N, frac, false); } }
	}
	// automatic step: the interval follows the step actually used
	for (int k = 0; k < NPK; k++) for (int N : { 3, 5, 6 }) for (int sv : { 1, 2, 3, 4 }) { explore(vh::str(PN[k], " auto N=", N, " saves=", sv), { PK(k) }, { Want{ 0, sv } }, N, 0.3, true); }
	// two probes per kind, all pairs of cadences
	for (int k = 0; k < NPK; k++) {
		if (k == SNAP) { continue; } // one per case
		for (int a = 1; a <= 4; a++) for (int b = 1; b <= 4; b++) for (int mode = 0; mode < 2; mode++) {
			explore(vh::str(PN[k], " pair ", a, mode ? "s," : ",", b), { PK(k) }, { Want{ a, 0 }, mode ? Want{ 0, b } : Want{ b, 0 } }, 5, 0.0, false);
		}
	}
	// all kinds together
	for (int N = 1; N <= maxN; N++) for (int st = 1; st <= 4; st++) for (int mode = 0; mode < 2; mode++) {
		explore(vh::str("all N=", N, mode ? " saves=" : " steps=", st), { FIELD, POINT, EXPO, NEAR, SNAP, SURF }, { mode ? Want{ 0, st } : Want{ st, 0 } }, N, 0.0, false);
	}
	// very short and very long steps
	for (double u : { 1e-10, 1e-6, 1e3 }) for (int k = 0; k < NPK; k++) for (int N = 1; N <= maxN; N++) for (double frac : { 0.0, 0.6 }) for (int st = 2; st <= 4; st++) {
		step0 = u;
		explore(vh::str(PN[k], " unit ", u, " N=", N, " f=", frac, " steps=", st), { PK(k) }, { Want{ st, 0 } }, N, frac, false);
	}
	return ex.finish();
}
