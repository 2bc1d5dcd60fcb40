// C21: what a run leaves behind. All sequences of up to three runs of two cases with every kind
// of recording, over a populated directory; the whole tree is compared after each run.
#include "hx.hpp"
#include "driver/driver.h"

using namespace maxwell;
using hx::V3;
using Tree = std::map<std::string, std::string>;

enum Rec { EXPORTER, POINT, FIELD, NEAR, SNAPSHOT, STATE, SURFACE, NREC };
static const char* recName[] = { "exporter", "point", "field", "near", "snapshot", "state", "surface" };

struct Run {
	int cas, variant; // variant 0: many records, 1: few
	std::set<int> recs;
	int ranks = 1;
	bool viaDriver = false;
	std::string key() const
	{
		std::string s = vh::str(cas ? "ab" : "a", variant, ranks > 1 ? "x2" : "", viaDriver ? "d" : "");
		for (int r : recs) { s += vh::str("-", recName[r]); }
		return s;
	}
	std::string name() const { return cas ? "alpha2" : "alpha"; }
	std::string mode() const { return ranks > 1 ? vh::str("mpi-", ranks) : "single-core"; }
	std::string base() const { return "Exports/" + mode() + "/" + name() + "/"; }
	std::string place(int r) const
	{
		switch (r) {
		case EXPORTER: return "Exports/ParaView/" + mode() + "/view" + std::to_string(cas) + "/";
		case POINT: return base() + "PointProbes/";
		case FIELD: return base() + "FieldProbes/";
		case NEAR: return base() + "NearToFarFieldProbes/near/";
		case SNAPSHOT: return base() + "DomainSnapshotProbes/";
		case STATE: return base() + "MORStateProbes/states/";
		default: return base() + "RCSSurface/surf/";
		}
	}
	std::string stats() const { return base() + "SimulationStats/"; }
};

static hx::MeshDef def()
{
	const double t = 1.0 / 3;
	auto d = hx::box(hx::QUAD, { 3, 3, 0 }, { 1, 1, 1 }, 0.0, hx::around(2, { t, t, 0 }, { 2 * t, 2 * t, 0 }, 9));
	d.putFirst([&](const V3& x) { return hx::inside(2, x, { t, t, 0 }, { 2 * t, 2 * t, 0 }); });
	return d;
}

static void perform(const Run& r)
{
	const double dt = 0.01;
	const int N = r.variant ? 2 : 5, every = r.variant ? 2 : 1;
	if (r.viaDriver) {
		json j;
		j["model"]["filename"] = r.name() + ".msh";
		j["model"]["materials"] = json::array({ { { "tags", { 1 } } } });
		j["model"]["boundaries"] = json::array({ { { "tags", { 1, 2, 3, 4 } }, { "type", "PEC" } } });
		j["solver_options"] = { { "time_step", dt }, { "final_time", N * dt }, { "order", 1 } };
		j["sources"] = json::array({ { { "type", "initial" }, { "field_type", "electric" }, { "center", { 0.4, 0.6 } }, { "polarization", { 0.0, 0.3, 1.0 } }, { "dimension", 2 }, { "magnitude", { { "type", "gaussian" }, { "spread", 0.2 } } } } });
		json p = json::object();
		for (int x : r.recs) {
			if (x == EXPORTER) { p["exporter"] = { { "name", vh::str("view", r.cas) }, { "steps", every } }; }
			if (x == POINT) { p["point"] = json::array(); for (int i = 0; i < 2 - r.variant; i++) { p["point"].push_back({ { "position", { 0.2 + 0.3 * i, 0.4 } }, { "steps", every } }); } }
			if (x == FIELD) { p["field"] = json::array(); for (int i = 0; i < 2 - r.variant; i++) { p["field"].push_back({ { "field_type", "electric" }, { "polarization", "Z" }, { "position", { 0.2 + 0.3 * i, 0.4 } }, { "steps", every } }); } }
			if (x == STATE) { p["mor_state"] = json::array({ { { "name", "states" }, { "record_time", { { "start", 0.0 }, { "final", N * dt } } }, { "saves", N } } }); }
		}
		j["probes"] = p;
		auto sol = driver::buildSolver(j, "cases/" + r.name() + ".json", false);
		sol.run();
		return;
	}
	auto d = def();
	auto mesh = d.build();
	auto model = hx::model(mesh, hx::allOuter(2, BdrCond::PEC), {}, {}, r.name());
	Sources s;
	mfem::Vector zero(2);
	zero = 0.0;
	s.add(InitialField(Gaussian(0.2 + 0.05 * r.cas, zero, 2), E, mfem::Vector({ 0.1, 0.4, 1.0 }), mfem::Vector({ 0.4, 0.6, 0.5 })));
	Probes p;
	for (int x : r.recs) {
		switch (x) {
		case EXPORTER: { ExporterProbe q; q.name = vh::str("view", r.cas); q.visSteps = every; p.exporterProbes.push_back(q); break; }
		case POINT: for (int i = 0; i < 2 - r.variant; i++) { PointProbe q(maxwell::Point{ 0.2 + 0.3 * i, 0.4 }, every); q.setProbeID(i); p.pointProbes.push_back(q); } break;
		case FIELD: for (int i = 0; i < 2 - r.variant; i++) { FieldProbe q(E, Z, maxwell::Point{ 0.2 + 0.3 * i, 0.4 }, every); q.setProbeID(i); p.fieldProbes.push_back(q); } break;
		case NEAR: { NearFieldProbe q; q.name = "near"; q.expSteps = every; q.tags = { 9 }; p.nearFieldProbes.push_back(q); break; }
		case SNAPSHOT: { DomainSnapshotProbe q; q.expSteps = every; p.domainSnapshotProbes.push_back(q); break; }
		case STATE: { MORStateProbe q; q.name = "states"; q.record_time_start = 0; q.record_time_final = N * dt; q.saves = N; p.morStateProbes.push_back(q); break; }
		default: { RCSSurfaceProbe q; q.name = "surf"; q.expSteps = every; q.tags = { 9 }; p.rcsSurfaceProbes.push_back(q); }
		}
	}
	SolverOptions o;
	o.setOrder(1).setFinalTime(N * dt).setTimeStep(dt);
	maxwell::Solver sol(model, p, s, o);
	sol.run();
}

static void inWorld(const Run& r)
{
	if (r.ranks == 1) { perform(r); return; }
	mpisim::runWorld(r.ranks, [&](int) { perform(r); });
}

static bool below(const std::string& p, const std::string& dir) { return p.compare(0, dir.size(), dir) == 0; }
// statistics contain run times and memory: only which figures are reported is compared
static std::string labels(const std::string& s) { std::string r; for (auto& l : hx::lines(s)) { r += l.substr(0, l.find(':')) + "\n"; } return r; }

static void populate()
{
	// things that are nobody's business, some of them next to the outputs or named alike
	for (auto f : { "notes.txt", "Exports/readme", "Exports/single-core/other/PointProbes/PointProbe0.dat", "Exports/single-core/alpha22/DomainSnapshotProbes/rank_0/cycle_000000/Ex.gf",
			"Exports/single-core/alpha/mine.txt", "Exports/single-core/alpha/PointProbes2/x", "Exports/single-core/alpha/MORStateProbes/other/x_0", "Exports/single-core/alpha/NearToFarFieldProbes/other/rank0/mesh",
			"Exports/single-core/alpha2/RCSSurface/other/rank0/surface_data.bin", "Exports/mpi-3/alpha/FieldProbes/FieldProbe0.dat", "Exports/ParaView/single-core/other/Cycle000000/data", "alpha/PointProbes/a", "PointProbes/b", "FieldProbes/c" }) { hx::spew(f, std::string("kept ") + f); }
	for (auto n : { "alpha", "alpha2" }) { hx::spew(vh::str("cases/", n, ".msh"), hx::gmsh(def())); }
}

int main()
{
	vh::Explorer ex;
	std::map<std::string, Tree> alone;
	auto reference = [&](const Run& r) -> const Tree& {
		auto& t = alone[r.key()];
		if (t.empty()) {
			hx::Scratch s;
			hx::MuteAll mute;
			for (auto n : { "alpha", "alpha2" }) { hx::spew(vh::str("cases/", n, ".msh"), hx::gmsh(def())); }
			inWorld(r);
			t = hx::tree(".");
		}
		return t;
	};
	auto sequence = [&](const std::vector<Run>& runs) {
		std::string key;
		for (auto& r : runs) { key += (key.empty() ? "" : " > ") + r.key(); }
		if (!ex.begin(key)) { return; }
		ex.guarded([&] {
			hx::Scratch dir;
			hx::MuteAll mute;
			populate();
			Tree before = hx::tree(".");
			for (size_t i = 0; i < runs.size(); i++) {
				const auto& r = runs[i];
				auto ref = reference(r);
				inWorld(r);
				ex.step();
				Tree now = hx::tree(".");
				std::vector<std::string> places;
				for (int x : r.recs) { places.push_back(r.place(x)); }
				auto recorded = [&](const std::string& p) { for (auto& q : places) { if (below(p, q)) { return true; } } return false; };
				auto parent = [&](const std::string& p) { for (auto& q : places) { if (below(q, p)) { return true; } } return below(r.stats(), p); };
				for (auto& [p, c] : before) {
					// reading a case tidies its mesh file, which is judged elsewhere
					if (recorded(p) || below(p, r.stats()) || (r.viaDriver && p == "cases/" + r.name() + ".msh")) { continue; }
					auto it = now.find(p);
					if (!ex.check(it != now.end(), "run ", i, " removed ", p)) { continue; }
					ex.check(it->second == c, "run ", i, " changed ", p);
				}
				for (auto& [p, c] : now) {
					if (before.count(p) || recorded(p) || below(p, r.stats())) { continue; }
					ex.check(p.back() == '/' && parent(p), "run ", i, " created ", p);
				}
				for (int x : r.recs) {
					const auto q = r.place(x);
					for (auto& [p, c] : ref) {
						if (!below(p, q)) { continue; }
						auto it = now.find(p);
						if (!ex.check(it != now.end(), "run ", i, " left no ", p)) { continue; }
						ex.check(it->second == c, "run ", i, ": ", p, " differs from what the run alone writes");
					}
					// a visualisation directory may keep cycles it no longer refers to
					if (x != EXPORTER) { for (auto& [p, c] : now) { if (below(p, q)) { ex.check(ref.count(p), "after run ", i, " ", p, " of an earlier run is still there"); } } }
					ex.check(std::any_of(ref.begin(), ref.end(), [&](auto& e) { return below(e.first, q) && e.first.back() != '/'; }), "nothing recorded in ", q);
				}
				if (r.viaDriver) {
					for (auto& [p, c] : now) { if (below(p, r.stats()) && p.back() != '/') { ex.check(ref.count(p) && labels(ref[p]) == labels(c), "statistics ", p, " hold figures of an earlier run"); } }
				}
				ex.state(vh::str(key, i));
				before = now;
			}
			ex.trace();
		});
	};

	std::vector<std::set<int>> sets;
	for (int i = 0; i < NREC; i++) { sets.push_back({ i }); }
	sets.push_back({ EXPORTER, POINT, FIELD, NEAR, SNAPSHOT, STATE, SURFACE });
	std::vector<Run> types;
	for (auto& s : sets) for (int c = 0; c < 2; c++) for (int v = 0; v < 2; v++) { types.push_back({ c, v, s }); }
	for (auto& a : types) { sequence({ a }); for (auto& b : types) { sequence({ a, b }); } }
	for (auto& a : types) for (auto& b : types) for (auto& c : types) { if ((a.recs == b.recs && b.recs == c.recs) || (ex.thorough() && a.cas == b.cas && a.variant != c.variant)) { sequence({ a, b, c }); } }

	// through case files, every subset of the recordings they are given for
	std::vector<Run> dr;
	for (int m = 0; m < 16; m++) {
		std::set<int> s;
		const int kinds[] = { EXPORTER, POINT, FIELD, STATE };
		for (int b = 0; b < 4; b++) { if (m >> b & 1) { s.insert(kinds[b]); } }
		for (int c = 0; c < 2; c++) for (int v = 0; v < 2; v++) { Run r{ c, v, s }; r.viaDriver = true; dr.push_back(r); }
	}
	for (auto& a : dr) { sequence({ a }); for (auto& b : dr) { if (ex.thorough() || a.recs == b.recs || a.recs.size() == 4 || b.recs.size() == 4) { sequence({ a, b }); } } }

	// one and two processes
	std::vector<Run> pr;
	for (int ranks = 1; ranks <= 2; ranks++) for (int c = 0; c < 2; c++) for (int v = 0; v < 2; v++) for (int d = 0; d < 2; d++) {
		Run r{ c, v, { EXPORTER, POINT, FIELD } };
		if (!d) { r.recs.insert(SNAPSHOT); }
		r.ranks = ranks;
		r.viaDriver = d;
		pr.push_back(r);
	}
	for (auto& a : pr) for (auto& b : pr) {
		sequence({ a, b });
		for (auto& c : pr) { if (a.viaDriver == b.viaDriver && b.viaDriver == c.viaDriver) { sequence({ a, b, c }); } }
	}
	return ex.finish();
}
