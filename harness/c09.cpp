// C09: probe declarations. All choices of up to two entries per kind, every cadence choice and
// a grid of run lengths, against the declaration.
#include "hx.hpp"
#include "driver/driver.h"

using namespace maxwell;

// cadence choices: default, explicit interval, number of saves
static const std::vector<std::pair<int, int>> cadences{ { 0, 0 }, { 1, 1 }, { 1, 3 }, { 1, 40 }, { 2, 1 }, { 2, 2 }, { 2, 3 }, { 2, 7 }, { 2, 1000 } };

static void put(json& e, int c)
{
	if (cadences[c].first == 1) { e["steps"] = cadences[c].second; }
	if (cadences[c].first == 2) { e["saves"] = cadences[c].second; }
}
// the interval the declaration asks for (two values when the run length is a rounding tie)
static std::set<int> interval(int c, double tf, double dt)
{
	if (cadences[c].first == 0) { return { 1 }; }
	if (cadences[c].first == 1) { return { cadences[c].second }; }
	if (dt <= 0) { return { 1 }; }
	std::set<int> r;
	for (double e : { -1e-9, 1e-9 }) { r.insert(std::max(1, int(std::ceil(tf / dt * (1 + e))) / cadences[c].second)); }
	return r;
}
static int saves(int c) { return cadences[c].first == 2 ? cadences[c].second : 0; }

int main()
{
	vh::Explorer ex;
	const std::vector<std::vector<double>> pos{ { 0.25 }, { 0.5, -1.5 }, { 1.0, 2.0, 3.0 } };
	const char* pols[] = { "X", "Y", "Z" };
	const char* fts[] = { "electric", "magnetic" };
	const int NC = int(cadences.size());

	// explore one whole declaration and compare everything
	struct Decl { int exporter = -1, snapshot = -1; bool exName = false, snName = false; std::vector<std::array<int, 2>> points; std::vector<std::array<int, 4>> fields; std::vector<std::array<int, 3>> nears, surfs; std::vector<std::array<int, 2>> mors; };
	auto run = [&](const std::string& key, const Decl& d, double tf, double dt, int timing) {
		if (!ex.begin(key)) { return; }
		ex.guarded([&] {
			json j;
			j["model"]["filename"] = "mesh.msh";
			// timing: 0 both given, 1 no time step (automatic), 2 no final time, 3 no options at all
			double T = tf, h = dt;
			if (timing == 0 || timing == 1) { j["solver_options"]["final_time"] = tf; } else { T = 2.0; }
			if (timing == 0 || timing == 2) { j["solver_options"]["time_step"] = dt; } else { h = 0.0; }
			j["probes"] = json::object();
			auto& p = j["probes"];
			if (d.exporter >= 0) { p["exporter"] = json::object(); put(p["exporter"], d.exporter); if (d.exName) { p["exporter"]["name"] = "view"; } }
			if (d.snapshot >= 0) { p["domain_snapshot"] = json::object(); put(p["domain_snapshot"], d.snapshot); if (d.snName) { p["domain_snapshot"]["name"] = "snap"; } }
			for (auto& e : d.points) { json q; q["position"] = pos[e[0]]; put(q, e[1]); p["point"].push_back(q); }
			for (auto& e : d.fields) { json q; q["field_type"] = fts[e[0]]; q["polarization"] = pols[e[1]]; q["position"] = pos[e[2]]; put(q, e[3]); p["field"].push_back(q); }
			const std::vector<std::vector<int>> tags{ { 4 }, { 9, 2 }, { 1, 2, 3 } };
			for (size_t s = 0; s < 2; s++) for (size_t i = 0; i < (s ? d.surfs : d.nears).size(); i++) {
				auto& e = (s ? d.surfs : d.nears)[i];
				json q;
				q["tags"] = tags[e[1]];
				if (e[0]) { q["name"] = vh::str("name", s, i); }
				put(q, e[2]);
				p[s ? "rcssurface" : "farfield"].push_back(q);
			}
			for (size_t i = 0; i < d.mors.size(); i++) {
				json q;
				if (d.mors[i][0] & 1) { q["name"] = vh::str("mor", i); }
				if (d.mors[i][0] & 2) { q["record_time_start"] = 0.3 + i; }
				if (d.mors[i][0] & 4) { q["record_time_final"] = 1.7 + i; }
				if (d.mors[i][0] & 8) { q["saves"] = 3 + int(i); }
				p["mor_state"].push_back(q);
			}
			const auto r = driver::buildProbes(j);
			ex.check(r.exporterProbes.size() == size_t(d.exporter >= 0), "exporter count");
			ex.check(r.domainSnapshotProbes.size() == size_t(d.snapshot >= 0), "snapshot count");
			ex.check(r.pointProbes.size() == d.points.size(), "point probe count ", r.pointProbes.size());
			ex.check(r.fieldProbes.size() == d.fields.size(), "field probe count ", r.fieldProbes.size());
			ex.check(r.nearFieldProbes.size() == d.nears.size(), "near field probe count ", r.nearFieldProbes.size());
			ex.check(r.rcsSurfaceProbes.size() == d.surfs.size(), "surface probe count ", r.rcsSurfaceProbes.size());
			ex.check(r.morStateProbes.size() == d.mors.size(), "state probe count ", r.morStateProbes.size());
			if (ex.failed()) { return; }
			auto cad = [&](const char* what, int c, int got, int gotSaves) {
				ex.check(interval(c, T, h).count(got), what, " interval ", got, " for cadence ", c, " T=", T, " dt=", h);
				ex.check(gotSaves == saves(c), what, " save count ", gotSaves);
			};
			if (d.exporter >= 0) { cad("exporter", d.exporter, r.exporterProbes[0].visSteps, r.exporterProbes[0].saves); if (d.exName) { ex.check(r.exporterProbes[0].name == "view", "exporter name"); } else { ex.check(r.exporterProbes[0].name.rfind("mesh", 0) == 0, "exporter default name"); } }
			if (d.snapshot >= 0) { cad("snapshot", d.snapshot, r.domainSnapshotProbes[0].expSteps, r.domainSnapshotProbes[0].saves); if (d.snName) { ex.check(r.domainSnapshotProbes[0].name == "snap", "snapshot name"); } }
			std::set<size_t> ids;
			for (size_t i = 0; i < d.points.size(); i++) {
				auto& q = r.pointProbes[i];
				cad("point", d.points[i][1], q.getVisSteps(), q.getSaves());
				ex.check(q.getPoint() == pos[d.points[i][0]], "point probe position");
				ex.check(ids.insert(q.getProbeID()).second && q.getProbeID() == i, "point probe number");
				ex.check(q.write, "point probe does not write");
			}
			ids.clear();
			for (size_t i = 0; i < d.fields.size(); i++) {
				auto& q = r.fieldProbes[i];
				auto& e = d.fields[i];
				cad("field", e[3], q.getVisSteps(), q.getSaves());
				ex.check(q.getPoint() == pos[e[2]] && q.getFieldType() == (e[0] ? H : E) && q.getDirection() == e[1], "field probe declared otherwise");
				ex.check(ids.insert(q.getProbeID()).second && q.getProbeID() == i, "field probe number");
				ex.check(q.write, "field probe does not write");
			}
			for (size_t i = 0; i < d.nears.size(); i++) { auto& q = r.nearFieldProbes[i]; cad("near field", d.nears[i][2], q.expSteps, q.saves); ex.check(q.tags == tags[d.nears[i][1]], "near field tags"); if (d.nears[i][0]) { ex.check(q.name == vh::str("name0", i), "near field name"); } }
			for (size_t i = 0; i < d.surfs.size(); i++) { auto& q = r.rcsSurfaceProbes[i]; cad("surface", d.surfs[i][2], q.expSteps, q.saves); ex.check(q.tags == tags[d.surfs[i][1]], "surface tags"); if (d.surfs[i][0]) { ex.check(q.name == vh::str("name1", i), "surface name"); } }
			for (size_t i = 0; i < d.mors.size(); i++) {
				auto& q = r.morStateProbes[i];
				const int m = d.mors[i][0];
				ex.check(q.name == (m & 1 ? vh::str("mor", i) : "MORState") && q.record_time_start == (m & 2 ? 0.3 + i : 0.0) && q.record_time_final == (m & 4 ? 1.7 + i : 0.0) && q.saves == (m & 8 ? 3 + int(i) : 10), "state probe declared otherwise");
			}
			ex.step(); ex.trace();
		});
	};
	const std::vector<double> tfs{ 0.0, 0.3, 1.0, 1.1, 2.0, 7.0, 30.0 }, dts{ 0.1, 0.01, 0.3, 0.007, 1.0, 0.25 };
	// every kind x cadence x run length x time step
	for (int timing = 0; timing < 4; timing++) for (double tf : tfs) for (double dt : dts) for (int c = 0; c < NC; c++) {
		if (timing == 3 && (tf != tfs[0] || dt != dts[0])) { continue; }
		Decl d;
		d.exporter = c; d.snapshot = c; d.points = { { 0, c } }; d.fields = { { 1, 2, 1, c } }; d.nears = { { 1, 1, c } }; d.surfs = { { 1, 2, c } };
		run(vh::str("cadence ", c, " T=", tf, " dt=", dt, " timing ", timing), d, tf, dt, timing);
	}
	// all combinations of up to two entries per kind, all declarations
	for (int a = -1; a < NC; a++) for (int b = -1; b < NC; b++) for (int n = 0; n < 4; n++) {
		Decl d; d.exporter = a; d.snapshot = b; d.exName = n & 1; d.snName = n & 2;
		run(vh::str("single ", a, " ", b, " ", n), d, 2.0, 0.01, 0);
	}
	for (int a = -1; a < NC * 3; a++) for (int b = 0; b < NC * 3; b++) {
		Decl d;
		if (a >= 0) { d.points.push_back({ a / NC, a % NC }); }
		d.points.push_back({ b / NC, b % NC });
		run(vh::str("points ", a, " ", b), d, 2.0, 0.01, 0);
	}
	for (int a = -1; a < 18; a++) for (int b = 0; b < 18; b++) for (int c = 0; c < NC; c++) {
		Decl d;
		if (a >= 0) { d.fields.push_back({ a / 9, a / 3 % 3, a % 3, (c + 1) % NC }); }
		d.fields.push_back({ b / 9, b / 3 % 3, b % 3, c });
		run(vh::str("fields ", a, " ", b, " ", c), d, 2.0, 0.01, 0);
	}
	for (int s = 0; s < 2; s++) for (int a = -1; a < 6 * NC; a++) for (int b = 0; b < 6 * NC; b++) {
		Decl d;
		auto& v = s ? d.surfs : d.nears;
		if (a >= 0) { v.push_back({ a / (3 * NC), a / NC % 3, a % NC }); }
		v.push_back({ b / (3 * NC), b / NC % 3, b % NC });
		run(vh::str(s ? "surfaces " : "nears ", a, " ", b), d, 2.0, 0.01, 0);
	}
	for (int a = -1; a < 16; a++) for (int b = 0; b < 16; b++) {
		Decl d;
		if (a >= 0) { d.mors.push_back({ a, 0 }); }
		d.mors.push_back({ b, 0 });
		run(vh::str("states ", a, " ", b), d, 2.0, 0.01, 0);
	}
	// kinds side by side
	hx::tuples({ 2, 2, 3, 3, 3, 3, 3, NC }, [&](const std::vector<int>& t) {
		Decl d;
		const int c = t[7];
		if (t[0]) { d.exporter = c; }
		if (t[1]) { d.snapshot = (c + 1) % NC; }
		for (int i = 0; i < t[2]; i++) { d.points.push_back({ (i + 1) % 3, (c + i) % NC }); }
		for (int i = 0; i < t[3]; i++) { d.fields.push_back({ i % 2, (i + 2) % 3, i % 3, (c + 2 * i) % NC }); }
		for (int i = 0; i < t[4]; i++) { d.nears.push_back({ 1, (i + 1) % 3, (c + 3) % NC }); }
		for (int i = 0; i < t[5]; i++) { d.surfs.push_back({ 1, (i + 2) % 3, (c + 4) % NC }); }
		for (int i = 0; i < t[6]; i++) { d.mors.push_back({ 15 - i, 0 }); }
		run(vh::str("kinds ", t[0], t[1], t[2], t[3], t[4], t[5], t[6], " ", c), d, 2.0, 0.01, 0);
	});
	return ex.finish();
}
