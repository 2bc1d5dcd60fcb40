// C25: post-processing requests: every step count, probe list and optional entry.
#include "rx.hpp"
#include "driver/rcs_driver.h"
#include "components/FarField.h"
#include <nlohmann/json.hpp>

using namespace maxwell;
using hx::V3;
using J = nlohmann::json;

static const int NTFF = static_cast<int>(BdrCond::NearToFarField);
static double fHz(double k) { return k * rx::c0 / (2 * M_PI); }
static std::vector<double> grid(double a, double b, int n) { std::vector<double> r; for (int i = 0; i < n; i++) { r.push_back(n == 1 ? a : a + (b - a) * i / (n - 1)); } return r; }

int main()
{
	vh::Explorer ex;
	struct G { std::string name; rx::Surface s; int order; };
	std::vector<G> gs{
		{ "quad", rx::surface(hx::QUAD, { 1, 1, 0 }, { -0.5, 0, 0 }, { 1, 1, 0 }, 0), 1 },
		{ "hex", rx::surface(hx::HEX, { 1, 1, 1 }, { -0.3, -0.2, 0 }, { 0.7, 0.7, 0.5 }, 0), 1 } };
	const rx::Pulse pw{ 0.8, -0.4 };
	const std::vector<double> T{ 0.0, 0.4, 0.9, 1.3 };
	auto field = [](int probe) { return rx::FieldFn([probe](int c, const V3& x, int t) { return (0.5 + 0.3 * c - 0.17 * c * c) * (1 + std::sin(1.3 * t + c + probe)) * (1 + 0.3 * x[0]); }); };
	auto caseJ = [&](const J& probes) { auto j = J::parse(rx::caseJson(pw, { 1, 0, 0 })); if (!probes.is_null()) { j["probes"] = probes; } return j; };
	auto prepare = [&](const G& g, const std::string& mode, const std::string& name, const J& probes, const std::vector<std::string>& dirs) {
		hx::spew("testData/maxwellInputs/" + name + "/" + name + ".json", caseJ(probes).dump());
		for (size_t i = 0; i < dirs.size(); i++) { rx::writeRanks("Exports/" + mode + "/" + name + "/RCSSurface/" + dirs[i], g.s, std::vector<int>(g.s.def.elems.size(), 0), g.order, 1, T, field(int(i)), NTFF); }
	};
	auto request = [&](const std::string& mode, const std::string& name, V3 f, V3 th, V3 ph) {
		auto r = [](const V3& a) { return J{ { "start", a[0] }, { "end", a[1] }, { "steps", int(a[2]) } }; };
		return J{ { "runmode", mode }, { "casename", name }, { "frequencies", r(f) }, { "angles", { { "theta", r(th) }, { "phi", r(ph) } } } };
	};
	auto call = [&](const J& q, std::string& err) {
		hx::MuteAll mute;
		hx::spew("request.json", q.dump());
		try { driver::runRCSPostProcessing("request.json"); return true; }
		catch (const mfem::ShimIndexError&) { throw; }
		catch (const std::exception& e) { err = e.what(); return false; }
	};
	auto results = [&](const G& g, const std::string& dir, int probe, const std::vector<double>& fs, const std::vector<double>& ths, const std::vector<double>& phs, const std::vector<double>& times) {
		auto q = rx::quadrature(g.s);
		std::set<std::string> names[2];
		for (double th : ths) for (double ph : phs) for (int r = 0; r < 2; r++) {
			const auto fn = rx::fileName(dir, r == 1, th, ph);
			names[r].insert(hx::fs::path(fn).filename().string());
			std::vector<rx::Row> rows;
			if (!ex.check(rx::readRows(fn, rows), "no result file ", fn)) { continue; }
			if (!ex.check(rows.size() == fs.size(), rows.size(), " values instead of ", fs.size(), " in ", fn)) { continue; }
			for (size_t i = 0; i < fs.size(); i++) {
				ex.step();
				ex.check(vh::close(rows[i].f, fs[i], 1e-5) && vh::close(rows[i].th, th, 1e-5, 1e-9) && vh::close(rows[i].ph, ph, 1e-5, 1e-9), "row for ", rows[i].f, " Hz, ", rows[i].th, ", ", rows[i].ph, " instead of ", fs[i], ", ", th, ", ", ph);
				auto w = rx::expected(g.s, q, times, field(probe), fs[i], th, ph, pw);
				const double e = r ? w.rcs : w.pot, sc = r ? w.rcsScale : w.potScale;
				ex.check(std::abs(rows[i].val - e) <= 1e-4 * e + 2e-6 * sc, r ? "cross section " : "far field ", rows[i].val, " instead of ", e);
			}
		}
		for (int r = 0; r < 2; r++) {
			std::set<std::string> have;
			const std::string d = dir + (r ? "/rcs" : "/farfield");
			if (hx::fs::exists(d)) { for (auto& e : hx::fs::directory_iterator(d)) { have.insert(e.path().filename().string()); } }
			ex.check(have == names[r], have.size(), " result files instead of ", names[r].size());
		}
	};
	const int maxSteps = ex.thorough() ? 6 : 4;
	for (auto& g : gs) for (int nf = 1; nf <= maxSteps; nf++) for (int nt = 1; nt <= maxSteps; nt++) for (int np = 1; np <= maxSteps; np++) for (int probes = 1; probes <= 2; probes++) for (int dirn = 0; dirn < 2; dirn++) for (int mt = 0; mt < 4; mt++) {
		const int dim = g.s.dim();
		if (mt && (nf > 2 || nt > 2 || np > 2)) { continue; }
		if (!ex.begin(vh::str(g.name, " steps ", nf, " ", nt, " ", np, " probes ", probes, " dir ", dirn, " max ", mt))) { continue; }
		ex.guarded([&] {
			hx::Scratch scratch;
			const std::string mode = dirn ? "mpi-2" : "single-core";
			J pl = J::array();
			std::vector<std::string> dirs;
			for (int i = 0; i < probes; i++) { dirs.push_back(i ? "box b" : "outer"); pl.push_back({ { "name", dirs.back() }, { "tags", { 9 } } }); }
			prepare(g, mode, "kase", { { "rcssurface", pl } }, dirs);
			const V3 F = dirn ? V3{ fHz(1.2), fHz(0.3), double(nf) } : V3{ fHz(0.3), fHz(1.3), double(nf) };
			const V3 A = dim == 2 ? V3{ M_PI_2, M_PI_2, double(nt) } : (dirn ? V3{ 2.6, 0.5, double(nt) } : V3{ 0.0, M_PI, double(nt) });
			const V3 P = dirn ? V3{ 1.0, -2.0, double(np) } : V3{ 0.0, 6.0, double(np) };
			auto q = request(mode, "kase", F, A, P);
			auto times = T;
			if (mt == 1) { q["max_time"] = nullptr; }
			if (mt == 2) { q["max_time"] = 1.0; times = { 0.0, 0.4, 0.9 }; }
			if (mt == 3) { q["max_time"] = 0.4; times = { 0.0, 0.4 }; }
			std::string err;
			if (!ex.check(call(q, err), "refused: ", err)) { return; }
			for (int i = 0; i < probes; i++) { results(g, "Exports/" + mode + "/kase/RCSSurface/" + dirs[i], i, grid(F[0], F[1], nf), grid(A[0], A[1], nt), grid(P[0], P[1], np), times); }
			// a second, different request replaces the results
			auto q2 = request(mode, "kase", { fHz(0.9), fHz(0.9), 1 }, { M_PI_2, M_PI_2, 1 }, { 0.7, 0.7, 1 });
			if (!ex.check(call(q2, err), "second request refused: ", err)) { return; }
			for (int i = 0; i < probes; i++) { results(g, "Exports/" + mode + "/kase/RCSSurface/" + dirs[i], i, { fHz(0.9) }, { M_PI_2 }, { 0.7 }, T); }
			ex.state("second request");
			ex.trace();
		});
	}
	// probes without a name are stored under the default one
	for (auto& g : gs) for (int which = 0; which < 3; which++) {
		if (!ex.begin(vh::str(g.name, " default name ", which))) { continue; }
		ex.guarded([&] {
			hx::Scratch scratch;
			J pl = J::array();
			std::vector<std::string> dirs;
			const std::string def = RCSSurfaceProbe().name;
			if (which != 1) { pl.push_back({ { "tags", { 9 } } }); dirs.push_back(def); }
			if (which != 0) { pl.push_back({ { "tags", { 9 } }, { "name", "other" } }); dirs.push_back("other"); }
			prepare(g, "single-core", "kase", { { "rcssurface", pl }, { "exporter", { { "name", "x" } } } }, dirs);
			std::string err;
			if (!ex.check(call(request("single-core", "kase", { fHz(0.5), fHz(1.0), 2 }, { M_PI_2, M_PI_2, 1 }, { 0, 1, 2 }), err), "refused: ", err)) { return; }
			for (size_t i = 0; i < dirs.size(); i++) { results(g, "Exports/single-core/kase/RCSSurface/" + dirs[i], int(i), grid(fHz(0.5), fHz(1.0), 2), { M_PI_2 }, { 0.0, 1.0 }, T); }
			ex.trace();
		});
	}
	// refusals
	const std::vector<std::string> bad{ "no runmode", "no casename", "no frequencies", "no start", "no end", "no steps", "no angles", "no theta", "no phi", "no theta start", "no theta end", "no theta steps", "no phi start", "no phi end", "no phi steps",
		"no probes", "no rcssurface", "empty rcssurface", "no case", "no data", "no request", "no plane wave", "broken request", "other mode" };
	for (auto& g : gs) for (size_t b = 0; b < bad.size(); b++) {
		if (!ex.begin(vh::str(g.name, " ", bad[b]))) { continue; }
		ex.guarded([&] {
			hx::Scratch scratch;
			J probes = { { "rcssurface", { { { "name", "outer" }, { "tags", { 9 } } } } } };
			const auto& w = bad[b];
			if (w == "no probes") { probes = nullptr; }
			if (w == "no rcssurface") { probes = { { "exporter", { { "name", "x" } } } }; }
			if (w == "empty rcssurface") { probes = { { "rcssurface", J::array() } }; }
			prepare(g, "single-core", "kase", probes, { "outer" });
			auto q = request("single-core", "kase", { fHz(0.5), fHz(1.0), 2 }, { M_PI_2, M_PI_2, 1 }, { 0, 1, 2 });
			auto drop = [&](const char* name, J& at, const char* key) { if (w == name) { at.erase(key); } };
			drop("no start", q["frequencies"], "start"); drop("no end", q["frequencies"], "end"); drop("no steps", q["frequencies"], "steps");
			for (std::string a : { "theta", "phi" }) { auto& r = q["angles"][a]; for (std::string k : { "start", "end", "steps" }) { if (w == "no " + a + " " + k) { r.erase(k); } } }
			drop("no theta", q["angles"], "theta"); drop("no phi", q["angles"], "phi");
			drop("no runmode", q, "runmode"); drop("no casename", q, "casename"); drop("no frequencies", q, "frequencies"); drop("no angles", q, "angles");
			if (w == "no case") { q["casename"] = "another"; }
			if (w == "other mode") { q["runmode"] = "mpi-4"; }
			if (w == "no data") { std::error_code ec; hx::fs::remove("Exports/single-core/kase/RCSSurface/outer/rank0/surface_data.bin", ec); }
			if (w == "no plane wave") { auto j = caseJ(probes); j["sources"][0]["type"] = "dipole"; hx::spew("testData/maxwellInputs/kase/kase.json", j.dump()); }
			bool ok;
			std::string err;
			if (w == "no request" || w == "broken request") {
				hx::MuteAll mute;
				if (w == "broken request") { hx::spew("absent.json", "{ \"runmode\": "); }
				try { driver::runRCSPostProcessing("absent.json"); ok = true; } catch (const std::exception&) { ok = false; }
			} else { ok = call(q, err); }
			ex.step();
			ex.check(!ok, "request with ", w, " accepted");
			ex.trace();
		});
	}
	return ex.finish();
}
