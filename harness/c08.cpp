// C08: every subset of the documented option keys (each with two or three values), and every
// ordered pair of direct setters, against the defaults.
#include "hx.hpp"
#include "driver/driver.h"

using namespace maxwell;

// the options as a record of observable values
static std::vector<double> rec(const SolverOptions& o)
{
	return { o.time_step, o.final_time, o.cfl, double(o.basis_type), double(o.ode_type), double(o.evolution.op), double(o.evolution.order), o.evolution.alpha, double(o.evolution.spectral), double(o.evolution.export_evolution_operator), double(o.is_sgbc_solver), double(o.evolution.is_sgbc_solver) };
}
struct Key { const char* name; std::vector<std::pair<json, double>> vals; int at; };

int main()
{
	vh::Explorer ex;
	const std::vector<Key> keys{
		{ "time_step", { { 0.25, 0.25 }, { 1e-3, 1e-3 }, { 0.0, 0.0 } }, 0 },
		{ "final_time", { { 7.5, 7.5 }, { 0, 0.0 } }, 1 },
		{ "cfl", { { 0.5, 0.5 }, { 0.01, 0.01 } }, 2 },
		{ "basis_type", { { 0, 0.0 }, { 2, 2.0 } }, 3 },
		{ "ode_type", { { 3, 3.0 }, { 6, 6.0 } }, 4 },
		{ "evolution_operator", { { "maxwell", 0.0 }, { "global", 1.0 }, { "hesthaven", 2.0 } }, 5 },
		{ "order", { { 1, 1.0 }, { 4, 4.0 } }, 6 },
		{ "upwind_alpha", { { 0.0, 0.0 }, { 0.4, 0.4 } }, 7 },
		{ "spectral", { { true, 1.0 }, { false, 0.0 } }, 8 },
		{ "export_operator", { { true, 1.0 }, { false, 0.0 } }, 9 } };
	// documented defaults
	const std::vector<double> def{ 0.0, 2.0, 1.0, double(mfem::BasisType::GaussLobatto), 0.0, 1.0, 2.0, 1.0, 0.0, 0.0, 0.0, 0.0 };
	for (int form = 0; form < 3; form++) {
		if (!ex.begin(vh::str("no options, form ", form))) { continue; }
		ex.guarded([&] {
			json j = json::object();
			if (form == 1) { j["solver_options"] = json::object(); }
			const auto r = rec(form == 2 ? SolverOptions() : driver::buildSolverOptions(j));
			for (size_t i = 0; i < r.size(); i++) { ex.check(r[i] == def[i], "default ", i, " is ", r[i], " instead of ", def[i]); }
			ex.step(); ex.trace();
		});
	}
	std::vector<int> base;
	for (auto& k : keys) { base.push_back(int(k.vals.size()) + 1); }
	hx::tuples(base, [&](const std::vector<int>& t) {
		std::string key = "subset ";
		for (int i : t) { key += char('0' + i); }
		if (!ex.begin(key)) { return; }
		ex.guarded([&] {
			json j;
			j["solver_options"] = json::object();
			j["model"]["filename"] = "x.msh";
			auto want = def;
			for (size_t i = 0; i < keys.size(); i++) {
				if (t[i] == 0) { continue; }
				j["solver_options"][keys[i].name] = keys[i].vals[t[i] - 1].first;
				want[keys[i].at] = keys[i].vals[t[i] - 1].second;
			}
			const auto r = rec(driver::buildSolverOptions(j));
			for (size_t i = 0; i < r.size(); i++) { ex.check(r[i] == want[i], "option ", i, " is ", r[i], " instead of ", want[i], " for ", j["solver_options"].dump()); }
			ex.step(); ex.trace();
		});
	});
	// direct setters: all ordered triples
	using Set = std::function<void(SolverOptions&)>;
	const std::vector<std::pair<Set, std::vector<std::pair<int, double>>>> sets{
		{ [](SolverOptions& o) { o.setTimeStep(0.5); }, { { 0, 0.5 } } }, { [](SolverOptions& o) { o.setTimeStep(0.0); }, { { 0, 0.0 } } },
		{ [](SolverOptions& o) { o.setFinalTime(3.0); }, { { 1, 3.0 } } }, { [](SolverOptions& o) { o.setCFL(0.7); }, { { 2, 0.7 } } },
		{ [](SolverOptions& o) { o.setBasisType(0); }, { { 3, 0.0 } } }, { [](SolverOptions& o) { o.setBasisType(); }, { { 3, double(mfem::BasisType::GaussLobatto) } } },
		{ [](SolverOptions& o) { o.setODEType(4); }, { { 4, 4.0 } } }, { [](SolverOptions& o) { o.setEvolutionOperator(Hesthaven); }, { { 5, 2.0 } } }, { [](SolverOptions& o) { o.setEvolutionOperator(Maxwell); }, { { 5, 0.0 } } },
		{ [](SolverOptions& o) { o.setOrder(5); }, { { 6, 5.0 } } }, { [](SolverOptions& o) { o.setUpwindAlpha(0.0); }, { { 7, 0.0 } } }, { [](SolverOptions& o) { o.setUpwindAlpha(0.3); }, { { 7, 0.3 } } },
		{ [](SolverOptions& o) { o.setSpectralEO(); }, { { 8, 1.0 } } }, { [](SolverOptions& o) { o.setSpectralEO(false); }, { { 8, 0.0 } } },
		{ [](SolverOptions& o) { o.setExportEO(); }, { { 9, 1.0 } } }, { [](SolverOptions& o) { o.setIsSGBCSolver(); }, { { 10, 1.0 }, { 11, 1.0 } } }, { [](SolverOptions& o) { o.setIsSGBCSolver(false); }, { { 10, 0.0 }, { 11, 0.0 } } } };
	for (size_t a = 0; a < sets.size(); a++) for (size_t b = 0; b < sets.size(); b++) for (size_t c = 0; c < sets.size(); c++) {
		if (!ex.begin(vh::str("setters ", a, " ", b, " ", c))) { continue; }
		SolverOptions o;
		auto want = def;
		for (size_t s : { a, b, c }) { sets[s].first(o); for (auto& w : sets[s].second) { want[w.first] = w.second; } }
		ex.check(rec(o) == want, "setters interfere");
		ex.step(3); ex.trace();
	}
	return ex.finish();
}
