// C45: the solver's command line: every sequence of arguments up to a length.
#include "lx.hpp"
#include "driver/driver.h"
#define main launcherMain
#include "launcher/launcher.cpp"
#undef main

using J = nlohmann::json;

enum Tok { INPUT, CASE_A, CASE_B, TEXT, ABSENT, BROKEN, HELP, DEV, DEVICE, CPU, OMP, GPU, OTHER, NTOK };

// What the sequence asks for. Where it is not settled what a dangling option means both readings are allowed.
struct Asked { bool help = false, fail = false, maybe = false; int file = -1; };
static Asked reading(const std::vector<int>& s)
{
	Asked a;
	for (size_t i = 0; i < s.size(); i++) {
		if (s[i] == INPUT) { if (i + 1 < s.size()) { a.file = s[++i]; } else { a.maybe = true; } }
		else if (s[i] == HELP) { a.help = true; return a; }
		else if (s[i] == DEV || s[i] == DEVICE) {
			if (i + 1 == s.size()) { a.maybe = true; }
			else if (s[i + 1] == CPU || s[i + 1] == OMP) { i++; }
			else { a.fail = true; return a; }
		}
	}
	a.fail = a.file != CASE_A && a.file != CASE_B;
	return a;
}

int main()
{
	vh::Explorer ex;
	const int length = ex.thorough() ? 5 : 4;
	auto def = hx::box(hx::SEG, { 2, 0, 0 }, { 1, 1, 1 }, 0.0);
	auto kase = [&](const std::string& name, double at) {
		J j;
		j["model"] = { { "filename", name + ".msh" }, { "materials", J::array({ { { "tags", { 1 } } } }) }, { "boundaries", J::array({ { { "tags", { 1, 2 } }, { "type", "PEC" } } }) } };
		j["solver_options"] = { { "order", 1 }, { "time_step", 0.1 }, { "final_time", 0.3 } };
		j["sources"] = J::array({ { { "type", "initial" }, { "field_type", "electric" }, { "center", { at } }, { "polarization", { 0.0, 1.0, 0.0 } }, { "dimension", 1 }, { "magnitude", { { "type", "gaussian" }, { "spread", 0.3 } } } } });
		j["probes"]["point"] = J::array({ { { "position", { 0.3 } } } });
		return j;
	};
	auto scratch = std::make_unique<hx::Scratch>();
	const auto root = hx::fs::current_path();
	hx::spew("cases/first/first.json", kase("first", 0.4).dump());
	hx::spew("cases/first/first.msh", hx::gmsh(def));
	hx::spew("cases/second/second.json", kase("second", 0.7).dump());
	hx::spew("cases/second/second.msh", hx::gmsh(def));
	hx::spew("cases/first/first.txt", kase("first", 0.4).dump());
	hx::spew("cases/first/broken.json", kase("first", 0.4).dump().substr(0, 60));
	const std::vector<std::string> word{ "-i", "cases/first/first.json", (root / "cases/second/second.json").string(), "cases/first/first.txt", "cases/first/absent.json", "cases/first/broken.json", "-h", "-d", "--device", "cpu", "omp", "gpu", "verbose" };
	auto made = [&] { auto t = lx::tree("Exports"); for (auto& f : t) { if (f.first.find("SimulationStats") != std::string::npos) { f.second = "timings"; } } hx::fs::remove_all(root / "Exports"); return t; };
	std::map<int, lx::Tree> expected;
	for (int c : { CASE_A, CASE_B }) {
		auto o = lx::isolated([&] { auto s = maxwell::driver::buildSolverJson(word[c], false); s.run(); return 0; });
		if (o.code || o.crashed) { ex.fail("the case itself does not run: " + o.text.substr(0, 300)); }
		expected[c] = made();
		if (expected[c].empty()) { ex.fail("the case itself leaves no results"); }
	}
	const auto inputs = lx::tree("cases");   // after the first reading has tidied the meshes
	lx::sequences(NTOK, length, [&](const std::vector<int>& s) {
		if (s.size() > 4 && (std::count(s.begin(), s.end(), int(OTHER)) || std::count(s.begin(), s.end(), int(OMP)) || std::count(s.begin(), s.end(), int(TEXT)) || std::count(s.begin(), s.end(), int(DEVICE)))) { return; }
		std::string key = "args";
		std::vector<std::string> args;
		for (int t : s) { key += " " + (t == CASE_B ? std::string("second.json") : word[t]); args.push_back(word[t]); }
		if (!ex.begin(key)) { return; }
		ex.guarded([&] {
			auto o = lx::launch(launcherMain, args);
			const auto t = made();
			const auto a = reading(s);
			ex.step(int(s.size()) + 1);
			ex.trace();
			ex.check(!o.crashed && o.code != lx::MISUSE, "it crashes: ", o.text.substr(0, 200));
			if (a.help) {
				ex.check(o.text.find("-h") != std::string::npos && o.text.find("-i") != std::string::npos, "no help is shown");
				ex.check(t.empty(), "help is asked for and a case is run: ", t.empty() ? "" : t.begin()->first);
			}
			else if (a.fail) {
				ex.check(o.code != 0, "success is reported");
				ex.check(t.empty(), "a case is run: ", t.empty() ? "" : t.begin()->first);
			}
			else {
				const auto d = lx::differs(t, expected[a.file]);
				const bool ran = o.code == 0 && d.empty();
				ex.check(ran || (a.maybe && o.code != 0 && t.empty()), "the case named is not what is run: code ", o.code, ", ", d, " ", o.text.substr(0, 200));
			}
			{ const auto d = lx::differs(lx::tree("cases"), inputs); ex.check(d.empty(), "the case's own files: ", d); }
			ex.state(vh::str(o.code, " ", t.size() ? t.begin()->first : "-", " ", o.text.size()));
		});
	});
	scratch.reset();
	return ex.finish();
}
