// C46: the far field post-processor's command line: every sequence of arguments up to a length.
#include "lx.hpp"
#include "rx.hpp"
#include "driver/rcs_driver.h"
#include <nlohmann/json.hpp>
#define main launcherMain
#include "launcher/rcs_launcher.cpp"
#undef main

using J = nlohmann::json;
using hx::V3;

enum Tok { INPUT, REQ_A, REQ_B, ABSENT, BROKEN, NOPROBES, HELP, OTHER, NTOK };

struct Asked { bool help = false, maybe = false; int file = -1; };
static Asked reading(const std::vector<int>& s)
{
	Asked a;
	for (size_t i = 0; i < s.size(); i++) {
		if (s[i] == INPUT) { if (i + 1 < s.size()) { a.file = s[++i]; } else { a.maybe = true; } }
		else if (s[i] == HELP) { a.help = true; return a; }
	}
	return a;
}

int main()
{
	vh::Explorer ex;
	const int length = ex.thorough() ? 5 : 4;
	const int NTFF = static_cast<int>(maxwell::BdrCond::NearToFarField);
	auto surf = rx::surface(hx::QUAD, { 1, 1, 0 }, { -0.5, 0, 0 }, { 1, 1, 0 }, 0);
	const rx::Pulse pw{ 0.8, -0.4 };
	auto scratch = std::make_unique<hx::Scratch>();
	const auto root = hx::fs::current_path();
	const std::vector<double> T{ 0.0, 0.4, 0.9 };
	auto kj = J::parse(rx::caseJson(pw, { 1, 0, 0 }));
	hx::spew("testData/maxwellInputs/plain/plain.json", kj.dump());
	kj["probes"]["rcssurface"] = J::array({ { { "name", "box" }, { "tags", { 9 } } } });
	int n = 0;
	for (std::string k : { "first", "second" }) {
		hx::spew("testData/maxwellInputs/" + k + "/" + k + ".json", kj.dump());
		rx::writeRanks("Exports/single-core/" + k + "/RCSSurface/box", surf, std::vector<int>(surf.def.elems.size(), 0), 1, 1, T, [n](int c, const V3& x, int t) { return (0.5 + 0.3 * c - 0.17 * c * c) * (1 + std::sin(1.3 * t + c + n)) * (1 + 0.3 * x[0]); }, NTFF);
		n++;
	}
	auto request = [&](const std::string& name) {
		return J{ { "runmode", "single-core" }, { "casename", name }, { "frequencies", { { "start", 1e7 }, { "end", 5e7 }, { "steps", 2 } } }, { "angles", { { "theta", { { "start", M_PI_2 }, { "end", M_PI_2 }, { "steps", 1 } } }, { "phi", { { "start", 0.0 }, { "end", 1.0 }, { "steps", 2 } } } } } };
	};
	hx::spew("asked/first.json", request("first").dump());
	hx::spew("asked/second.json", request("second").dump());
	hx::spew("asked/plain.json", request("plain").dump());
	hx::spew("asked/broken.json", request("first").dump().substr(0, 70));
	const std::vector<std::string> word{ "-i", "asked/first.json", (root / "asked/second.json").string(), "asked/absent.json", "asked/broken.json", "asked/plain.json", "-h", "verbose" };
	const auto recorded = lx::tree(root);
	// what a run adds to the recordings, which must stay as they are
	auto added = [&](std::string& harm) {
		auto t = lx::tree(root);
		lx::Tree r;
		for (auto& f : recorded) { auto it = t.find(f.first); if (it == t.end() || it->second != f.second) { harm = f.first; } }
		for (auto& f : t) { if (!recorded.count(f.first)) { r.insert(f); } }
		for (std::string k : { "first", "second" }) for (std::string d : { "farfield", "rcs" }) { hx::fs::remove_all(root / "Exports/single-core" / k / "RCSSurface/box" / d); }
		return r;
	};
	std::map<int, lx::Tree> expected;
	std::string harm;
	for (int c : { REQ_A, REQ_B }) {
		auto o = lx::isolated([&] { maxwell::driver::runRCSPostProcessing(word[c]); return 0; });
		if (o.code || o.crashed) { ex.fail("the request itself is not carried out: " + o.text.substr(0, 300)); }
		expected[c] = added(harm);
		if (expected[c].size() != 4) { ex.fail(vh::str("the request itself leaves ", expected[c].size(), " results")); }
	}
	lx::sequences(NTOK, length, [&](const std::vector<int>& s) {
		std::string key = "args";
		std::vector<std::string> args;
		for (int t : s) { key += " " + (t == REQ_B ? std::string("second.json") : word[t]); args.push_back(word[t]); }
		if (!ex.begin(key)) { return; }
		ex.guarded([&] {
			auto o = lx::launch(launcherMain, args);
			std::string bad;
			const auto t = added(bad);
			const auto a = reading(s);
			ex.step(int(s.size()) + 1);
			ex.trace();
			ex.check(!o.crashed && o.code != lx::MISUSE, "it crashes: ", o.text.substr(0, 200));
			if (a.help) {
				ex.check(o.text.find("-h") != std::string::npos && o.text.find("-i") != std::string::npos, "no help is shown");
				ex.check(t.empty(), "help is asked for and a request is carried out: ", t.empty() ? "" : t.begin()->first);
			}
			else if (a.file != REQ_A && a.file != REQ_B) {
				ex.check(o.code != 0, "success is reported");
				ex.check(t.empty(), "a request is carried out: ", t.empty() ? "" : t.begin()->first);
			}
			else {
				const auto d = lx::differs(t, expected[a.file]);
				ex.check((o.code == 0 && d.empty()) || (a.maybe && o.code != 0 && t.empty()), "the request named is not what is carried out: code ", o.code, ", ", d, " ", o.text.substr(0, 200));
			}
			ex.check(bad.empty(), "a file that was there is changed: ", bad);
			ex.state(vh::str(o.code, " ", t.size() ? t.begin()->first : "-", " ", o.text.size()));
		});
	});
	scratch.reset();
	return ex.finish();
}
