// C12: where a case's mesh is looked up, and which names are refused. All combinations of case
// paths, folder names, declared mesh names and files present; decoy meshes everywhere else.
#include "hx.hpp"
#include "driver/driver.h"

using namespace maxwell;
namespace fs = std::filesystem;

// a mesh with n elements, so that the one loaded can be told from its decoys
static std::string mshText(int n) { return hx::gmsh(hx::box(hx::SEG, { n, 0, 0 })); }
static std::string meshText(int n)
{
	std::string s = vh::str("MFEM mesh v1.0\n\ndimension\n1\n\nelements\n", n, "\n");
	for (int i = 0; i < n; i++) { s += vh::str("1 1 ", i, " ", i + 1, "\n"); }
	s += vh::str("\nboundary\n2\n1 0 0\n2 0 ", n, "\n\nvertices\n", n + 1, "\n1\n");
	for (int i = 0; i <= n; i++) { s += vh::str(double(i) / n, "\n"); }
	return s;
}
static json caseJson(const std::string& filename)
{
	json j;
	j["solver_options"] = { { "time_step", 0.01 }, { "final_time", 0.01 }, { "order", 1 } };
	j["model"]["filename"] = filename;
	j["model"]["materials"] = json::array({ { { "tags", { 1 } } } });
	j["model"]["boundaries"] = json::array({ { { "tags", { 1, 2 } }, { "type", "PEC" } } });
	j["sources"] = json::array({ { { "type", "initial" }, { "field_type", "electric" }, { "polarization", { 0, 1, 0 } }, { "center", { 0.5 } }, { "dimension", 1 }, { "magnitude", { { "type", "gaussian" }, { "spread", 0.1 } } } } });
	return j;
}

int main()
{
	vh::Explorer ex;
	const std::vector<std::string> dirs{ "", "./", "sub/", "a/b/c/", "../up/", "with space/", "dot.dir/", "x.json/", "y.msh/", "test.json.d/" };
	const std::vector<std::string> names{ "case", "a.b", "case.json", "case.msh", "x.mesh", "json", "msh", ".hidden", "case..v2", "My Case-1", "a.json.b" };
	const std::vector<std::string> folders{ "=", "other", "case", "", "Case" };
	// declared mesh name in terms of the case's name
	const std::vector<std::string> decls{ "=.msh", "=.mesh", "=", "other.msh", "=.MSH", "./=.msh", "=/=.msh", "=.msh.msh", "=2.msh", ".msh", "", "=.json" };
	const std::vector<std::string> exts{ ".json", ".JSON", ".txt", "" };
	auto sub = [](std::string s, const std::string& n) { std::string r; for (char c : s) { if (c == '=') { r += n; } else { r += c; } } return r; };
	for (size_t d = 0; d < dirs.size(); d++) for (size_t n = 0; n < names.size(); n++) for (size_t f = 0; f < folders.size(); f++) for (size_t m = 0; m < decls.size(); m++) for (size_t e = 0; e < exts.size(); e++) for (int present = 0; present < 2; present++) {
		// unconventional extensions, folders and declarations at most two at a time
		if ((f > 0) + (m > 0) + (e > 0) + (present == 0) > 2) { continue; }
		const std::string& name = names[n];
		const std::string folder = sub(folders[f], name), decl = sub(decls[m], name);
		if ((f > 0 && folder == name) || (m > 0 && decl == name + ".msh")) { continue; }
		if (!ex.begin(vh::str("path '", dirs[d], "' name '", name, "' folder '", folders[f], "' decl '", decls[m], "' ext '", exts[e], "' present ", present))) { continue; }
		ex.guarded([&] {
			hx::MuteAll mute;
			hx::Scratch root;
			fs::create_directories("here");
			fs::create_directories("up");
			fs::current_path("here");
			const fs::path base = dirs[d].empty() ? fs::path() : fs::path(dirs[d]);
			const fs::path caseDir = folder.empty() ? base : base / folder;
			const fs::path casePath = fs::path(caseDir.string() + (caseDir.empty() || caseDir.string().back() == '/' ? "" : "/") + name + exts[e]);
			if (!caseDir.empty()) { fs::create_directories(caseDir); }
			// decoys
			std::set<fs::path> decoys;
			for (auto& where : { fs::path("."), base.empty() ? fs::path(".") : base, fs::path("testData/maxwellInputs") / name, fs::path("testData/maxwellInputs"), fs::path("other"), fs::path("case") }) {
				for (auto& mm : { name + ".msh", std::string("other.msh"), std::string("case.msh") }) { decoys.insert(where / mm); }
				decoys.insert(where / (name + ".mesh"));
			}
			for (auto& p : decoys) { try { if (!fs::is_directory(p)) { hx::spew(p, p.extension() == ".mesh" ? meshText(9) : mshText(9)); } } catch (const fs::filesystem_error&) {} }
			const fs::path mesh = caseDir / (name + ".msh");
			if (fs::exists(mesh)) { std::error_code ec; if (fs::is_directory(mesh)) { ex.note("mesh name taken by a directory"); ex.trace(); return; } fs::remove(mesh, ec); }
			if (present) { hx::spew(mesh, mshText(3)); }
			std::error_code ec;
			for (auto& x : { name + ".mesh", std::string("other.msh") }) { if (!fs::exists(caseDir / x)) { hx::spew(caseDir / x, x == "other.msh" ? mshText(7) : meshText(7)); } }
			if (fs::is_directory(casePath)) { ex.note("case name taken by a directory"); ex.trace(); return; }
			hx::spew(casePath, caseJson(decl).dump());
			const bool want = exts[e] == ".json" && !casePath.parent_path().empty() && casePath.parent_path().filename() == name && decl == name + ".msh" && present;
			bool ok = true;
			std::string why;
			int ne = 0;
			std::string mname;
			try {
				auto s = driver::buildSolverJson(casePath.string(), false);
				ne = s.getModel().getMesh().GetNE();
				mname = s.getModel().meshName_;
			}
			catch (const mfem::ShimIndexError&) { throw; }
			catch (const std::exception& x) { ok = false; why = x.what(); }
			ex.step();
			if (want) {
				if (ex.check(ok, "well named case refused: ", why)) {
					ex.check(ne == 3, "a mesh of ", ne, " elements was loaded instead of the case's own");
					ex.check(mname == name, "case called '", mname, "'");
				}
			}
			else { ex.check(!ok, "misnamed case accepted with a mesh of ", ne, " elements"); }
			ex.trace();
		});
	}
	// model loading without the naming check: the mesh next to the case, in either format
	for (size_t d = 0; d < dirs.size(); d++) for (size_t n = 0; n < names.size(); n++) for (int fmt = 0; fmt < 2; fmt++) for (int test = 0; test < 2; test++) {
		if (test && d) { continue; }
		const std::string& name = names[n];
		if (!ex.begin(vh::str("model '", dirs[d], "' name '", name, "' fmt ", fmt, test ? " test" : ""))) { continue; }
		ex.guarded([&] {
			hx::MuteAll mute;
			hx::Scratch root;
			fs::create_directories("here");
			fs::create_directories("up");
			fs::current_path("here");
			const fs::path dir = test ? fs::path("testData/maxwellInputs") / name : fs::path(dirs[d]) / name;
			const std::string ext = fmt ? ".mesh" : ".msh";
			hx::spew(dir / (name + ".msh"), mshText(fmt ? 8 : 3));
			hx::spew(dir / (name + ".mesh"), meshText(fmt ? 3 : 8));
			auto m = driver::buildModel(caseJson(name + ext), (dir / (name + ".json")).string(), test);
			ex.check(m.getMesh().GetNE() == 3, "mesh with ", m.getMesh().GetNE(), " elements loaded");
			ex.check(m.meshName_ == name, "case called '", m.meshName_, "'");
			if (test) { ex.check(fs::path(driver::assembleMeshString(name + ext)).lexically_normal() == (dir / (name + ext)), "test mesh path ", driver::assembleMeshString(name + ext)); }
			ex.step(); ex.trace();
		});
	}
	return ex.finish();
}
