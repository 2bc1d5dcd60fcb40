// C07: every single corruption (and every pair on the smaller cases) of a set of valid case files
// must be refused with an exception; every benign variation must be accepted.
#include "hx.hpp"
#include "driver/driver.h"

using namespace maxwell;
using hx::V3;

struct Edit { std::string at; bool erase; json value; };
static void apply(json& j, const Edit& e)
{
	json::json_pointer p(e.at);
	if (e.erase) {
		auto& parent = j.at(p.parent_pointer());
		if (parent.is_array()) { parent.erase(size_t(std::stoul(p.back()))); } else { parent.erase(p.back()); }
	}
	else { j[p] = e.value; }
}
static std::string show(const Edit& e) { return e.at + (e.erase ? " removed" : "=" + e.value.dump()); }

struct Base { std::string name, mesh; json j; std::vector<Edit> bad, good; };

static json materials(const std::vector<int>& tags) { json a = json::array(); a.push_back({ { "tags", tags }, { "relative_permittivity", 1.0 } }); return a; }

static std::vector<Base> bases()
{
	std::vector<Base> r;
	const std::vector<json> notType{ 7, json::array(), json::object(), nullptr };
	auto common = [&](Base& b) {
		for (auto* k : { "/model/materials", "/model/boundaries", "/model/filename", "/model", "/sources", "/model/boundaries/0/tags", "/model/boundaries/0/type", "/model/materials/0/tags", "/sources/0/type", "/sources/0/magnitude" }) { b.bad.push_back({ k, true, nullptr }); }
		for (auto* s : { "pec", "PEC ", "", "SMAA", "Dirichlet", "TFSF" }) { b.bad.push_back({ "/model/boundaries/0/type", false, s }); }
		for (auto& v : notType) { b.bad.push_back({ "/model/boundaries/0/type", false, v }); }
		for (int t : { 0, -1, -7 }) { b.bad.push_back({ "/model/boundaries/0/tags/0", false, t }); }
		b.bad.push_back({ "/model/boundaries/0/tags", false, json::array() });
		for (int t : { 0, -1, 99 }) { b.bad.push_back({ "/model/materials/0/tags/0", false, t }); }
		for (double v : { 0.999, 0.0, -1.0, 0.5 }) { b.bad.push_back({ "/model/materials/0/relative_permittivity", false, v }); b.bad.push_back({ "/model/materials/0/relative_permeability", false, v }); }
		for (double v : { -1e-6, -1.0 }) { b.bad.push_back({ "/model/materials/0/bulk_conductivity", false, v }); }
		b.bad.push_back({ "/model/materials/0/relative_permittivity", false, "two" });
		for (auto* s : { "plane", "Initial", "", "total_field" }) { b.bad.push_back({ "/sources/0/type", false, s }); }
		for (auto* s : { "Global", "hesthaven ", "", "spectral" }) { b.bad.push_back({ "/solver_options/evolution_operator", false, s }); }
		b.bad.push_back({ "/solver_options/order", false, -1 });
		b.bad.push_back({ "/solver_options/final_time", false, -0.1 });
		b.bad.push_back({ "/solver_options/time_step", false, -0.01 });
		b.bad.push_back({ "/solver_options/cfl", false, 0.0 });
		b.bad.push_back({ "/solver_options/cfl", false, -0.5 });
		for (int t : { 7, 99 }) { b.bad.push_back({ "/solver_options/ode_type", false, t }); }
		b.bad.push_back({ "/solver_options/order", false, "three" });
		b.bad.push_back({ "/solver_options/final_time", false, "long" });
		for (auto* s : { "case.mesh", "other.msh", "case", "Case.msh", "sub/case.msh", "", "case.msh " }) { b.bad.push_back({ "/model/filename", false, s }); }
		b.bad.push_back({ "/model/filename", false, 3 });
		for (auto* s : { "PEC", "PMC", "SMA" }) { b.good.push_back({ "/model/boundaries/0/type", false, s }); }
		for (double v : { 1.0, 1.5, 12.0 }) { b.good.push_back({ "/model/materials/0/relative_permittivity", false, v }); b.good.push_back({ "/model/materials/0/relative_permeability", false, v }); b.good.push_back({ "/model/materials/0/bulk_conductivity", false, v }); }
		b.good.push_back({ "/model/materials/0/bulk_conductivity", false, 0.0 });
		b.good.push_back({ "/model/materials/0/relative_permittivity", true, nullptr });
		for (auto* s : { "global", "maxwell" }) { b.good.push_back({ "/solver_options/evolution_operator", false, s }); }
		for (int o : { 1, 2, 3 }) { b.good.push_back({ "/solver_options/order", false, o }); }
		for (int o : { 0, 1, 2, 3, 4, 5, 6 }) { b.good.push_back({ "/solver_options/ode_type", false, o }); }
		b.good.push_back({ "/solver_options/final_time", false, 0.0 });
		b.good.push_back({ "/solver_options/cfl", false, 0.3 });
		b.good.push_back({ "/probes", true, nullptr });
		b.good.push_back({ "/solver_options/upwind_alpha", false, 0.0 });
	};
	auto probes = [&](Base& b, const std::vector<double>& at) {
		b.j["probes"]["point"] = { { { "position", at } } };
		b.j["probes"]["field"] = { { { "position", at }, { "field_type", "electric" }, { "polarization", "Y" }, { "saves", 3 } } };
		b.j["probes"]["mor_state"] = { { { "name", "m" }, { "record_time_start", 0.0 }, { "record_time_final", 0.02 }, { "saves", 2 } } };
		for (auto* k : { "/probes/point/0/position", "/probes/field/0/position", "/probes/field/0/field_type", "/probes/field/0/polarization" }) { b.bad.push_back({ k, true, nullptr }); }
		for (auto* s : { "Electric", "E", "", "current" }) { b.bad.push_back({ "/probes/field/0/field_type", false, s }); }
		for (auto* s : { "x", "XY", "", "W" }) { b.bad.push_back({ "/probes/field/0/polarization", false, s }); }
		for (auto* s : { "X", "Y", "Z" }) { b.good.push_back({ "/probes/field/0/polarization", false, s }); }
		for (auto* s : { "electric", "magnetic" }) { b.good.push_back({ "/probes/field/0/field_type", false, s }); }
		for (auto* k : { "/solver_options/time_step", "/solver_options/final_time", "/probes/field/0/saves" }) { b.good.push_back({ k, true, nullptr }); }
	};
	json opts = { { "order", 1 }, { "final_time", 0.02 }, { "time_step", 0.01 }, { "evolution_operator", "global" }, { "upwind_alpha", 1.0 } };
	auto initial = [&](Base& b, int dim) {
		b.j["sources"] = { { { "type", "initial" }, { "field_type", "electric" }, { "center", std::vector<double>(dim, 0.5) }, { "polarization", { 0.0, 1.0, 0.0 } }, { "dimension", 1 }, { "magnitude", { { "type", "gaussian" }, { "spread", 0.2 } } } } };
		for (auto* k : { "/sources/0/field_type", "/sources/0/polarization", "/sources/0/center", "/sources/0/dimension", "/sources/0/magnitude/type", "/sources/0/magnitude/spread" }) { b.bad.push_back({ k, true, nullptr }); }
		for (auto* s : { "Electric", "H", "", "mag" }) { b.bad.push_back({ "/sources/0/field_type", false, s }); }
		for (auto* s : { "gauss", "Gaussian", "", "besselj6", "sine" }) { b.bad.push_back({ "/sources/0/magnitude/type", false, s }); }
		b.bad.push_back({ "/sources/0/magnitude/type", false, "resonant" });     // its modes are missing
		b.bad.push_back({ "/sources/0/polarization", false, { 0, 1, 0, 0 } });
		b.bad.push_back({ "/sources/0/dimension", false, 0 });
		b.bad.push_back({ "/sources/0/dimension", false, 4 });
		for (auto* s : { "electric", "magnetic" }) { b.good.push_back({ "/sources/0/field_type", false, s }); }
		for (int n = 1; n <= 3; n++) { b.good.push_back({ "/sources/0/center", false, std::vector<double>(n, 0.25) }); }
		b.good.push_back({ "/sources/0/polarization", false, { 0.0, 1.0 } });
		b.good.push_back({ "/sources/0/magnitude", false, { { "type", "resonant" }, { "modes", std::vector<int>(dim, 2) } } });
		if (dim == 2) { b.good.push_back({ "/sources/0/magnitude", false, { { "type", "besselj6_2D" } } }); }
		if (dim == 3) { b.good.push_back({ "/sources/0/magnitude", false, { { "type", "besselj6_3D" } } }); }
	};
	for (auto k : { hx::SEG, hx::TRI, hx::TET }) {
		const int dim = hx::kindDim(k);
		Base b;
		b.name = vh::str("initial ", hx::kindName(k));
		b.mesh = hx::gmsh(hx::box(k, { 2, 1, 1 }));
		std::vector<int> tags;
		for (int i = 1; i <= 2 * dim; i++) { tags.push_back(i); }
		b.j = { { "solver_options", opts }, { "model", { { "filename", "case.msh" }, { "materials", materials({ 1 }) }, { "boundaries", { { { "tags", tags }, { "type", "PEC" } } } } } } };
		initial(b, dim);
		common(b);
		probes(b, std::vector<double>(dim, 0.3));
		r.push_back(b);
	}
	// total-field surface in 1-D and 2-D, recording surfaces, thin panel
	for (auto k : { hx::SEG, hx::QUAD }) {
		const int dim = hx::kindDim(k);
		Base b;
		b.name = vh::str("planewave ", hx::kindName(k));
		const V3 lo{ 1, dim > 1 ? 1.0 : 0.0, 0 }, hi{ 2, dim > 1 ? 2.0 : 0.0, 0 };
		auto def = hx::box(k, { 3, 3, 0 }, { 3, 3, 1 }, 0.0, k == hx::SEG ? std::function<int(const V3&)>([](const V3&) { return 7; }) : hx::around(2, lo, hi, 7));
		if (dim == 2) { def.putFirst([&](const V3& c) { return !hx::inside(2, c, lo, hi); }); }
		b.mesh = hx::gmsh(def);
		std::vector<int> tags;
		for (int i = 1; i <= 2 * dim; i++) { tags.push_back(i); }
		b.j = { { "solver_options", opts }, { "model", { { "filename", "case.msh" }, { "materials", materials({ 1 }) }, { "boundaries", { { { "tags", tags }, { "type", "SMA" } } } } } } };
		b.j["sources"] = { { { "type", "planewave" }, { "tags", { 7 } }, { "polarization", { 0.0, 0.0, 1.0 } }, { "propagation", { 1.0, 0.0, 0.0 } }, { "magnitude", { { "spread", 0.2 }, { "mean", { -2.0 } } } } } };
		common(b);
		probes(b, std::vector<double>(dim, 1.5));
		for (auto* p : { "/sources/0/tags", "/sources/0/polarization", "/sources/0/propagation", "/sources/0/magnitude/spread" }) { b.bad.push_back({ p, true, nullptr }); }
		b.bad.push_back({ "/sources/0/propagation", false, { 1, 0, 0, 0 } });
		b.bad.push_back({ "/sources/0/polarization", false, { 0, 0, 1, 0 } });
		b.bad.push_back({ "/sources/0/magnitude/mean", false, { 0, 0, 1, 0 } });
		b.bad.push_back({ "/sources/0/magnitude/spread", false, "wide" });
		b.bad.push_back({ "/sources/0/type", false, "initial" });
		b.good.push_back({ "/sources/0/magnitude/mean", true, nullptr });
		b.good.push_back({ "/sources/0/magnitude/frequency", false, 1e9 });
		if (dim == 2) {
			b.good.push_back({ "/sources/0", false, { { "type", "dipole" }, { "tags", { 7 } }, { "magnitude", { { "length", 0.1 }, { "spread", 0.5 }, { "mean", 3.0 } } } } });
			for (auto* miss : { "length", "spread" }) { json d = { { "type", "dipole" }, { "tags", { 7 } }, { "magnitude", { { "length", 0.1 }, { "spread", 0.5 }, { "mean", 3.0 } } } }; d["magnitude"].erase(miss); b.bad.push_back({ "/sources/0", false, d }); }
			b.bad.push_back({ "/sources/0", false, { { "type", "dipole" }, { "magnitude", { { "length", 0.1 }, { "spread", 0.5 }, { "mean", 3.0 } } } } });
			for (auto* kind : { "rcssurface", "farfield" }) {
				b.good.push_back({ vh::str("/probes/", kind), false, { { { "name", "s" }, { "tags", { 7 } } } } });
				b.bad.push_back({ vh::str("/probes/", kind), false, { { { "name", "s" } } } });
			}
		}
		r.push_back(b);
	}
	{
		Base b;
		b.name = "panel seg";
		b.mesh = hx::gmsh(hx::box(hx::SEG, { 4, 0, 0 }, { 4, 1, 1 }, 0.0, [](const V3& c) { return std::abs(c[0] - 2) < 1e-9 ? 5 : 0; }));
		b.j = { { "solver_options", opts }, { "model", { { "filename", "case.msh" }, { "materials", materials({ 1 }) }, { "boundaries", { { { "tags", { 1, 2 } }, { "type", "PEC" } }, { { "tags", { 5 } }, { "type", "SGBC" }, { "material", { { "relative_permittivity", 2.0 }, { "bulk_conductivity", 10.0 }, { "material_width", 1e-3 } } } } } } } } };
		initial(b, 1);
		common(b);
		for (auto* p : { "/model/boundaries/1/material", "/model/boundaries/1/material/bulk_conductivity", "/model/boundaries/1/material/material_width", "/model/boundaries/1/tags", "/model/boundaries/1/type" }) { b.bad.push_back({ p, true, nullptr }); }
		b.bad.push_back({ "/model/boundaries/1/tags", false, json::array() });
		b.bad.push_back({ "/model/boundaries/1/tags/0", false, 0 });
		for (int t : { 3, 4, 6 }) { b.bad.push_back({ "/model/boundaries/1/tags/0", false, t }); }          // no such tag for a panel with a material
		b.bad.push_back({ "/model/boundaries/1/material/relative_permittivity", false, 0.5 });
		b.bad.push_back({ "/model/boundaries/1/material/bulk_conductivity", false, -1.0 });
		for (auto* side : { "left", "right" }) {
			for (auto* s : { "SGBC", "pec", "" }) { b.bad.push_back({ "/model/boundaries/1/sgbc_boundaries", false, { { side, s } } }); b.bad.push_back({ "/model/boundaries/1/material/sgbc_boundaries", false, { { side, s } } }); }
			for (auto* s : { "PEC", "PMC", "SMA" }) { b.good.push_back({ "/model/boundaries/1/sgbc_boundaries", false, { { side, s } } }); }
		}
		b.good.push_back({ "/model/boundaries/1/material/num_of_segments", false, 5 });
		b.good.push_back({ "/model/boundaries/1/material/order", false, 2 });
		b.good.push_back({ "/model/boundaries/1/material/relative_permittivity", true, nullptr });
		// operators of the other formulations do not support panels
		b.good.erase(std::remove_if(b.good.begin(), b.good.end(), [](const Edit& e) { return e.at == "/solver_options/evolution_operator" && e.value == "maxwell"; }), b.good.end());
		r.push_back(b);
	}
	// the same with every list longer by one valid entry in front: nothing but the first entry may
	// be what is looked at
	const size_t n = r.size();
	for (size_t i = 0; i < n; i++) {
		if (r[i].name.rfind("initial", 0) != 0) { continue; }
		const int dim = r[i].name.find("seg") != std::string::npos ? 1 : (r[i].name.find("tri") != std::string::npos ? 2 : 3);
		Base b;
		b.name = "second " + r[i].name;
		const auto k = dim == 1 ? hx::SEG : (dim == 2 ? hx::TRI : hx::TET);
		b.mesh = hx::gmsh(hx::box(k, { 2, 1, 1 }, { 1, 1, 1 }, 0.0, nullptr, [](const V3& c) { return c[0] > 0.5 ? 2 : 1; }));
		b.j = r[i].j;
		auto front = [&](json& list, json e) { list.insert(list.begin(), e); };
		front(b.j["sources"], b.j["sources"][0]);
		front(b.j["model"]["materials"], { { "tags", { 2 } }, { "relative_permeability", 2.0 } });
		std::vector<int> rest = b.j["model"]["boundaries"][0]["tags"];
		b.j["model"]["boundaries"][0]["tags"] = std::vector<int>{ rest.back() };
		rest.pop_back();
		front(b.j["model"]["boundaries"], { { "tags", rest }, { "type", "PMC" } });
		for (auto* q : { "point", "field", "mor_state" }) { front(b.j["probes"][q], b.j["probes"][q][0]); }
		auto shift = [&](Edit e) {
			for (std::string q : { "/sources/0", "/model/materials/0", "/model/boundaries/0", "/probes/point/0", "/probes/field/0", "/probes/mor_state/0" }) { if (e.at.rfind(q, 0) == 0) { e.at[q.size() - 1] = '1'; return e; } }
			e.at.clear();
			return e;
		};
		for (auto& e : r[i].bad) { auto q = shift(e); if (!q.at.empty()) { b.bad.push_back(q); } }
		for (auto& e : r[i].good) { auto q = shift(e); if (!q.at.empty()) { b.good.push_back(q); } }
		r.push_back(b);
	}
	return r;
}

// 1: accepted, 0: refused, -1: memory misuse
static int attempt(const Base& b, const std::vector<const Edit*>& edits, std::string& what)
{
	hx::MuteAll mute;
	hx::Scratch dir;
	json j = b.j;
	for (auto* e : edits) { apply(j, *e); }
	hx::spew("case/case.msh", b.mesh);
	hx::spew("case/case.json", j.dump(1));
	try {
		auto s = driver::buildSolverJson("case/case.json", false);
		return 1;
	}
	catch (const mfem::ShimIndexError& e) { what = e.what(); return -1; }
	catch (const std::exception& e) { what = e.what(); return 0; }
}

int main()
{
	vh::Explorer ex;
	auto all = bases();
	for (auto& b : all) {
		if (ex.begin(b.name + ": as is")) {
			std::string w;
			ex.check(attempt(b, {}, w) == 1, "valid case refused: ", w);
			ex.step(); ex.trace();
		}
		for (auto& e : b.good) {
			if (!ex.begin(b.name + ": " + show(e))) { continue; }
			std::string w;
			ex.check(attempt(b, { &e }, w) == 1, "valid case refused: ", w);
			ex.step(); ex.trace();
		}
		for (auto& e : b.bad) {
			if (!ex.begin(b.name + ": " + show(e))) { continue; }
			std::string w;
			const int r = attempt(b, { &e }, w);
			ex.check(r == 0, r == 1 ? "malformed case accepted" : "memory misuse instead of an error: " + w);
			ex.step(); ex.trace();
		}
		// a corruption stays refused whatever valid variation accompanies it; and pairs of corruptions
		if (hx::kindDim(hx::SEG) == 1 && b.name.find("seg") == std::string::npos && !ex.thorough()) { continue; }
		auto prefix = [](const std::string& a, const std::string& c) { return a.rfind(c, 0) == 0 || c.rfind(a, 0) == 0; };
		for (auto& e : b.bad) for (auto& g : b.good) {
			if (prefix(e.at, g.at)) { continue; }
			// a source replaced as a whole or a missing options/probes block is not combined
			if (g.at == "/probes" || g.at == "/sources/0/magnitude" || g.at == "/sources/1/magnitude" || (e.value == "resonant") ) { continue; }
			if (e.at.find("material/sgbc_boundaries") != std::string::npos && g.at.find("sgbc_boundaries") != std::string::npos) { continue; } // the outer entry takes precedence
			if (g.at == "/probes/field/0/saves" || g.at == "/probes/field/1/saves" || e.at == "/sources/0/type" || e.at == "/sources/1/type") { continue; }
			if (!ex.begin(b.name + ": " + show(e) + " and " + show(g))) { continue; }
			std::string w;
			const int r = attempt(b, { &e, &g }, w);
			ex.check(r == 0, r == 1 ? "malformed case accepted" : "memory misuse instead of an error: " + w);
			ex.step(2); ex.trace();
		}
	}
	// meshes of mixed element types
	for (int where = 0; where < 3; where++) {
		if (!ex.begin(vh::str("mixed element types, odd one at ", where))) { continue; }
		Base b = all[1];
		std::ostringstream o;
		o << "$MeshFormat\n2.2 0 8\n$EndMeshFormat\n$Nodes\n7\n1 0 0 0\n2 1 0 0\n3 2 0 0\n4 3 0 0\n5 0 1 0\n6 1 1 0\n7 2 1 0\n$EndNodes\n$Elements\n8\n";
		o << "1 1 2 1 1 1 2\n2 1 2 1 1 2 3\n3 1 2 1 1 3 4\n4 1 2 1 1 5 1\n5 1 2 1 1 4 7\n";
		std::vector<std::string> els{ "3 2 1 1 1 2 6 5", "3 2 1 1 2 3 7 6", "2 2 1 1 3 4 7" };
		std::rotate(els.begin(), els.begin() + where, els.end());
		for (int i = 0; i < 3; i++) { o << 6 + i << " " << els[i] << "\n"; }
		o << "$EndElements\n";
		b.mesh = o.str();
		b.j["model"]["boundaries"][0]["tags"] = { 1 };
		std::string w;
		ex.check(attempt(b, {}, w) == 0, "mesh of mixed element types accepted");
		ex.step(); ex.trace();
	}
	return ex.finish();
}
