// C42: a whole case, from its case file to the final fields, over every distribution on ranks.
#include "ox.hpp"
#include "driver/driver.h"
namespace mfem { extern const std::vector<int>* forcedPartitioning; }

using namespace maxwell;
using hx::V3;

static vh::Explorer ex;

struct Case {
	std::string name;
	hx::MeshDef def;
	json j;
	std::vector<int> ranks;   // worlds whose distributions are enumerated in full
};

// A field value is identified by the cell and the node it belongs to.
struct Value { V3 centre, pos; std::array<double, 6> v; };
struct Outcome { std::vector<Value> vals; double time = 0, dt = 0; };

static Outcome collect(maxwell::Solver& s)
{
	Outcome o;
	auto& fes = s.getFES();
	auto e = ox::dofElem(fes);
	auto x = hx::nodes(fes);
	for (size_t i = 0; i < e.size(); i++) {
		Value v;
		mfem::Vector q;
		fes.GetMesh()->GetElementCenter(e[i], q);
		v.centre = { 0, 0, 0 };
		for (int d = 0; d < q.Size(); d++) { v.centre[d] = q[d]; }
		v.pos = x[i];
		for (int f = 0; f < 2; f++) for (int d = 0; d < 3; d++) { v.v[3 * f + d] = s.getFields().get(FieldType(f), Direction(d))[int(i)]; }
		o.vals.push_back(v);
	}
	o.time = s.getTime();
	o.dt = s.getTimeStep();
	return o;
}
static Outcome perform(const Case& c)
{
	auto s = driver::buildSolver(c.j, c.name + "/" + c.name + ".json", false);
	s.run();
	return collect(s);
}

static std::vector<Case> cases(bool T)
{
	std::vector<Case> r;
	auto wave = [](const std::vector<int>& tags, const V3& k, const V3& p) {
		return json{ { "type", "planewave" }, { "tags", tags }, { "polarization", { p[0], p[1], p[2] } }, { "propagation", { k[0], k[1], k[2] } }, { "magnitude", { { "type", "gaussian" }, { "spread", 0.3 }, { "mean", { -0.4, 0.0, 0.0 } } } } };
	};
	auto bump = [](const std::vector<double>& at) {
		return json{ { "type", "initial" }, { "field_type", "electric" }, { "center", at }, { "polarization", { 0.0, 0.6, 0.8 } }, { "dimension", int(at.size()) }, { "magnitude", { { "type", "gaussian" }, { "spread", 0.3 } } } };
	};
	auto panel = [](const std::vector<int>& tags, double sigma, double width) {
		return json{ { "tags", tags }, { "type", "SGBC" }, { "material", { { "relative_permittivity", 2.0 }, { "bulk_conductivity", sigma }, { "material_width", width }, { "num_of_segments", 3 }, { "order", 1 } } } };
	};
	auto base = [](const std::string& name, int dim) {
		json j;
		j["model"]["filename"] = name + ".msh";
		j["model"]["materials"] = json::array({ { { "tags", { 1 } } }, { { "tags", { 2 } }, { "relative_permittivity", 2.0 }, { "bulk_conductivity", 0.001 } } });
		j["model"]["boundaries"] = json::array({ { { "tags", { 1 } }, { "type", "SMA" } }, { { "tags", { 2 } }, { "type", "PEC" } } });
		if (dim > 1) { j["model"]["boundaries"].push_back({ { "tags", dim > 2 ? std::vector<int>{ 3, 4, 5, 6 } : std::vector<int>{ 3, 4 } }, { "type", "PMC" } }); }
		j["solver_options"] = { { "order", 1 }, { "time_step", 0.04 }, { "final_time", 0.12 }, { "evolution_operator", "global" } };
		j["probes"] = json::object();
		return j;
	};
	struct Shape { std::string name; hx::Kind k; std::array<int, 3> n; V3 hi; std::function<bool(const V3&)> in; std::vector<int> ranks; };
	auto slab = [](double a, double b) { return [=](const V3& c) { return c[0] > a && c[0] < b; }; };
	std::vector<Shape> shapes{
		{ "seg", hx::SEG, { 6, 0, 0 }, { 1.8, 1, 1 }, slab(0.6, 1.2), { 2, 3 } },
		{ "strip", hx::QUAD, { 4, 2, 0 }, { 1.2, 0.8, 1 }, slab(0.3, 0.9), { 2 } },
		{ "ring", hx::QUAD, { 3, 3, 0 }, { 0.9, 0.9, 1 }, [](const V3& c) { return c[0] > 0.3 && c[0] < 0.6 && c[1] > 0.3 && c[1] < 0.6; }, { 2 } },
		{ "tri", hx::TRI, { 4, 1, 0 }, { 1.2, 0.5, 1 }, slab(0.3, 0.9), { 2 } },
		{ "bar", hx::HEX, { 4, 1, 1 }, { 1.2, 0.4, 0.5 }, slab(0.3, 0.9), { 2, 3 } } };
	if (T) { shapes[1].ranks = { 2, 3 }; shapes.push_back({ "tet", hx::TET, { 2, 1, 1 }, { 0.8, 0.4, 0.5 }, slab(0.4, 0.8), { 2 } }); }
	for (auto& s : shapes) {
		const int dim = hx::kindDim(s.k);
		auto def = hx::box(s.k, s.n, s.hi, 0.0, nullptr, [&](const V3& c) { return c[0] > 0.75 * s.hi[0] ? 2 : 1; });
		if (dim > 1) { def.putFirst([&](const V3& c) { return !s.in(c); }); }
		const auto b0 = def;
		auto fe = b0.faceElems();
		// the surface: upstream side 11, downstream 12, the rest 13; a panel (7 and 8) behind it where there is room
		auto tagger = [&](bool surface, bool panels) {
			auto d = b0;
			d.tagFaces([&](const V3& c, bool inner) {
				if (!inner) { return hx::outerSide(c, s.hi, dim); }
				for (auto& f : fe) {
					if (f.second.size() != 2 || hx::norm(b0.centre(f.first) - c) > 1e-12) { continue; }
					const V3 a = b0.centre(b0.elems[f.second[0]]), b = b0.centre(b0.elems[f.second[1]]);
					if (surface && s.in(a) != s.in(b)) { return std::abs(a[0] - b[0]) < 1e-9 ? 13 : (c[0] < 0.5 * s.hi[0] ? 11 : 12); }
					const double cut = s.hi[0] * (surface ? 0.5 : (s.n[0] == 3 ? 1.0 / 3 : 0.5));
					if (panels && (a[0] < cut) != (b[0] < cut)) { return c[1] > 0.5 * s.hi[1] && dim > 1 ? 8 : 7; }
				}
				return 0;
			});
			if (dim == 1) { std::sort(d.bdr.begin(), d.bdr.end(), [&](auto& a, auto& b) { return d.verts[a.v[0]][0] < d.verts[b.v[0]][0]; }); }
			return d;
		};
		std::vector<double> at{ 0.4 * s.hi[0], 0.5 * s.hi[1], 0.5 * s.hi[2] };
		at.resize(dim);
		auto add = [&](const std::string& kind, const hx::MeshDef& d, const std::function<void(json&, const std::set<int>&)>& edit) {
			Case c;
			c.name = s.name + "-" + kind;
			c.def = d;
			c.ranks = s.ranks;
			c.j = base(c.name, dim);
			std::set<int> tags;
			for (auto& b : d.bdr) { tags.insert(b.tag); }
			edit(c.j, tags);
			r.push_back(c);
		};
		auto some = [](const std::set<int>& tags, int lo, int hi) { std::vector<int> v; for (int t : tags) { if (t >= lo && t <= hi) { v.push_back(t); } } return v; };
		const V3 kx{ 1, 0, 0 }, py{ 0, 1, 0 };
		for (auto* form : { "global", "maxwell" }) {
			add(vh::str("initial-", form), tagger(false, false), [&](json& j, const std::set<int>&) { j["sources"] = json::array({ bump(at) }); j["solver_options"]["evolution_operator"] = form; j["solver_options"].erase("time_step"); j["solver_options"]["cfl"] = 0.3; });
			add(vh::str("wave-", form), tagger(true, false), [&](json& j, const std::set<int>& t) { j["sources"] = json::array({ wave(some(t, 11, 13), kx, py) }); j["solver_options"]["evolution_operator"] = form; });
		}
		add("wave-initial", tagger(true, false), [&](json& j, const std::set<int>& t) { auto v = some(t, 11, 13); std::reverse(v.begin(), v.end()); j["sources"] = json::array({ bump(at), wave(v, kx, { 0, 0.6, 0.8 }) }); j["solver_options"]["upwind_alpha"] = 0.0; });
		add("auto", tagger(true, false), [&](json& j, const std::set<int>& t) { auto w = wave(some(t, 11, 13), { -1, 0, 0 }, { 0, 0, 1 }); w["magnitude"].erase("mean"); w["magnitude"]["spread"] = 0.02; j["sources"] = json::array({ w, bump(at) }); });
		if (s.name != "strip" || T) { add("implicit", tagger(true, false), [&](json& j, const std::set<int>& t) { j["sources"] = json::array({ bump(at), wave(some(t, 11, 13), kx, py) }); j["solver_options"]["ode_type"] = 4; }); }
		if (s.name == "tet") { continue; }
		add("panel", tagger(false, true), [&](json& j, const std::set<int>& t) { j["sources"] = json::array({ bump(at) }); for (int p : some(t, 7, 8)) { j["model"]["boundaries"].push_back(panel({ p }, p == 7 ? 30.0 : 5.0, p == 7 ? 1e-2 : 2e-2)); } });
		if (s.name != "ring") { add("panel-wave", tagger(true, true), [&](json& j, const std::set<int>& t) { j["sources"] = json::array({ wave(some(t, 11, 13), kx, py) }); j["model"]["boundaries"].push_back(panel(some(t, 7, 8), 30.0, 1e-2)); }); }
	}
	return r;
}

int main()
{
	for (auto& c : cases(ex.thorough())) {
		std::unique_ptr<Outcome> ref;
		const int NE = int(c.def.elems.size());
		auto reference = [&] {
			if (ref) { return; }
			hx::spew(c.name + "/" + c.name + ".msh", hx::gmsh(c.def));
			ref = std::make_unique<Outcome>(perform(c));
		};
		for (int nr : c.ranks) {
			hx::tuples(std::vector<int>(NE, nr), [&](const std::vector<int>& owner) {
				std::set<int> used(owner.begin(), owner.end());
				if (int(used.size()) != nr) { return; }
				std::string key = vh::str(c.name, " ");
				for (int o : owner) { key += char('0' + o); }
				if (!ex.begin(key)) { return; }
				ex.guarded([&] {
					hx::MuteAll mute;
					hx::Scratch dir;
					reference();
					hx::spew(c.name + "/" + c.name + ".msh", hx::gmsh(c.def));
					std::vector<Outcome> got(nr);
					mfem::forcedPartitioning = &owner;
					std::vector<int> cells(nr, 0);
					bool idle = false;
					try {
						// interfaces are kept together, which may leave a rank of a small world without cells
						mpisim::runWorld(nr, [&](int r) { cells[r] = driver::buildModel(c.j, c.name + "/" + c.name + ".json", false).getMesh().GetNE(); });
						idle = std::count(cells.begin(), cells.end(), 0) > 0;
						if (!idle) { mpisim::runWorld(nr, [&](int r) { got[r] = perform(c); }); }
					}
					catch (...) { mfem::forcedPartitioning = nullptr; throw; }
					mfem::forcedPartitioning = nullptr;
					if (idle) { ex.note("distributions with an idle rank"); return; }
					double scale = 0;
					for (auto& v : ref->vals) { for (double x : v.v) { scale = std::max(scale, std::abs(x)); } }
					if (!ex.check(scale > 1e-3, "the case moves nothing")) { return; }
					std::vector<int> seen(ref->vals.size(), 0);
					for (int r = 0; r < nr; r++) {
						ex.check(std::abs(got[r].time - ref->time) < 1e-9 && std::abs(got[r].dt - ref->dt) < 1e-9, "rank ", r, " ended at ", got[r].time, " with steps of ", got[r].dt, ", one rank at ", ref->time, " with ", ref->dt);
						for (auto& v : got[r].vals) {
							int at = -1;
							for (size_t i = 0; i < ref->vals.size() && at < 0; i++) { if (hx::norm(v.centre - ref->vals[i].centre) < 1e-9 && hx::norm(v.pos - ref->vals[i].pos) < 1e-9) { at = int(i); } }
							if (!ex.check(at >= 0, "rank ", r, " has a node the case does not have")) { return; }
							seen[at]++;
							for (int k = 0; k < 6; k++) { if (!ex.check(std::abs(v.v[k] - ref->vals[at].v[k]) < 1e-6 * scale, "field ", "EH"[k / 3], "xyz"[k % 3], " at ", v.pos[0], ",", v.pos[1], ",", v.pos[2], " is ", v.v[k], " on rank ", r, " of ", nr, ", on one rank ", ref->vals[at].v[k])) { return; } }
						}
						ex.step(3);
					}
					for (int n : seen) { if (!ex.check(n == 1, "a node belongs to ", n, " ranks")) { return; } }
					ex.trace(nr);
				});
			});
		}
	}
	return ex.finish();
}
