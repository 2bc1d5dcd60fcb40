// C13: thin-layer panels in case files. Grid of widths, materials, source sets and overrides for
// stacks of one to three layers, against the documented resolution rule.
#include "hx.hpp"
#include "driver/driver.h"

using namespace maxwell;
static const double C_SI = 299792458.0, MU0 = 4e-7 * M_PI, EPS0 = 1.0 / (MU0 * C_SI * C_SI), Z0 = MU0 * C_SI;

struct Lay { double eps, mu, sig, w; int form; int seg, ord; };   // form: which keys are written; seg/ord 0: automatic
struct Src { std::string name; json j; double f; };

// acceptable values (rounding ties give two)
static std::set<size_t> orders(const Lay& l, double f)
{
	std::set<size_t> r;
	if (l.ord) { return { size_t(l.ord) }; }
	for (double e : { 1 - 1e-6, 1 + 1e-6 }) {
		const double pe = e * l.sig / (f * l.eps * EPS0);
		r.insert(pe > 100 ? 2 : (pe < 0.1 && l.sig < 1e-3 ? 4 : 3));
	}
	return r;
}
static std::set<size_t> cells(const Lay& l, double f, size_t autoOrder)
{
	std::set<size_t> r;
	if (l.seg) { return { size_t(l.seg) }; }
	const double lambda = C_SI / (f * std::sqrt(l.eps * l.mu));
	double dx = lambda / std::ceil(20.0 / autoOrder);
	if (l.sig > 0) { dx = std::min(dx, 0.5 / std::sqrt(M_PI * f * l.mu * MU0 * l.sig)); }
	for (double e : { 1 - 1e-6, 1 + 1e-6 }) { r.insert(size_t(std::min(1000.0, std::max(4.0, std::ceil(l.w / dx * e))))); }
	return r;
}

int main()
{
	vh::Explorer ex;
	std::vector<Src> srcs;
	auto pw = [](double spread, double f, bool type) { json j; j["type"] = "planewave"; j["tags"] = { 5 }; j["polarization"] = { 0, 1, 0 }; j["propagation"] = { 1, 0, 0 }; j["magnitude"]["spread"] = spread; j["magnitude"]["mean"] = { -1.0 }; if (f > 0) { j["magnitude"]["frequency"] = f; } if (type) { j["magnitude"]["type"] = "gaussian"; } return j; };
	auto init = [](double spread) { json j; j["type"] = "initial"; j["field_type"] = "electric"; j["polarization"] = { 0, 1, 0 }; j["center"] = { 0.5 }; j["dimension"] = 1; j["magnitude"] = { { "type", "gaussian" }, { "spread", spread } }; return j; };
	json res; res["type"] = "initial"; res["field_type"] = "electric"; res["polarization"] = { 0, 1, 0 }; res["magnitude"] = { { "type", "resonant" }, { "modes", { 1 } } };
	json dip; dip["type"] = "dipole"; dip["tags"] = { 5 }; dip["magnitude"] = { { "length", 0.1 }, { "spread", 0.4 } };
	struct One { std::string n; json j; double f; };
	const std::vector<One> ones{ { "pwT", pw(0.1, 0, true), C_SI / 0.2 }, { "pw", pw(0.3, 0, false), C_SI / 0.6 }, { "mod", pw(0.5, 6e8, false), 6e8 + C_SI }, { "modT", pw(0.02, 1e8, true), 1e8 + C_SI / 0.04 }, { "init", init(0.25), C_SI / 0.5 }, { "res", res, 0 }, { "dip", dip, C_SI / 0.8 } };
	srcs.push_back({ "none", json::array(), 1e9 });
	for (auto& a : ones) {
		srcs.push_back({ a.n, json::array({ a.j }), a.f > 0 ? a.f : 1e9 });
		for (auto& b : ones) { srcs.push_back({ a.n + "+" + b.n, json::array({ a.j, b.j }), std::max(a.f, b.f) > 0 ? std::max(a.f, b.f) : 1e9 }); }
	}
	hx::MeshDef def = hx::box(hx::SEG, { 4, 0, 0 }, { 4, 1, 1 }, 0.0, [](const hx::V3& c) { return std::abs(c[0] - 2) < 1e-9 ? 7 : (std::abs(c[0] - 3) < 1e-9 ? 8 : (std::abs(c[0] - 1) < 1e-9 ? 5 : 0)); });
	hx::Scratch dir;
	auto layJson = [](const Lay& l) {
		json j;
		if (l.eps != 1 || l.form & 1) { j["relative_permittivity"] = l.eps; }
		if (l.mu != 1 || l.form & 2) { j["relative_permeability"] = l.mu; }
		j["bulk_conductivity"] = l.sig;
		j["material_width"] = l.w;
		if (l.seg) { j["num_of_segments"] = l.seg; }
		if (l.ord) { j["order"] = l.ord; }
		return j;
	};
	const char* ends[] = { "", "PEC", "PMC", "SMA" };
	const BdrCond endc[] = { BdrCond::SMA, BdrCond::PEC, BdrCond::PMC, BdrCond::SMA };
	struct Panel { std::vector<Lay> ls; std::vector<int> tags; int left, right; bool asLayers, bdrInMat; };
	auto run = [&](const std::string& key, const Src& src, const std::vector<Panel>& ps, int ranks) {
		if (!ex.begin(key)) { return; }
		ex.guarded([&] {
			hx::MuteAll mute;
			hx::spew("case/case.msh", hx::gmsh(def));
			json j;
			j["model"]["filename"] = "case.msh";
			j["model"]["materials"] = json::array({ { { "tags", { 1 } } } });
			j["model"]["boundaries"] = json::array({ { { "tags", { 1, 2 } }, { "type", "PEC" } } });
			j["sources"] = src.j;
			for (auto& p : ps) {
				json b;
				b["type"] = "SGBC";
				b["tags"] = p.tags;
				if (p.asLayers) { b["layers"] = json::array(); for (auto& l : p.ls) { b["layers"].push_back(layJson(l)); } }
				else { b["material"] = layJson(p.ls[0]); }
				json& e = p.bdrInMat && !p.asLayers ? b["material"] : b;
				if (p.left) { e["sgbc_boundaries"]["left"] = ends[p.left]; }
				if (p.right) { e["sgbc_boundaries"]["right"] = ends[p.right]; }
				j["model"]["boundaries"].push_back(b);
			}
			std::vector<std::string> errs(ranks);
			mpisim::runWorld(ranks, [&](int r) {
				auto err = [&](const std::string& w) { if (errs[r].empty()) { errs[r] = w; } };
				auto m = driver::buildModel(j, "case/case.json", false);
				auto& got = m.getSGBCProperties();
				if (got.size() != ps.size()) { err(vh::str(got.size(), " panels")); return; }
				for (size_t k = 0; k < ps.size(); k++) {
					auto& g = got[k];
					auto& p = ps[k];
					if (g.geom_tags != std::vector<size_t>(p.tags.begin(), p.tags.end())) { err("tags"); }
					if (g.layers.size() != p.ls.size()) { err("layer count"); return; }
					auto bi = g.sgbc_bdr_info;
					if (bi.first.isOn != (p.left > 0) || bi.second.isOn != (p.right > 0) || (p.left && bi.first.bdrCond != endc[p.left]) || (p.right && bi.second.bdrCond != endc[p.right])) { err("panel end conditions"); }
					double width = 0;
					size_t nseg = 0, mo = 1;
					for (size_t i = 0; i < p.ls.size(); i++) {
						auto& l = p.ls[i];
						auto& q = g.layers[i];
						if (q.width != l.w || q.material.getPermittivity() != l.eps || q.material.getPermeability() != l.mu || !vh::close(q.material.getConductivity(), l.sig * Z0, 1e-8)) { err(vh::str("layer ", i, " material or width")); }
						if (!orders(l, src.f).count(q.order)) { err(vh::str("layer ", i, " order ", q.order, " at ", src.f)); }
						Lay a = l;
						a.ord = 0;
						bool ok = false;
						for (size_t o : orders(a, src.f)) { ok = ok || cells(l, src.f, o).count(q.num_of_segments); }
						if (!ok) { err(vh::str("layer ", i, " has ", q.num_of_segments, " cells instead of ", *cells(l, src.f, *orders(a, src.f).begin()).begin(), " at ", src.f)); }
						const double nd = l.sig > 0 ? l.w * std::sqrt(M_PI * src.f * l.mu * MU0 * l.sig) : 0.0;
						if (!vh::close(q.n_skin_depths, nd, 1e-8)) { err(vh::str("layer ", i, " skin depths ", q.n_skin_depths, " instead of ", nd)); }
						width += l.w; nseg += q.num_of_segments; mo = std::max(mo, q.order);
					}
					if (!vh::close(g.totalWidth(), width, 1e-12) || g.totalSegments() != nseg || g.maxOrder() != mo) { err("totals"); }
				}
			});
			for (int r = 0; r < ranks; r++) { ex.check(errs[r].empty(), "rank ", r, ": ", errs[r]); }
			ex.step(long(ps.size())); ex.trace(ranks);
		});
	};
	const std::vector<double> widths{ 1e-4, 1e-3, 0.02, 0.5, 3.0 }, epss{ 1, 4.0, 80 }, mus{ 1, 5.0 }, sigs{ 0, 1e-6, 5e-4, 2e-3, 0.3, 10, 1e3, 1e7 };
	// every single layer and source set
	for (auto& s : srcs) for (double w : widths) for (double e : epss) for (double m : mus) for (double g : sigs) {
		const int f = (w > 1e-2) + 2 * (g > 1);
		run(vh::str("one ", s.name, " w", w, " e", e, " m", m, " s", g), s, { { { { e, m, g, w, f, 0, 0 } }, { 7 }, 0, 0, w < 1e-3, false } }, 1);
	}
	// overrides, ends, forms, ranks
	for (size_t si : { size_t(1), size_t(3) }) for (double g : { 0.0, 10.0, 1e7 }) for (int seg : { 0, 1, 3, 5000 }) for (int ord : { 0, 1, 5 }) for (int l = 0; l < 4; l++) for (int r = 0; r < 4; r++) for (int form = 0; form < 3; form++) {
		run(vh::str("over ", si, " s", g, " seg", seg, " ord", ord, " ends", l, r, " form", form), srcs[si], { { { { 2, 1, g, 0.01, 0, seg, ord } }, { 7 }, l, r, form == 0, form == 2 } }, 1);
	}
	// stacks of up to three layers, one or two panels, one to three ranks
	const std::vector<Lay> pool{ { 1, 1, 0, 0.5, 0, 0, 0 }, { 4, 1, 10, 1e-3, 3, 0, 0 }, { 1, 1, 1e7, 1e-4, 0, 0, 0 }, { 2.5, 2, 1e-6, 0.02, 0, 6, 0 }, { 1, 3, 0.3, 0.1, 0, 0, 2 } };
	const int P = int(pool.size());
	for (int ranks = 1; ranks <= 3; ranks++) for (int a = 0; a < P; a++) for (int b = -1; b < P; b++) for (int c = -1; c < P; c++) for (int two = 0; two < 3; two++) {
		if (b < 0 && c >= 0) { continue; }
		std::vector<Lay> ls{ pool[a] };
		if (b >= 0) { ls.push_back(pool[b]); }
		if (c >= 0) { ls.push_back(pool[c]); }
		std::vector<Panel> ps{ { ls, { 7 }, 0, 0, true, false } };
		if (two == 1) { ps[0].tags = { 8, 7 }; }
		if (two == 2) { ps.push_back({ { pool[(a + 1) % P] }, { 8 }, 1, 0, false, false }); }
		run(vh::str("stack ", a, b, c, " two", two, " r", ranks), srcs[4], ps, ranks);
	}
	return ex.finish();
}
