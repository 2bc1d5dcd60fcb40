// C06: tags of the mesh against materials and conditions declared in a case file, over all
// assignments, tag numberings, declaration orders and groupings, in one to three dimensions and
// on one to three ranks.
#include "hx.hpp"
#include "driver/driver.h"

using namespace maxwell;
using hx::V3;

static const double Z0 = 376.730313668;      // as documented: conductivity is scaled by the free-space impedance
struct Mat { double eps, mu, sig; bool e, m, s; };
static const std::vector<Mat> mats{ { 1, 1, 0, false, false, false }, { 2.5, 1, 0, true, false, false }, { 1, 3.0, 0, false, true, false }, { 4.0, 2.0, 0.25, true, true, true } };
static json matJson(const Mat& m)
{
	json j = json::object();
	if (m.e) { j["relative_permittivity"] = m.eps; }
	if (m.m) { j["relative_permeability"] = m.mu; }
	if (m.s) { j["bulk_conductivity"] = m.sig; }
	return j;
}
static hx::MeshDef mesh(hx::Kind k, const std::vector<int>& reg, const std::vector<int>& bdr)
{
	// three columns (regions); outer left bdr[0], other outer bdr[1], interfaces bdr[2] and bdr[3]
	const int dim = hx::kindDim(k);
	auto m = hx::box(k, { 3, 1, 1 }, { 3, 1, 1 }, 0.0, nullptr, [&](const V3& c) { return reg[int(c[0])]; });
	m.tagFaces([&](const V3& c, bool interior) {
		if (interior) { return std::abs(c[0] - 1) < 1e-9 ? bdr[2] : (std::abs(c[0] - 2) < 1e-9 ? bdr[3] : 0); }
		return std::abs(c[0]) < 1e-9 ? bdr[0] : bdr[1];
	});
	(void)dim;
	return m;
}
static const char* condName[] = { "PEC", "PMC", "SMA", "SGBC", nullptr };
static const BdrCond conds[] = { BdrCond::PEC, BdrCond::PMC, BdrCond::SMA, BdrCond::SGBC };

int main()
{
	vh::Explorer ex;
	auto run = [&](const std::string& key, hx::Kind k, const std::vector<int>& reg, const std::vector<int>& bdr, const std::vector<int>& regMat, const std::vector<int>& bc, const std::vector<int>& order, bool grouped, int ranks) {
		if (!ex.begin(key)) { return; }
		ex.guarded([&] {
			hx::MuteAll mute;
			hx::Scratch dir;
			auto def = mesh(k, reg, bdr);
			hx::spew("case/case.msh", hx::gmsh(def));
			json j;
			j["model"]["filename"] = "case.msh";
			j["model"]["materials"] = json::array();
			j["model"]["boundaries"] = json::array();
			j["sources"] = json::array();
			for (int r : order) {
				if (r >= 3 || regMat[r] < 0) { continue; }
				json e = matJson(mats[regMat[r]]);
				e["tags"] = { reg[r] };
				bool done = false;
				if (grouped) { for (auto& o : j["model"]["materials"]) { json c = o; c.erase("tags"); json d = e; d.erase("tags"); if (c == d) { o["tags"].push_back(reg[r]); done = true; break; } } }
				if (!done) { j["model"]["materials"].push_back(e); }
			}
			for (int b : order) {
				if (!condName[bc[b]]) { continue; }
				json e;
				e["type"] = condName[bc[b]];
				e["tags"] = { bdr[b] };
				if (bc[b] == 3) { e["material"] = { { "relative_permittivity", 2.0 + b }, { "bulk_conductivity", 1.0 + b }, { "material_width", 1e-3 } }; }
				bool done = false;
				if (grouped && bc[b] != 3) { for (auto& o : j["model"]["boundaries"]) { if (o["type"] == e["type"]) { o["tags"].push_back(bdr[b]); done = true; break; } } }
				if (!done) { j["model"]["boundaries"].push_back(e); }
			}
			mpisim::runWorld(ranks, [&](int rank) {
				// threads share the process; only one of them reports
				std::vector<std::string> bad;
				auto need = [&](bool ok, const std::string& what) { if (!ok) { bad.push_back(what); } };
				Model m = driver::buildModel(j, "case/case.json", false);
				const auto& pm = m.getConstMesh();
				const auto eps = m.buildEpsMuPiecewiseVector(E), mu = m.buildEpsMuPiecewiseVector(H), sig = m.buildSigmaPiecewiseVector();
				mfem::PWConstCoefficient ce(const_cast<mfem::Vector&>(eps)), cm(const_cast<mfem::Vector&>(mu)), cs(const_cast<mfem::Vector&>(sig));
				for (int e = 0; e < pm.GetNE(); e++) {
					mfem::Vector c;
					const_cast<mfem::ParMesh&>(pm).GetElementCenter(e, c);
					const int r = int(c[0]), a = pm.GetAttribute(e);
					need(a == reg[r], vh::str("element of region ", reg[r], " carries tag ", a));
					const Mat& want = regMat[r] < 0 ? mats[0] : mats[regMat[r]];
					need(a <= eps.Size() && a <= mu.Size() && a <= sig.Size(), "region without material");
					if (a <= eps.Size() && a <= mu.Size() && a <= sig.Size()) {
						need(vh::close(eps[a - 1], want.eps, 1e-14), vh::str("region ", a, " has permittivity ", eps[a - 1]));
						need(vh::close(mu[a - 1], want.mu, 1e-14), vh::str("region ", a, " has permeability ", mu[a - 1]));
						need(vh::close(sig[a - 1], want.sig * Z0, 1e-8), vh::str("region ", a, " has conductivity ", sig[a - 1]));
					}
				}
				for (int inner = 0; inner < 2; inner++) {
					const auto& map = inner ? m.getInteriorBoundaryToMarker() : m.getBoundaryToMarker();
					for (int c = 0; c < 4; c++) {
						auto it = map.find(conds[c]);
						for (int t = 1; t <= 12; t++) {
							bool want = false;
							for (int b = 0; b < 4; b++) { if (bdr[b] == t && bc[b] == c && (b >= 2) == (inner == 1)) { want = true; } }
							const bool have = it != map.end() && t <= it->second.Size() && it->second[t - 1] != 0;
							need(have == want, vh::str(inner ? "interface" : "boundary", " tag ", t, have ? " is" : " is not", " governed by ", condName[c]));
						}
						if (it != map.end()) { need(it->second.Size() == pm.bdr_attributes.Max(), "marker of another length than the boundary tags"); }
					}
					const auto& cm2 = inner ? m.getGeomTagToIntBoundaryCond() : m.getGeomTagToBoundaryCond();
					size_t expect = 0;
					for (int b = 0; b < 4; b++) {
						if (!condName[bc[b]] || (b >= 2) != (inner == 1)) { continue; }
						expect++;
						auto it = cm2.find(bdr[b]);
						need(it != cm2.end() && it->second == conds[bc[b]], vh::str("tag ", bdr[b], " not mapped to its condition"));
					}
					need(cm2.size() == expect, "additional tags mapped to conditions");
				}
				std::map<int, double> layers;
				for (auto& p : m.getSGBCProperties()) { for (auto t : p.geom_tags) { need(p.layers.size() == 1 && !layers.count(int(t)), "thin panel tag twice or without its layer"); if (p.layers.size() == 1) { layers[int(t)] = p.layers[0].material.getPermittivity(); } } }
				size_t panels = 0;
				for (int b = 0; b < 4; b++) { if (bc[b] == 3) { panels++; need(layers.count(bdr[b]) && layers[bdr[b]] == 2.0 + b, vh::str("thin panel ", bdr[b], " has another panel's material")); } }
				need(layers.size() == panels, "additional thin panels");
				if (!bad.empty() ) { static std::mutex mx; std::lock_guard<std::mutex> l(mx); ex.fail(vh::str("rank ", rank, ": ", bad[0])); }
			});
			ex.step(7);
			ex.trace();
		});
	};
	auto name = [](const std::vector<int>& v) { std::string s; for (int i : v) { s += vh::str(i, ","); } return s; };
	const std::vector<int> id4{ 0, 1, 2, 3 };
	std::vector<std::vector<int>> bdrNums, regNums{ { 1, 2, 3 }, { 1, 3, 2 }, { 2, 1, 3 }, { 2, 3, 1 }, { 3, 1, 2 }, { 3, 2, 1 }, { 2, 5, 3 }, { 4, 2, 7 } };
	for (auto& p : hx::perms(4)) { bdrNums.push_back({ p[0] + 1, p[1] + 1, p[2] + 1, p[3] + 1 }); }
	bdrNums.push_back({ 2, 7, 4, 9 });
	bdrNums.push_back({ 9, 3, 12, 5 });
	// all conditions x all tag numberings
	for (auto& num : bdrNums) hx::tuples({ 3, 3, 5, 5 }, [&](const std::vector<int>& bc) {
		run(vh::str("bdr quad tags=", name(num), " cond=", name(bc)), hx::QUAD, { 1, 2, 3 }, num, { 1, 2, 3 }, bc, id4, (bc[0] + bc[2]) % 2, 1);
	});
	// all declaration orders, grouped or not
	for (auto& ord : hx::perms(4)) for (auto& num : { bdrNums[0], bdrNums[23], bdrNums[9], bdrNums[24] }) for (int g = 0; g < 2; g++) hx::tuples({ 2, 3, 3, 2 }, [&](const std::vector<int>& bc) {
		run(vh::str("order ", name(ord), " tags=", name(num), " cond=", name(bc), " g=", g), hx::QUAD, { 2, 3, 1 }, num, { 3, 1, 2 }, bc, ord, g, 1);
	});
	// all material assignments (-1 = not declared)
	for (auto& rn : regNums) for (auto& ord : hx::perms(3)) for (int g = 0; g < 2; g++) hx::tuples({ 5, 5, 5 }, [&](std::vector<int> rm) {
		for (int& r : rm) { r -= 1; }
		run(vh::str("mat tags=", name(rn), " mats=", name(rm), " order=", name(ord), " g=", g), hx::QUAD, rn, { 1, 2, 3, 4 }, rm, { 0, 2, 4, 4 }, { ord[0], ord[1], ord[2], 3 }, g, 1);
	});
	// other element kinds and several ranks
	for (auto k : { hx::SEG, hx::TRI, hx::TET, hx::HEX, hx::QUAD }) for (int ranks = 1; ranks <= 3; ranks++) for (auto& num : { bdrNums[0], bdrNums[23], bdrNums[13], bdrNums[24] }) hx::tuples({ 3, 2, 5, 3 }, [&](const std::vector<int>& bc) {
		run(vh::str(hx::kindName(k), " ranks=", ranks, " tags=", name(num), " cond=", name(bc)), k, { 3, 1, 2 }, num, { 3, -1, 2 }, bc, { 3, 1, 2, 0 }, true, ranks);
	});
	return ex.finish();
}
