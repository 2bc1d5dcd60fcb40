// C14: the constrained partition. All proposed partitions of small meshes over two and three
// ranks x all choices of total-field and thin-panel faces among the interior ones.
#include "hx.hpp"
#include "driver/driver.h"

using namespace maxwell;
using hx::V3;
namespace mfem { extern const std::vector<int>* forcedPartitioning; }

int main()
{
	vh::Explorer ex;
	struct Cfg { std::string name; hx::MeshDef def; int maxRanks; bool ternary; };
	auto tagged = [](hx::MeshDef d) { int n = 0; auto fe = d.faceElems(); d.tagFaces([&](const V3&, bool in) { return in ? 10 + n++ : 1; }); return d; };
	std::vector<Cfg> cfgs{
		{ "seg4", tagged(hx::box(hx::SEG, { 4, 0, 0 })), 3, true }, { "seg5", tagged(hx::box(hx::SEG, { 5, 0, 0 })), 2, true }, { "quad22", tagged(hx::box(hx::QUAD, { 2, 2, 0 })), 3, true },
		{ "tri21", tagged(hx::box(hx::TRI, { 2, 1, 0 })), 3, true }, { "quad32", tagged(hx::box(hx::QUAD, { 3, 2, 0 })), 2, false }, { "hex221", tagged(hx::box(hx::HEX, { 2, 2, 1 })), 3, false }, { "tet6", tagged(hx::box(hx::TET, { 1, 1, 1 })), 2, false } };
	if (ex.thorough()) { cfgs.push_back({ "tri22", tagged(hx::box(hx::TRI, { 2, 2, 0 })), 2, false }); }
	hx::Scratch dir;
	for (auto& c : cfgs) {
		hx::spew(c.name + "/" + c.name + ".msh", hx::gmsh(c.def));
		std::vector<std::pair<int, int>> faces;
		auto fe = c.def.faceElems();
		for (auto& b : c.def.bdr) if (b.tag >= 10) { auto s = b.v; std::sort(s.begin(), s.end()); faces.push_back({ fe[s][0], fe[s][1] }); }
		const int NE = int(c.def.elems.size()), NF = int(faces.size());
		for (int ranks = 2; ranks <= c.maxRanks; ranks++) {
			hx::tuples(std::vector<int>(NF, c.ternary ? 3 : 2), [&](const std::vector<int>& choice) {
				hx::tuples(std::vector<int>(NE, ranks), [&](const std::vector<int>& part) {
					std::string key = c.name + " r" + std::to_string(ranks) + " f";
					for (int x : choice) { key += char('0' + x); }
					key += " p";
					for (int x : part) { key += char('0' + x); }
					if (!ex.begin(key)) { return; }
					ex.guarded([&] {
						hx::MuteAll mute;
						json j;
						j["model"]["filename"] = c.name + ".msh";
						j["model"]["materials"] = json::array({ { { "tags", { 1 } } } });
						j["model"]["boundaries"] = json::array({ { { "tags", { 1 } }, { "type", "PEC" } } });
						j["sources"] = json::array();
						json tf = json::array(), sg = json::array();
						int flip = 0;
						for (int f = 0; f < NF; f++) {
							int k = choice[f];
							if (k == 1 && !c.ternary) { k = 1 + (f + flip) % 2; }
							if (k == 1) { tf.push_back(10 + f); }
							if (k == 2) { sg.push_back(10 + f); }
						}
						if (!tf.empty()) { j["sources"].push_back({ { "type", "planewave" }, { "tags", tf }, { "polarization", { 0, 1, 0 } }, { "propagation", { 1, 0, 0 } }, { "magnitude", { { "spread", 0.1 } } } }); }
						if (!sg.empty()) { j["model"]["boundaries"].push_back({ { "type", "SGBC" }, { "tags", sg }, { "material", { { "bulk_conductivity", 1.0 }, { "material_width", 1e-3 } } } }); }
						std::vector<std::vector<int>> owner(NE);
						std::mutex mtx;
						mfem::forcedPartitioning = &part;
						try {
							mpisim::runWorld(ranks, [&](int r) {
								auto m = driver::buildModel(j, c.name + "/" + c.name + ".json", false);
								auto& me = m.getMesh();
								std::lock_guard<std::mutex> g(mtx);
								for (int e = 0; e < me.GetNE(); e++) {
									mfem::Array<int> v;
									me.GetElementVertices(e, v);
									V3 x{ 0, 0, 0 };
									for (int i = 0; i < v.Size(); i++) for (int d = 0; d < me.SpaceDimension(); d++) { x[d] += me.GetVertex(v[i])[d] / v.Size(); }
									bool found = false;
									for (int q = 0; q < NE && !found; q++) { if (hx::norm(c.def.centre(c.def.elems[q]) - x) < 1e-9) { owner[q].push_back(r); found = true; } }
									if (!found) { throw std::runtime_error("unknown element"); }
								}
							});
						}
						catch (...) { mfem::forcedPartitioning = nullptr; throw; }
						mfem::forcedPartitioning = nullptr;
						bool any = false;
						for (int e = 0; e < NE; e++) { if (!ex.check(owner[e].size() == 1, "element ", e, " is on ", owner[e].size(), " ranks")) { return; } }
						for (int f = 0; f < NF; f++) if (choice[f]) { any = true; ex.check(owner[faces[f].first] == owner[faces[f].second], "elements ", faces[f].first, " and ", faces[f].second, " of an interface are on different ranks"); }
						if (!any) { for (int e = 0; e < NE; e++) { ex.check(owner[e][0] == part[e], "unconstrained partition changed"); } }
						ex.step(ranks); ex.trace();
					});
				});
			});
		}
	}
	return ex.finish();
}
