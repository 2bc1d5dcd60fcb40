// C11: clean-up of mesh files. All sequences of entity lines over an alphabet of types, tags
// and tag counts; loaded once, twice and three times; other formats; and on two and three ranks
// with every choice of a rank that reads as late as it can.
#include "hx.hpp"
#include "driver/driver.h"

using namespace maxwell;
using hx::V3;
struct Ent { int type, dim; int nodes; };
static const std::vector<Ent> types{ { 15, 0, 1 }, { 1, 1, 2 }, { 2, 2, 3 }, { 4, 3, 4 }, { 8, 1, 3 }, { 9, 2, 6 }, { 11, 3, 10 }, { 3, 2, 4 }, { 5, 3, 8 }, { 26, 1, 4 }, { 21, 2, 10 }, { 29, 3, 20 } };

static std::vector<std::string> words(const std::string& l) { std::vector<std::string> r; std::istringstream i(l); std::string w; while (i >> w) { r.push_back(w); } return r; }

int main()
{
	vh::Explorer ex;
	const std::string nodesText = [] { std::string s = "$Nodes\n24\n"; for (int i = 1; i <= 24; i++) { s += vh::str(i, " ", (i * 7) % 5 * 0.25, " ", (i * 3) % 4 * 0.5, " ", i % 3, "\n"); } return s + "$EndNodes\n"; }();
	const std::string pre = "$MeshFormat\n2.2 0 8\n$EndMeshFormat\n$PhysicalNames\n2\n1 91 \"wall $Elements-like\"\n2 92 \"air\"\n$EndPhysicalNames\n";
	const std::string pre2 = "$MeshFormat\n2.2 0 8\n$EndMeshFormat\n";
	const std::string post = "$ElementData\n1\n\"x\"\n1\n0.0\n$EndElementData\n";
	auto load = [&](const std::string& file) {
		json j;
		j["model"]["filename"] = file;
		j["model"]["materials"] = json::array();
		j["model"]["boundaries"] = json::array();
		j["sources"] = json::array();
		try { driver::buildModel(j, "case/case.json", false); } catch (const std::exception&) {}
	};
	// one explored file: entities given as (type index, geometric tag, number of tags)
	using Line = std::array<int, 3>;
	auto run = [&](const std::string& key, const std::vector<Line>& ls, bool names, bool tail, const std::string& sep) {
		if (!ex.begin(key)) { return; }
		ex.guarded([&] {
			hx::MuteAll mute;
			hx::Scratch dir;
			std::string text = (names ? pre.substr(0, pre.find("$PhysicalNames")) + "$PhysicalNames\n2\n1 91 \"wall\"\n2 92 \"air\"\n$EndPhysicalNames\n" : pre2) + nodesText + vh::str("$Elements\n", ls.size(), "\n");
			const std::string head = text.substr(0, text.find("$Elements"));
			int id = 5;   // numbering with gaps
			std::vector<std::vector<std::string>> want;
			int dim = 0;
			bool curved = false;
			for (auto& l : ls) { dim = std::max(dim, types[l[0]].dim); curved = curved || types[l[0]].type == 3 || types[l[0]].type == 5; }
			std::vector<bool> may;
			for (auto& l : ls) {
				const auto& t = types[l[0]];
				std::vector<std::string> w{ std::to_string(id), std::to_string(t.type), std::to_string(l[2]), std::to_string(l[1] + 90), std::to_string(l[1]) };
				for (int i = 2; i < l[2]; i++) { w.push_back(std::to_string(i)); }
				for (int i = 0; i < t.nodes; i++) { w.push_back(std::to_string(1 + (id * 3 + i * 5) % 24)); }
				for (size_t i = 0; i < w.size(); i++) { text += (i ? sep : std::string()) + w[i]; }
				text += "\n";
				id += 3;
				w[3] = w[4];
				want.push_back(w);
				may.push_back((dim == 2 && t.dim == 0) || (dim == 3 && t.dim <= 1));
			}
			text += "$EndElements\n";
			const std::string footer = tail ? post : "";
			text += footer;
			hx::spew("case/case.msh", text);
			load("case.msh");
			const std::string once = hx::slurp("case/case.msh");
			load("case.msh");
			const std::string twice = hx::slurp("case/case.msh");
			ex.step(2);
			ex.check(once == twice, "cleaning a second time changes the file");
			auto at = once.find("$Elements\n"), end = once.find("$EndElements\n");
			if (!ex.check(at != std::string::npos && end != std::string::npos, "entity section lost")) { return; }
			ex.check(once.substr(0, at) == head, "nodes or sections before the entities changed");
			ex.check(once.substr(end + 13) == footer, "sections after the entities changed");
			auto body = hx::lines(once.substr(at + 10, end - at - 10));
			if (!ex.check(!body.empty(), "no count")) { return; }
			ex.check(body[0] == std::to_string(body.size() - 1), "count ", body[0], " for ", body.size() - 1, " entities");
			size_t k = 1;
			for (size_t i = 0; i < want.size(); i++) {
				auto w = want[i];
				// quadrilaterals and hexahedra: the low-dimensional entities may stay as well
				auto g = k < body.size() ? words(body[k]) : std::vector<std::string>{};
				bool same = g.size() == w.size();
				for (size_t q = 1; same && q < w.size(); q++) { same = g[q] == w[q]; }
				if (may[i]) { if (curved && same) { ex.check(g[0] == std::to_string(k), "numbering"); k++; } continue; }
				if (!ex.check(same, "entity ", i, " (type ", types[ls[i][0]].type, ") lost or changed: ", k < body.size() ? body[k] : "nothing")) { return; }
				ex.check(g[0] == std::to_string(k), "entity numbered ", g[0], " instead of ", k);
				k++;
			}
			ex.check(k == body.size(), "entities of too low dimension left: ", k < body.size() ? body[k] : "");
			ex.trace();
		});
	};
	const int A = ex.thorough() ? int(types.size()) : 9;
	const int L = 4;
	for (int len = 1; len <= L; len++) {
		std::vector<int> base(len, A);
		hx::tuples(base, [&](const std::vector<int>& t) {
			std::vector<Line> ls;
			std::string key = "seq";
			for (int i = 0; i < len; i++) { ls.push_back({ t[i], 2 + (i * 5) % 7, 2 + i % 2 }); key += vh::str(" ", types[t[i]].type); }
			run(key, ls, len % 2, len % 3 == 0, " ");
		});
	}
	// all types alone and with each other type, every number of tags, separators, sections
	for (size_t a = 0; a < types.size(); a++) for (size_t b = 0; b < types.size(); b++) for (int nt = 2; nt <= 4; nt++) for (int v = 0; v < 8; v++) {
		run(vh::str("pair ", types[a].type, " ", types[b].type, " nt", nt, " v", v), { { int(a), 3, nt }, { int(b), 12, 2 + (nt + 1) % 3 } }, v & 1, v & 2, v & 4 ? "\t " : " ");
	}
	// other formats keep their bytes
	struct Other { std::string name, text; };
	const std::string body = nodesText + "$Elements\n3\n5 15 2 91 1 1\n8 1 2 91 1 1 2\n11 2 2 92 2 1 2 3\n$EndElements\n";
	auto gm = hx::gmsh(hx::box(hx::TRI, { 1, 1, 0 }));
	const std::string v41 = "$MeshFormat\n4.1 0 8\n$EndMeshFormat\n$Nodes\n1 3 1 3\n2 1 0 3\n1\n2\n3\n0 0 0\n1 0 0\n0 1 0\n$EndNodes\n$Elements\n1 1 1 1\n2 1 2 1\n1 1 2 3\n2 1 2 3 9\n3 2 2 5 6 7\n$EndElements\n";
	const std::vector<Other> others{ { "case.mesh", "MFEM mesh v1.0\n\ndimension\n1\n\nelements\n2\n3 1 0 1\n4 1 1 2\n\nboundary\n2\n1 0 0\n2 0 2\n\nvertices\n3\n1\n0\n0.5\n1\n" }, { "case.mesh", pre2 + body }, { "case.msh", v41 }, { "case.msh", "$MeshFormat\n2.2 1 8\n$EndMeshFormat\n" + body }, { "case.msh", "$MeshFormat\n4 0 8\n$EndMeshFormat\n" + body }, { "case.msh", "$MeshFormat\n3 0 8\n$EndMeshFormat\n" + body }, { "case.msh", body }, { "case.msh", "" }, { "case.msh", pre2 + nodesText }, { "case.msh", "MFEM mesh v1.0\n" + body } };
	for (size_t i = 0; i < others.size(); i++) for (int ranks = 1; ranks <= 3; ranks++) {
		if (!ex.begin(vh::str("other ", i, " ", others[i].name, " r", ranks))) { continue; }
		ex.guarded([&] {
			hx::MuteAll mute;
			hx::Scratch dir;
			hx::spew("case/" + others[i].name, others[i].text);
			if (ranks == 1) { load(others[i].name); load(others[i].name); }
			else { try { mpisim::runWorld(ranks, [&](int) { load(others[i].name); }); } catch (const std::exception&) {} }
			ex.check(hx::slurp("case/" + others[i].name) == others[i].text, "file rewritten");
			ex.check(hx::tree("case").size() == 1, "extra files beside the mesh");
			ex.step(2); ex.trace();
		});
	}
	// several ranks: every lagging rank, with and without the second load, fresh and clean files
	for (hx::Kind k : { hx::SEG, hx::TRI, hx::QUAD, hx::TET, hx::HEX }) for (int ranks = 1; ranks <= 3; ranks++) for (int lag = -1; lag < ranks; lag++) for (int both = 0; both < 4; both++) for (int clean = 0; clean < 2; clean++) for (int refine = 0; refine < 2; refine++) {
		if (ranks == 1 && lag >= 0) { continue; }
		if (!ex.begin(vh::str("ranks ", ranks, " ", hx::kindName(k), " lag ", lag, " decl ", both, " clean ", clean, " refine ", refine))) { continue; }
		ex.guarded([&] {
			hx::MuteAll mute;
			hx::Scratch dir;
			const int dim = hx::kindDim(k);
			auto def = hx::box(k, { 4, 1, 1 }, { 4, 1, 1 }, 0.0, [](const V3& c) { return std::abs(c[0] - 2) < 1e-9 ? 8 : 0; }, [](const V3& c) { return c[0] < 2 ? 3 : 5; });
			std::string text = hx::gmsh(def, clean ? 0 : 40);
			hx::spew("case/case.msh", text);
			json j;
			j["model"]["filename"] = "case.msh";
			j["model"]["materials"] = json::array();
			j["model"]["boundaries"] = json::array();
			j["sources"] = json::array();
			if (both & 1) { j["model"]["materials"].push_back({ { "tags", { 3 } }, { "relative_permittivity", 2.0 } }); }
			if (both & 2) { j["model"]["boundaries"].push_back({ { "tags", { 1 } }, { "type", "PEC" } }); }
			if (refine) { j["model"]["refinement"] = 1; }
			std::vector<long> ne(ranks), nb(ranks), a3(ranks), b8(ranks);
			mpisim::setLagging(lag);
			try {
				mpisim::runWorld(ranks, [&](int r) {
					auto m = driver::buildModel(j, "case/case.json", false);
					auto& me = m.getMesh();
					ne[r] = me.GetNE();
					for (int e = 0; e < me.GetNE(); e++) { a3[r] += me.GetAttribute(e) == 3; }
					for (int b = 0; b < me.GetNBE(); b++) { b8[r] += me.GetBdrAttribute(b) == 8; nb[r] += me.GetBdrAttribute(b) != 8; }
				});
			}
			catch (...) { mpisim::setLagging(-1); throw; }
			mpisim::setLagging(-1);
			long sum[3] = { 0, 0, 0 };
			for (int r = 0; r < ranks; r++) { sum[0] += ne[r]; sum[1] += a3[r]; sum[2] += nb[r]; }
			const int child = refine ? 1 << dim : 1;
			const long outer = long(def.bdr.size()) - [&] { long n = 0; for (auto& b : def.bdr) { n += b.tag == 8; } return n; }();
			ex.check(sum[0] == long(def.elems.size()) * child, sum[0], " elements");
			ex.check(sum[1] == long(def.elems.size()) * child / 2, sum[1], " elements of region 3");
			ex.check(sum[2] == outer * (refine ? 1 << (dim - 1) : 1), sum[2], " outer faces");
			if (ranks == 1) { ex.check(b8[0] > 0, "interface lost"); }
			const auto after = hx::slurp("case/case.msh");
			ex.check(after == hx::gmsh(def, 0), "file not clean afterwards");
			ex.step(ranks); ex.trace(ranks);
		});
	}
	return ex.finish();
}
