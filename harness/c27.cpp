// C27: which elements the total/scattered field extraction picks, for every numbering of small meshes.
#include "sx.hpp"
#include "components/SubMesher.h"

using namespace maxwell;
using hx::V3;

static vh::Explorer ex;

static void judge(const std::string& where, const hx::MeshDef& d, const std::vector<int>& tags, const std::set<int>& in, const std::set<int>& out)
{
	auto mesh = d.build();
	mfem::Array<int> marker(mesh.bdr_attributes.Max());
	marker = 0;
	for (int t : tags) { marker[t - 1] = 1; }
	TotalFieldScatteredFieldSubMesher sm(mesh, marker);
	auto tf = sx::parents(sm.getTFSubMesh()), sf = sx::parents(sm.getSFSubMesh()), gl = sx::parents(sm.getGlobalTFSFSubMesh());
	auto both = in;
	both.insert(out.begin(), out.end());
	if (tf != in) { ex.fail(where + ": the total-field set is " + sx::show(tf) + ", inside touching elements " + sx::show(in)); }
	if (sf != out) { ex.fail(where + ": the scattered-field set is " + sx::show(sf) + ", outside touching elements " + sx::show(out)); }
	if (gl != both) { ex.fail(where + ": the joint set is " + sx::show(gl) + ", touching elements " + sx::show(both)); }
	ex.trace();
}

int main()
{
	const bool T = ex.thorough();
	// 1-D: left to right elements, any vertex labels; one or two points anywhere.
	for (int n = 2; n <= (T ? 6 : 5); n++) for (int a = 0; a <= n; a++) for (int b = a; b <= n; b++) {
		if (!ex.begin(vh::str("seg", n, " points ", a, ",", b))) { continue; }
		ex.guarded([&] {
			auto d = hx::box(hx::SEG, { n, 0, 0 }, { double(n), 1, 1 }, 0.1);
			std::set<int> in, out;
			std::vector<int> order;
			for (int i = 0; i <= n; i++) { order.push_back(i); }
			std::sort(order.begin(), order.end(), [&](int i, int j) { return d.verts[i][0] < d.verts[j][0]; });
			d.bdr.clear();
			for (int i = 0; i <= n; i++) {
				const bool s = i == a || i == b;
				if (s) { d.bdr.push_back({ { order[i] }, 3 }); }
				else if (i == 0 || i == n) { d.bdr.push_back({ { order[i] }, i == 0 ? 1 : 2 }); }
			}
			// a single point opens towards the right (or into the mesh from its end)
			auto inside = [&](int e) { return a == b ? (a == n ? true : e >= a) : e >= a && e < b; };
			for (int p : { a, b }) { if (p > 0) { (inside(p - 1) ? in : out).insert(p - 1); } if (p < n) { (inside(p) ? in : out).insert(p); } }
			for (auto& p : hx::perms(n + 1)) {
				ex.step();
				sx::Variant v{ "", d, {} };
				sx::relabel(v, p);
				std::string t = "labels ";
				for (int i : p) { t += std::to_string(i); }
				ex.state(t);
				judge(t, v.def, { 3 }, in, out);
				if (ex.failed()) { return; }
			}
		});
	}
	auto surfaces = sx::surfaces2D(T);
	for (auto& c : sx::surfaces3D(T)) { surfaces.push_back(c); }
	for (auto& c : surfaces) {
		// An opened strip or slab is not a closed convex surface in 3-D but its two sheets are those of a box.
		const int rank = c.def.dim() == 2 ? 1 : 0;
		int group = 0, count = 0;
		bool active = false;
		sx::variants(c, rank, T, [&](const sx::Variant& v) {
			if (count++ % 400 == 0) { active = ex.begin(vh::str(c.name, " part ", group++)); }
			if (!active || ex.failed()) { return; }
			ex.guarded([&] {
				ex.state(v.name);
				ex.step();
				auto s = sx::sides(v.def, c.tag, v.inside);
				judge(c.name + ", " + v.name, v.def, { c.tag }, s.in, s.out);
			});
		});
	}
	return ex.finish();
}
