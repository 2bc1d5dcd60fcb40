// C41: what the cells next to thin panels see. All arrangements of panels on the interior faces of
// small meshes, all numberings of the cells, every sense of the faces, for one and several panels.
#include "panels.hpp"

using namespace panels;

namespace {

// Which side a stack starts at is the solver's choice, face by face.
void judge(vh::Explorer& ex, Setup s, bool symmetric)
{
	hx::MuteAll mute;
	auto sol = solver(s, true);
	auto* g = evolution(*sol);
	if (!ex.check(g != nullptr, "no global operator")) { return; }
	const int n = 6 * sol->getFES().GetNDofs();
	const Vec u0 = generic(n, 1), u1 = generic(n, 2), u2 = generic(n, 3);
	std::vector<Vec> got;
	put(*sol, u0);
	g->commitSGBCCheckpoint(0.0, s.dt, sol->getFields());
	got.push_back(run(*g, u2, 0.0));
	put(*sol, u1);
	g->finalizeSGBCStep(sol->getFields());
	g->commitSGBCCheckpoint(s.dt, 0.4 * s.dt, sol->getFields());
	for (double f : { 0.0, 0.5, 1.0 }) { got.push_back(run(*g, u2, s.dt + f * 0.4 * s.dt)); ex.step(); }
	std::string what;
	for (int flips = 0, all = 1; flips < all; flips++) {
		s.flips = flips;
		Oracle o(s, false);
		if (!symmetric) { all = 1 << std::min(o.faces, 6); }
		if (!ex.check(o.faces > 0 && o.nodes.size() > 0, "no panels")) { return; }
		what.clear();
		auto same1 = [&](int i, double t) { const Vec e = o.derivative(u2, t); if (!same(got[i], e)) { what = vh::str("evaluation ", i, " is off by ", off(got[i], e)); } return what.empty(); };
		o.commit(0.0, s.dt, u0);
		if (!same1(0, 0.0)) { continue; }
		o.complete(u1);
		o.commit(s.dt, 0.4 * s.dt, u1);
		bool ok = true;
		for (int i = 0; i < 3 && ok; i++) { ok = same1(1 + i, s.dt + i * 0.2 * s.dt); }
		if (ok) { break; }
	}
	ex.check(what.empty(), what);
	ex.trace();
}

// Interior faces of a mesh in a fixed order, by position.
std::vector<V3> interior(const hx::MeshDef& d)
{
	std::vector<V3> r;
	for (auto& [v, e] : d.faceElems()) { if (e.size() == 2) { r.push_back(d.centre(v)); } }
	return r;
}

struct Family { std::string name; hx::MeshDef def; V3 hi; bool perms; };

} // namespace

int main()
{
	vh::Explorer ex;
	Eigen::setNbThreads(1);
	const bool deep = ex.thorough();
	std::vector<Family> fam{
		{ "seg3", hx::box(hx::SEG, { 3, 0, 0 }, { 1.5, 0, 0 }), { 1.5, 0, 0 }, true },
		{ "seg4", hx::box(hx::SEG, { 4, 0, 0 }, { 2, 0, 0 }, 0.2), { 2, 0, 0 }, true },
		{ "quad22", hx::box(hx::QUAD, { 2, 2, 0 }, { 1, 1, 0 }), { 1, 1, 0 }, true },
		{ "quad22w", hx::box(hx::QUAD, { 2, 2, 0 }, { 1, 1, 0 }, 0.3), { 1, 1, 0 }, deep },
		{ "tri21", hx::box(hx::TRI, { 2, 1, 0 }, { 1, 1, 0 }), { 1, 1, 0 }, true },
		{ "quad31", hx::box(hx::QUAD, { 3, 1, 0 }, { 1.5, 0.5, 0 }), { 1.5, 0.5, 0 }, true },
		{ "hex211", hx::box(hx::HEX, { 2, 1, 1 }, { 1, 1, 1 }), { 1, 1, 1 }, true },
		{ "hex221", hx::box(hx::HEX, { 2, 2, 1 }, { 1, 1, 0.5 }), { 1, 1, 0.5 }, false },
		{ "tet6", hx::box(hx::TET, { 1, 1, 1 }, { 1, 1, 1 }), { 1, 1, 1 }, false } };
	for (auto& f : fam) {
		const auto centres = interior(f.def);
		const int F = int(centres.size()), NE = int(f.def.elems.size()), dim = f.def.dim();
		std::vector<std::vector<int>> perms;
		std::vector<int> p(NE);
		for (int i = 0; i < NE; i++) { p[i] = i; }
		if (f.perms) { do { perms.push_back(p); } while (std::next_permutation(p.begin(), p.end())); }
		else { perms.push_back(p); std::reverse(p.begin(), p.end()); perms.push_back(p); }
		for (size_t pi = 0; pi < perms.size(); pi++) for (int mask = 1; mask < (1 << F); mask++) for (int kinds = 0; kinds < 5; kinds++) for (int sense = 0; sense < (dim > 1 ? 4 : 1); sense++) {
			// the whole product for the smallest meshes; elsewhere one dimension at a time
			const int count = __builtin_popcount(mask);
			if (!deep && F > 4 && count > 2 && count < F) { continue; }
			if (!deep && pi && pi + 1 != perms.size() && (kinds == 0 || kinds > 2 || sense > 1)) { continue; }
			if (!deep && dim == 3 && ((sense > 1 && pi) || (kinds > 2 && sense))) { continue; }
			if (kinds == 2 && count < 2) { continue; }
			if (!ex.begin(vh::str(f.name, " order", pi, " faces", mask, " kinds", kinds, " sense", sense))) { continue; }
			ex.guarded([&] {
				Setup s;
				s.def = f.def;
				for (int i = 0; i < NE; i++) { s.def.elems[i] = f.def.elems[perms[pi][i]]; }
				s.def.attrs.assign(NE, 1);
				s.each = true;
				// tags 7.. on the chosen faces; several panels: each face its own
				s.def.tagFaces([&](const V3& c, bool in) {
					if (!in) { return hx::outerSide(c, f.hi, dim); }
					for (int i = 0; i < F; i++) { if (hx::norm(hx::operator-(c, centres[i])) < 1e-9) { return mask >> i & 1 ? (kinds == 2 ? 7 + i : 7) : 0; } }
					return 0;
				});
				int k = 0;
				for (auto& b : s.def.bdr) { if (b.tag >= 7) { if (sense == 1 || (sense == 2 && k % 2) || (sense == 3 && k % 3 == 0)) { std::reverse(b.v.begin(), b.v.end()); } k++; } }
				switch (kinds) {
				case 0: s.panels = { stack(7, 0) }; break;
				case 1: s.panels = { stack(7, 2) }; break;
				case 2: for (int i = 0; i < F; i++) { if (mask >> i & 1) { s.panels.push_back(stack(7 + i, (i + mask) % 3)); } } break;
				case 3: s.panels = { stack(7, 3) }; break;
				default: // covered on one side only
					s.panels = { stack(7, 2) };
					if (sense % 2) { s.panels[0].sgbc_bdr_info.second = { BdrCond::PMC, true }; } else { s.panels[0].sgbc_bdr_info.first = { BdrCond::PEC, true }; }
				}
				ex.state(ex.key());
				judge(ex, s, kinds == 0 || kinds == 3);
			});
		}
	}
	// surroundings: order, flux, materials, outer boundary
	for (auto& f : fam) for (int order = 1; order <= (f.def.dim() == 1 ? 4 : f.def.dim() == 2 ? 3 : 1 + deep); order++) for (double alpha : { 0.0, 0.5, 1.0 }) for (int mats = 0; mats < 2; mats++) for (auto oc : { BdrCond::PEC, BdrCond::PMC, BdrCond::SMA }) for (int kinds : { 0, 1 }) {
		if (f.def.dim() == 3 && f.name != "hex211" && f.name != "tet6") { continue; }
		if (alpha == 0.5 && oc != BdrCond::SMA) { continue; }
		if (!ex.begin(vh::str("around ", f.name, " p", order, " alpha", alpha, " mats", mats, " ", ox::bcName(oc), " kinds", kinds))) { continue; }
		ex.guarded([&] {
			Setup s;
			s.def = f.def;
			s.order = order;
			s.alpha = alpha;
			s.outer = oc;
			s.each = true;
			const int NE = int(s.def.elems.size());
			s.def.attrs.assign(NE, 1);
			if (mats) { for (int i = 0; i < NE; i++) { s.def.attrs[i] = 1 + i % 2; } s.mats = { { 1, Material(2.0, 1.0, 0.3) }, { 2, Material(1.5, 3.0, 0.0) } }; }
			const auto centres = interior(f.def);
			s.def.tagFaces([&](const V3& c, bool in) {
				if (!in) { return hx::outerSide(c, f.hi, f.def.dim()); }
				for (size_t i = 0; i < centres.size(); i++) { if (hx::norm(hx::operator-(c, centres[i])) < 1e-9) { return i % 3 != 2 ? 7 : 0; } }
				return 0;
			});
			s.panels = { stack(7, kinds ? 2 : 0) };
			ex.state(ex.key());
			judge(ex, s, kinds == 0);
		});
	}
	return ex.finish();
}
