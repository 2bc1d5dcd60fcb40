// C28: what the extraction of a recording surface returns, for every admissible numbering of small meshes.
#include "sx.hpp"
#include "components/SubMesher.h"

using namespace maxwell;
using hx::V3;

static vh::Explorer ex;

static std::string at(const V3& p) { return vh::str("(", p[0], ",", p[1], ",", p[2], ")"); }

static void judge(const std::string& where, const sx::Case& c, const sx::Variant& v)
{
	auto mesh = v.def.build();
	const int dim = v.def.dim();
	mfem::DG_FECollection fec(1, dim, mfem::BasisType::GaussLobatto);
	mfem::ParMesh pm(MPI_COMM_WORLD, mesh);
	mfem::ParFiniteElementSpace fes(&pm, &fec);
	mfem::Array<int> marker(mesh.bdr_attributes.Max());
	marker = 0;
	marker[c.tag - 1] = 1;
	NearToFarFieldSubMesher sm(mesh, fes, marker);
	auto s = sx::sides(v.def, c.tag, v.inside);
	auto got = sx::parents(sm.getSubMesh());
	if (got != s.in) { ex.fail(where + ": extracted elements " + sx::show(got) + ", inner side " + sx::show(s.in)); return; }
	// faces by centre, with the direction that leads out
	auto fe = v.def.faceElems();
	struct Face { V3 centre, out; int seen = 0; };
	std::vector<Face> faces;
	for (auto& f : s.faces) {
		Face x;
		x.centre = v.def.centre(f);
		for (int e : fe[f]) { if (v.inside[e]) { x.out = x.centre - v.def.centre(v.def.elems[e]); } }
		faces.push_back(x);
	}
	auto* sub = sm.getSubMesh();
	for (int b = 0; b < sub->GetNBE(); b++) {
		mfem::Array<int> w;
		sub->GetBdrElementVertices(b, w);
		V3 x{ 0, 0, 0 };
		for (int i = 0; i < w.Size(); i++) for (int d = 0; d < dim; d++) { x[d] += sub->GetVertex(w[i])[d] / w.Size(); }
		const bool marked = sub->GetBdrAttribute(b) == int(BdrCond::NearToFarField);
		Face* f = nullptr;
		for (auto& g : faces) { if (hx::norm(g.centre - x) < 1e-9) { f = &g; } }
		if (marked != (f != nullptr)) { ex.fail(where + (marked ? ": a face off the surface is marked at " : ": a face of the surface is not marked at ") + at(x)); return; }
		if (!f) { continue; }
		f->seen++;
		auto* t = getFaceElementTransformation(*sub, b);
		if (!t) { ex.fail(where + ": no face transformation at " + at(x)); return; }
		auto n = getNormal(*t);
		V3 nn{ 0, 0, 0 };
		for (int d = 0; d < n.Size() && d < 3; d++) { nn[d] = n[d]; }
		if (!(hx::dot(nn, f->out) > 0)) { ex.fail(where + ": the normal at " + at(x) + " is " + at(nn) + ", which does not lead out"); return; }
	}
	for (auto& f : faces) { if (f.seen != 1) { ex.fail(where + vh::str(": the surface face at ", at(f.centre), " appears ", f.seen, " times")); return; } }
	// the listed element/face pairs name the same faces
	auto pairs = sm.getEl2Face();
	std::multiset<std::vector<int>> named;
	for (auto& p : pairs) {
		if (p.first < 0 || p.first >= int(v.def.elems.size()) || !v.inside[p.first]) { ex.fail(where + vh::str(": pair names element ", p.first)); return; }
	}
	ex.check(pairs.size() == s.faces.size(), where, ": ", pairs.size(), " element/face pairs for ", s.faces.size(), " faces");
	ex.trace();
}

int main()
{
	const bool T = ex.thorough();
	auto surfaces = sx::surfaces2D(T);
	for (auto& c : sx::surfaces3D(T)) { surfaces.push_back(c); }
	for (auto& c : surfaces) {
		int group = 0, count = 0;
		bool active = false;
		sx::variants(c, -1, T, [&](const sx::Variant& v) {
			if (count++ % 400 == 0) { active = ex.begin(vh::str(c.name, " part ", group++)); }
			if (!active || ex.failed()) { return; }
			ex.guarded([&] { ex.state(v.name); ex.step(); judge(c.name + ", " + v.name, c, v); });
		});
	}
	// refusals
	for (auto& c : surfaces) {
		if (!ex.begin(c.name + " unused tag")) { continue; }
		ex.guarded([&] {
			ex.step();
			auto d = c.def;
			d.bdr.erase(std::remove_if(d.bdr.begin(), d.bdr.end(), [&](auto& b) { return b.tag == c.tag; }), d.bdr.end());
			auto mesh = d.build();
			mfem::DG_FECollection fec(1, d.dim(), mfem::BasisType::GaussLobatto);
			mfem::ParMesh pm(MPI_COMM_WORLD, mesh);
			mfem::ParFiniteElementSpace fes(&pm, &fec);
			mfem::Array<int> marker(mesh.bdr_attributes.Max() + 1);
			marker = 0;
			marker.Last() = 1;
			bool refused = false;
			try { NearToFarFieldSubMesher sm(mesh, fes, marker); } catch (const mfem::ShimIndexError&) { throw; } catch (const std::exception&) { refused = true; }
			ex.check(refused, "a tag that marks no face is accepted");
		});
	}
	for (int n = 2; n <= 5; n++) for (int a = 0; a <= n; a++) {
		if (!ex.begin(vh::str("seg", n, " point ", a))) { continue; }
		ex.guarded([&] {
			ex.step();
			auto d = hx::box(hx::SEG, { n, 0, 0 }, { double(n), 1, 1 });
			if (a > 0 && a < n) { d.bdr.push_back({ { a }, 3 }); }
			auto mesh = d.build();
			mfem::DG_FECollection fec(1, 1, mfem::BasisType::GaussLobatto);
			mfem::ParMesh pm(MPI_COMM_WORLD, mesh);
			mfem::ParFiniteElementSpace fes(&pm, &fec);
			mfem::Array<int> marker(mesh.bdr_attributes.Max());
			marker = 0;
			marker[a == 0 ? 0 : (a == n ? 1 : 2)] = 1;
			bool refused = false;
			try { NearToFarFieldSubMesher sm(mesh, fes, marker); } catch (const mfem::ShimIndexError&) { throw; } catch (const std::exception&) { refused = true; }
			ex.check(refused, "a recording surface in one dimension is accepted");
		});
	}
	return ex.finish();
}
