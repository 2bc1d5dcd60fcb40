// Meshes, node positions, independent field evaluation and file-tree helpers shared by harnesses.
#pragma once
#include "vh.hpp"
#include <Eigen/Dense>
#include <filesystem>
#include <functional>
#include <mfem.hpp>
#include <mpi_sim.hpp>
#include <mutex>
#include "components/Model.h"

namespace hx {

namespace fs = std::filesystem;
using V3 = std::array<double, 3>;

inline V3 operator-(const V3& a, const V3& b) { return { a[0] - b[0], a[1] - b[1], a[2] - b[2] }; }
inline V3 operator+(const V3& a, const V3& b) { return { a[0] + b[0], a[1] + b[1], a[2] + b[2] }; }
inline V3 operator*(double s, const V3& b) { return { s * b[0], s * b[1], s * b[2] }; }
inline double dot(const V3& a, const V3& b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
inline V3 cross(const V3& a, const V3& b) { return { a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0] }; }
inline double norm(const V3& a) { return std::sqrt(dot(a, a)); }
inline V3 unit(const V3& a) { return (1.0 / norm(a)) * a; }

enum Kind { SEG, TRI, QUAD, TET, HEX };
inline const char* kindName(Kind k) { static const char* n[] = { "seg", "tri", "quad", "tet", "hex" }; return n[k]; }
inline int kindDim(Kind k) { return k == SEG ? 1 : (k <= QUAD ? 2 : 3); }
inline const std::vector<std::vector<int>>& localFaces(Kind k)
{
	static const std::vector<std::vector<std::vector<int>>> f{
		{ { 0 }, { 1 } },
		{ { 0, 1 }, { 1, 2 }, { 2, 0 } },
		{ { 0, 1 }, { 1, 2 }, { 2, 3 }, { 3, 0 } },
		{ { 1, 2, 3 }, { 0, 3, 2 }, { 0, 1, 3 }, { 0, 2, 1 } },
		{ { 3, 2, 1, 0 }, { 0, 1, 5, 4 }, { 1, 2, 6, 5 }, { 2, 3, 7, 6 }, { 3, 0, 4, 7 }, { 4, 5, 6, 7 } } };
	return f[k];
}

// A mesh as plain lists, so that numberings and orientations can be enumerated.
struct MeshDef {
	Kind kind = SEG;
	std::vector<V3> verts;
	std::vector<std::vector<int>> elems;
	std::vector<int> attrs;
	struct Bdr { std::vector<int> v; int tag; };
	std::vector<Bdr> bdr;

	int dim() const { return kindDim(kind); }
	V3 centre(const std::vector<int>& v) const { V3 c{ 0, 0, 0 }; for (int i : v) { c = c + verts[i]; } return (1.0 / double(v.size())) * c; }

	// Faces as sorted vertex sets -> elements touching them.
	std::map<std::vector<int>, std::vector<int>> faceElems() const
	{
		std::map<std::vector<int>, std::vector<int>> r;
		for (size_t e = 0; e < elems.size(); e++) for (auto& lf : localFaces(kind)) {
			std::vector<int> f;
			for (int i : lf) { f.push_back(elems[e][i]); }
			std::sort(f.begin(), f.end());
			r[f].push_back(int(e));
		}
		return r;
	}
	// Tags faces: tag(centre, isInterior) == 0 leaves the face untagged.
	void tagFaces(const std::function<int(const V3&, bool)>& tag)
	{
		bdr.clear();
		std::set<std::vector<int>> done;
		auto fe = faceElems();
		for (auto& e : elems) for (auto& lf : localFaces(kind)) {
			std::vector<int> f;
			for (int i : lf) { f.push_back(e[i]); }
			auto s = f;
			std::sort(s.begin(), s.end());
			if (!done.insert(s).second) { continue; }
			const int t = tag(centre(f), fe[s].size() == 2);
			if (t) { bdr.push_back({ f, t }); }
		}
	}
	// Stable reordering: elements whose centre satisfies `first` come first.
	void putFirst(const std::function<bool(const V3&)>& first)
	{
		std::vector<std::vector<int>> e;
		std::vector<int> a;
		for (int pass = 0; pass < 2; pass++) for (size_t i = 0; i < elems.size(); i++) { if (first(centre(elems[i])) == (pass == 0)) { e.push_back(elems[i]); a.push_back(attrs.empty() ? 1 : attrs[i]); } }
		elems = e;
		attrs = a;
	}
	mfem::Mesh build(bool fix = true) const
	{
		mfem::Mesh m(dim(), int(verts.size()), int(elems.size()), int(bdr.size()));
		for (auto& v : verts) { m.AddVertex(v[0], v[1], v[2]); }
		for (size_t i = 0; i < elems.size(); i++) {
			const int a = attrs.empty() ? 1 : attrs[i];
			switch (kind) {
			case SEG: m.AddSegment(elems[i].data(), a); break;
			case TRI: m.AddTriangle(elems[i].data(), a); break;
			case QUAD: m.AddQuad(elems[i].data(), a); break;
			case TET: m.AddTet(elems[i].data(), a); break;
			case HEX: m.AddHex(elems[i].data(), a); break;
			}
		}
		for (auto& b : bdr) {
			switch (b.v.size()) {
			case 1: m.AddBdrPoint(b.v[0], b.tag); break;
			case 2: m.AddBdrSegment(b.v.data(), b.tag); break;
			case 3: m.AddBdrTriangle(b.v.data(), b.tag); break;
			default: m.AddBdrQuad(b.v.data(), b.tag); break;
			}
		}
		m.FinalizeTopology(false);
		m.Finalize(false, fix);
		return m;
	}
};

inline int outerSide(const V3& c, const V3& hi, int dim)
{
	for (int d = 0; d < dim; d++) { if (std::abs(c[d]) < 1e-9) { return 2 * d + 1; } if (std::abs(c[d] - hi[d]) < 1e-9) { return 2 * d + 2; } }
	return 0;
}

// Box [0,hi] split into n cells per direction; `warp` moves interior vertices. Outer faces are
// tagged 1..2*dim (x-,x+,y-,y+,z-,z+); interior ones by `inner`.
inline MeshDef box(Kind k, std::array<int, 3> n, V3 hi = { 1, 1, 1 }, double warp = 0.0, const std::function<int(const V3&)>& inner = nullptr, const std::function<int(const V3&)>& attr = nullptr)
{
	MeshDef m;
	m.kind = k;
	const int dim = kindDim(k);
	for (int d = dim; d < 3; d++) { n[d] = 0; }
	auto V = [&](int i, int j, int l) { return i + (n[0] + 1) * (j + (n[1] + 1) * l); };
	for (int l = 0; l <= n[2]; l++) for (int j = 0; j <= n[1]; j++) for (int i = 0; i <= n[0]; i++) {
		V3 p{ hi[0] * i / n[0], dim > 1 ? hi[1] * j / n[1] : 0.0, dim > 2 ? hi[2] * l / n[2] : 0.0 };
		const bool in[3] = { i > 0 && i < n[0], dim < 2 || (j > 0 && j < n[1]), dim < 3 || (l > 0 && l < n[2]) };
		// vertices on the outer surface keep to it, so the box stays exact
		for (int d = 0; d < dim; d++) {
			if (in[d]) { p[d] += warp * hi[d] / n[d] * std::sin(1.0 + 2.3 * i + 3.1 * j + 4.7 * l + 1.9 * d); }
		}
		m.verts.push_back(p);
	}
	for (int l = 0; l < std::max(1, n[2]); l++) for (int j = 0; j < std::max(1, n[1]); j++) for (int i = 0; i < n[0]; i++) {
		if (k == SEG) { m.elems.push_back({ i, i + 1 }); continue; }
		const int q[8] = { V(i, j, l), V(i + 1, j, l), V(i + 1, j + 1, l), V(i, j + 1, l), V(i, j, l + 1), V(i + 1, j, l + 1), V(i + 1, j + 1, l + 1), V(i, j + 1, l + 1) };
		if (k == QUAD) { m.elems.push_back({ q[0], q[1], q[2], q[3] }); }
		else if (k == TRI) { m.elems.push_back({ q[0], q[1], q[2] }); m.elems.push_back({ q[0], q[2], q[3] }); }
		else if (k == HEX) { m.elems.push_back({ q[0], q[1], q[2], q[3], q[4], q[5], q[6], q[7] }); }
		else {
			static const int h2t[6][4] = { { 0, 1, 2, 6 }, { 0, 5, 1, 6 }, { 0, 4, 5, 6 }, { 0, 2, 3, 6 }, { 0, 3, 7, 6 }, { 0, 7, 4, 6 } };
			for (auto& t : h2t) { m.elems.push_back({ q[t[0]], q[t[1]], q[t[2]], q[t[3]] }); }
		}
	}
	m.attrs.assign(m.elems.size(), 1);
	if (attr) { for (size_t e = 0; e < m.elems.size(); e++) { m.attrs[e] = attr(m.centre(m.elems[e])); } }
	m.tagFaces([&](const V3& c, bool interior) { return interior ? (inner ? inner(c) : 0) : outerSide(c, hi, dim); });
	return m;
}

// Physical position of every degree of freedom of a scalar nodal space.
inline std::vector<V3> nodes(mfem::FiniteElementSpace& fes)
{
	std::vector<V3> r(fes.GetNDofs(), V3{ 0, 0, 0 });
	for (int e = 0; e < fes.GetNE(); e++) {
		mfem::Array<int> dofs;
		fes.GetElementDofs(e, dofs);
		auto* T = fes.GetElementTransformation(e);
		const auto& ir = fes.GetFE(e)->GetNodes();
		for (int i = 0; i < dofs.Size(); i++) {
			mfem::Vector x;
			T->SetIntPoint(&ir.IntPoint(i));
			T->Transform(ir.IntPoint(i), x);
			for (int d = 0; d < x.Size(); d++) { r[dofs[i]][d] = x[d]; }
		}
	}
	return r;
}

inline std::vector<std::array<int, 3>> monomials(int dim, int order, bool tensor)
{
	std::vector<std::array<int, 3>> r;
	for (int a = 0; a <= order; a++) for (int b = 0; b <= (dim > 1 ? order : 0); b++) for (int c = 0; c <= (dim > 2 ? order : 0); c++) {
		if (tensor || a + b + c <= order) { r.push_back({ a, b, c }); }
	}
	return r;
}
inline double mono(const std::array<int, 3>& m, const V3& p) { return std::pow(p[0], m[0]) * std::pow(p[1], m[1]) * std::pow(p[2], m[2]); }

// Value at `p` of the polynomial that interpolates the element's nodal values (affine elements).
inline double interpolate(const std::vector<V3>& x, const std::vector<double>& f, const V3& p, int dim, int order, bool tensor)
{
	auto ms = monomials(dim, order, tensor);
	const int n = int(x.size());
	Eigen::MatrixXd A(n, n);
	Eigen::VectorXd b(n);
	for (int i = 0; i < n; i++) { b[i] = f[i]; for (int j = 0; j < n; j++) { A(i, j) = mono(ms[j], x[i] - x[0]); } }
	Eigen::VectorXd c = A.fullPivLu().solve(b);
	double r = 0;
	for (int j = 0; j < n; j++) { r += c[j] * mono(ms[j], p - x[0]); }
	return r;
}

inline maxwell::Model model(mfem::Mesh& m, const std::map<int, maxwell::BdrCond>& outer = {}, const std::map<int, maxwell::BdrCond>& inner = {}, const std::map<int, maxwell::Material>& mats = {}, const std::string& name = "case")
{
	maxwell::Model r(m, maxwell::GeomTagToMaterialInfo(mats, {}), maxwell::GeomTagToBoundaryInfo(outer, inner));
	r.meshName_ = name;
	return r;
}
inline std::map<int, maxwell::BdrCond> allOuter(int dim, maxwell::BdrCond c) { std::map<int, maxwell::BdrCond> r; for (int i = 1; i <= 2 * dim; i++) { r[i] = c; } return r; }

inline std::string slurp(const fs::path& p) { std::ifstream i(p, std::ios::binary); std::stringstream s; s << i.rdbuf(); return s.str(); }
inline void spew(const fs::path& p, const std::string& s) { if (p.has_parent_path()) { fs::create_directories(p.parent_path()); } std::ofstream o(p, std::ios::binary | std::ios::trunc); o << s; }
inline std::vector<std::string> lines(const std::string& s) { std::vector<std::string> r; std::istringstream i(s); std::string l; while (std::getline(i, l)) { r.push_back(l); } return r; }
inline std::vector<double> numbers(const std::string& l) { std::vector<double> r; std::istringstream i(l); double d; while (i >> d) { r.push_back(d); } return r; }
// Every file below `root` (relative path -> content; directories end in '/').
inline std::map<std::string, std::string> tree(const fs::path& root)
{
	std::map<std::string, std::string> r;
	if (!fs::exists(root)) { return r; }
	for (auto& e : fs::recursive_directory_iterator(root)) {
		const auto n = fs::relative(e.path(), root).string();
		if (e.is_directory()) { r[n + "/"] = ""; } else { r[n] = slurp(e.path()); }
	}
	return r;
}
// A private working directory for one explored behaviour, removed afterwards.
struct Scratch {
	fs::path old = fs::current_path(), dir;
	Scratch()
	{
		static int n = 0;
		dir = old / vh::str("w", getpid(), "_", n++);
		fs::create_directories(dir);
		fs::current_path(dir);
	}
	~Scratch()
	{
		fs::current_path(old);
		if (!dir.empty() && dir.parent_path() == old && dir != old) { std::error_code ec; fs::remove_all(dir, ec); }
	}
};
struct MuteAll {
	vh::Mute m;
	vh::NullBuf sink;
	std::streambuf* old;
	MuteAll() : old(std::cerr.rdbuf(&sink)) {}
	~MuteAll() { std::cerr.rdbuf(old); }
};

} // namespace hx

namespace hx {

// A closed surface (tag `tag`) around the cells whose centre lies in the open box (a,b).
inline std::function<int(const V3&)> around(int dim, V3 a, V3 b, int tag)
{
	return [=](const V3& c) {
		int on = 0;
		for (int d = 0; d < dim; d++) {
			if (c[d] < a[d] - 1e-9 || c[d] > b[d] + 1e-9) { return 0; }
			if (std::abs(c[d] - a[d]) < 1e-9 || std::abs(c[d] - b[d]) < 1e-9) { on++; }
		}
		return on == 1 ? tag : 0;
	};
}
inline bool inside(int dim, const V3& c, V3 a, V3 b) { for (int d = 0; d < dim; d++) { if (c[d] < a[d] || c[d] > b[d]) { return false; } } return true; }

struct SurfaceFile {
	bool ok = false;             // header and geometry complete
	int dim = 0, ndofs = 0, nbdr = 0, nq = 0, basis = 0;
	std::vector<double> pos, nrm, wgt;
	struct Rec { double t; std::vector<double> f[6]; };
	std::vector<Rec> recs;
	size_t trailing = 0;         // bytes after the last complete record
	size_t headLen = 0, recLen = 0;
};
inline SurfaceFile readSurface(const std::string& bytes)
{
	SurfaceFile s;
	if (bytes.size() < 20) { return s; }
	int32_t h[5];
	std::memcpy(h, bytes.data(), 20);
	s.dim = h[0]; s.ndofs = h[1]; s.nbdr = h[2]; s.nq = h[3]; s.basis = h[4];
	if (s.dim < 1 || s.dim > 3 || s.ndofs < 0 || s.nq < 0 || s.ndofs > 1000000 || s.nq > 1000000) { return s; }
	size_t at = 20;
	auto take = [&](std::vector<double>& v, size_t n) { if (bytes.size() < at + 8 * n) { return false; } v.resize(n); if (n) { std::memcpy(v.data(), bytes.data() + at, 8 * n); } at += 8 * n; return true; };
	if (!take(s.pos, size_t(s.nq) * s.dim) || !take(s.nrm, size_t(s.nq) * 3) || !take(s.wgt, s.nq)) { return s; }
	s.ok = true;
	s.headLen = at;
	s.recLen = 8 + 48 * size_t(s.ndofs);
	while (bytes.size() >= at + s.recLen) {
		SurfaceFile::Rec r;
		std::memcpy(&r.t, bytes.data() + at, 8);
		at += 8;
		for (auto& f : r.f) { take(f, s.ndofs); }
		s.recs.push_back(r);
	}
	s.trailing = bytes.size() - at;
	return s;
}

} // namespace hx

using hx::operator+;
using hx::operator-;
using hx::operator*;

namespace hx {

// Gmsh 2.2 text of a mesh; the geometric tag is the attribute, the physical one is something else.
inline std::string gmsh(const MeshDef& m, int physOffset = 90)
{
	static const int vt[] = { 1, 2, 3, 4, 5 };
	std::ostringstream o;
	o.precision(17);
	o << "$MeshFormat\n2.2 0 8\n$EndMeshFormat\n$Nodes\n" << m.verts.size() << "\n";
	for (size_t i = 0; i < m.verts.size(); i++) { o << i + 1 << " " << m.verts[i][0] << " " << m.verts[i][1] << " " << m.verts[i][2] << "\n"; }
	o << "$EndNodes\n$Elements\n" << m.bdr.size() + m.elems.size() << "\n";
	int id = 1;
	for (auto& b : m.bdr) {
		static const int bt[] = { 0, 15, 1, 2, 3 };
		o << id++ << " " << bt[b.v.size()] << " 2 " << physOffset + b.tag << " " << b.tag;
		for (int v : b.v) { o << " " << v + 1; }
		o << "\n";
	}
	for (size_t e = 0; e < m.elems.size(); e++) {
		o << id++ << " " << vt[m.kind] << " 2 " << physOffset + m.attrs[e] << " " << m.attrs[e];
		for (int v : m.elems[e]) { o << " " << v + 1; }
		o << "\n";
	}
	o << "$EndElements\n";
	return o.str();
}

// All orderings of 0..n-1.
inline std::vector<std::vector<int>> perms(int n)
{
	std::vector<int> p(n);
	for (int i = 0; i < n; i++) { p[i] = i; }
	std::vector<std::vector<int>> r;
	do { r.push_back(p); } while (std::next_permutation(p.begin(), p.end()));
	return r;
}
// All tuples with digits below base[i].
inline void tuples(const std::vector<int>& base, const std::function<void(const std::vector<int>&)>& f)
{
	std::vector<int> t(base.size(), 0);
	for (;;) {
		f(t);
		size_t i = 0;
		while (i < t.size() && ++t[i] == base[i]) { t[i++] = 0; }
		if (i == t.size()) { return; }
	}
}

} // namespace hx
