// Shared by the surface checks: meshes with an embedded closed surface and every renumbering of them.
#pragma once
#include "hx.hpp"

namespace sx {

using hx::V3;
using hx::MeshDef;
using In = std::function<bool(const V3&)>;

struct Case { std::string name; MeshDef def; In in; int tag; };

// Vertex permutations of a reference element that keep its orientation.
inline std::vector<std::vector<int>> rotations(hx::Kind k)
{
	std::vector<std::vector<int>> r;
	auto even = [](const std::vector<int>& p) { int inv = 0; for (size_t i = 0; i < p.size(); i++) for (size_t j = i + 1; j < p.size(); j++) { inv += p[i] > p[j]; } return inv % 2 == 0; };
	switch (k) {
	case hx::SEG: return { { 0, 1 } };
	case hx::TRI: return { { 0, 1, 2 }, { 1, 2, 0 }, { 2, 0, 1 } };
	case hx::QUAD: return { { 0, 1, 2, 3 }, { 1, 2, 3, 0 }, { 2, 3, 0, 1 }, { 3, 0, 1, 2 } };
	case hx::TET: for (auto& p : hx::perms(4)) { if (even(p)) { r.push_back(p); } } return r;
	default: break;
	}
	static const int c[8][3] = { { 0, 0, 0 }, { 1, 0, 0 }, { 1, 1, 0 }, { 0, 1, 0 }, { 0, 0, 1 }, { 1, 0, 1 }, { 1, 1, 1 }, { 0, 1, 1 } };
	for (auto& p : hx::perms(3)) for (int s = 0; s < 8; s++) {
		if (even(p) != (((s & 1) + (s >> 1 & 1) + (s >> 2 & 1)) % 2 == 0)) { continue; }
		std::vector<int> q;
		for (int i = 0; i < 8; i++) {
			int x[3];
			for (int d = 0; d < 3; d++) { x[d] = (s >> d & 1) ? 1 - c[i][p[d]] : c[i][p[d]]; }
			for (int j = 0; j < 8; j++) { if (c[j][0] == x[0] && c[j][1] == x[1] && c[j][2] == x[2]) { q.push_back(j); } }
		}
		r.push_back(q);
	}
	return r;
}

// Tags the outer sides 1..2*dim (of the box [0,n]) and every face between inside and outside with `tag`.
inline Case make(const std::string& name, hx::Kind k, std::array<int, 3> n, In in, double warp = 0.0)
{
	const int dim = hx::kindDim(k);
	const V3 hi{ double(n[0]), double(std::max(1, n[1])), double(std::max(1, n[2])) };
	Case c{ name, hx::box(k, n, hi, warp), in, 2 * dim + 1 };
	auto fe = c.def.faceElems();
	std::vector<MeshDef::Bdr> b;
	for (auto& e : c.def.elems) for (auto& lf : hx::localFaces(k)) {
		std::vector<int> f, s;
		for (int i : lf) { f.push_back(e[i]); }
		s = f;
		std::sort(s.begin(), s.end());
		auto it = fe.find(s);
		if (it == fe.end()) { continue; }
		auto& t = it->second;
		if (t.size() == 1) { b.push_back({ f, hx::outerSide(c.def.centre(f), hi, dim) }); }
		else if (in(c.def.centre(c.def.elems[t[0]])) != in(c.def.centre(c.def.elems[t[1]]))) { b.push_back({ f, c.tag }); }
		fe.erase(it);
	}
	c.def.bdr = b;
	return c;
}
inline Case affine(Case c, const std::string& name, const std::function<V3(const V3&)>& f)
{
	std::vector<bool> in;
	for (auto& v : c.def.verts) { v = f(v); }
	c.name += " " + name;
	return c;
}

struct Sides { std::set<int> in, out; std::set<std::vector<int>> faces; };
// Which elements touch the surface from which side; `inside[e]` is given per element.
inline Sides sides(const MeshDef& d, int tag, const std::vector<bool>& inside)
{
	Sides r;
	auto fe = d.faceElems();
	for (auto& b : d.bdr) {
		if (b.tag != tag) { continue; }
		auto s = b.v;
		std::sort(s.begin(), s.end());
		r.faces.insert(s);
		for (int e : fe[s]) { (inside[e] ? r.in : r.out).insert(e); }
	}
	return r;
}

struct Variant { std::string name; MeshDef def; std::vector<bool> inside; };

inline void permuteElems(Variant& v, const std::vector<int>& order)
{
	MeshDef d = v.def;
	auto in = v.inside;
	for (size_t i = 0; i < order.size(); i++) { v.def.elems[i] = d.elems[order[i]]; if (!d.attrs.empty()) { v.def.attrs[i] = d.attrs[order[i]]; } v.inside[i] = in[order[i]]; }
}
inline void rotate(Variant& v, int e, const std::vector<int>& r) { auto old = v.def.elems[e]; for (size_t i = 0; i < r.size(); i++) { v.def.elems[e][i] = old[r[i]]; } }
inline void relabel(Variant& v, const std::vector<int>& to)
{
	auto old = v.def.verts;
	for (size_t i = 0; i < to.size(); i++) { v.def.verts[to[i]] = old[i]; }
	for (auto& e : v.def.elems) for (int& i : e) { i = to[i]; }
	for (auto& b : v.def.bdr) for (int& i : b.v) { i = to[i]; }
}
// Every listing of the vertices of a face.
inline std::vector<std::vector<int>> listings(int n)
{
	if (n < 4) { return hx::perms(n); }
	std::vector<std::vector<int>> r;
	for (int s = 0; s < 4; s++) { r.push_back({ s, (s + 1) % 4, (s + 2) % 4, (s + 3) % 4 }); r.push_back({ s, (s + 3) % 4, (s + 2) % 4, (s + 1) % 4 }); }
	return r;
}

// Calls f on every variant: touching-element orders accepted by `admissible`, element rotations, face
// listings and orders, vertex relabellings. rank: 0 anything goes, +1 outside before inside, -1 inside before outside.
inline void variants(const Case& c, int rank, bool deep, const std::function<void(const Variant&)>& f)
{
	Variant base{ "as built", c.def, {} };
	for (auto& e : c.def.elems) { base.inside.push_back(c.in(c.def.centre(e))); }
	// Base order: the inside elements first or last as the rank asks.
	{
		std::vector<int> o;
		for (int pass = 0; pass < 2; pass++) for (size_t e = 0; e < base.inside.size(); e++) { if (base.inside[e] == (rank > 0 ? pass == 1 : pass == 0)) { o.push_back(int(e)); } }
		if (rank) { permuteElems(base, o); }
	}
	const int NE = int(base.def.elems.size()), NV = int(base.def.verts.size());
	f(base);
	auto s = sides(base.def, c.tag, base.inside);
	auto fe = base.def.faceElems();
	auto good = [&](const Variant& v) {
		if (!rank) { return true; }
		auto m = v.def.faceElems();
		for (auto& b : v.def.bdr) {
			if (b.tag != c.tag) { continue; }
			auto k = b.v;
			std::sort(k.begin(), k.end());
			auto& t = m[k];
			for (int i : t) for (int j : t) { if (v.inside[i] && !v.inside[j] && (rank > 0 ? i < j : i > j)) { return false; } }
		}
		return true;
	};
	// element orders
	std::vector<int> touching(s.in.begin(), s.in.end());
	touching.insert(touching.end(), s.out.begin(), s.out.end());
	std::sort(touching.begin(), touching.end());
	auto order = [&](const std::vector<int>& o, const std::string& name) {
		Variant v = base;
		permuteElems(v, o);
		v.name = name;
		if (good(v)) { f(v); }
	};
	std::vector<int> id(NE);
	for (int i = 0; i < NE; i++) { id[i] = i; }
	if (touching.size() <= (deep ? 7u : 6u)) {
		for (auto& p : hx::perms(int(touching.size()))) { auto o = id; for (size_t i = 0; i < p.size(); i++) { o[touching[i]] = touching[p[i]]; } order(o, "element order " + [&] { std::string t; for (int i : p) { t += std::to_string(i); } return t; }()); }
	}
	for (int i = 0; i < NE; i++) for (int j = i + 1; j < NE; j++) { if (!deep && NE > 60 && (i + j) % 3) { continue; } auto o = id; std::swap(o[i], o[j]); order(o, vh::str("elements ", i, " and ", j, " swapped")); }
	for (int i = 1; i < NE; i++) { auto o = id; std::rotate(o.begin(), o.begin() + i, o.end()); order(o, vh::str("elements rotated by ", i)); }
	{ auto o = id; std::reverse(o.begin(), o.end()); order(o, "elements reversed"); }
	for (int stride = 2; stride < NE; stride++) { if (std::__gcd(stride, NE) != 1) { continue; } std::vector<int> o; for (int i = 0; i < NE; i++) { o.push_back(int((long(i) * stride) % NE)); } order(o, vh::str("elements by stride ", stride)); }
	// element rotations
	auto rot = rotations(base.def.kind);
	for (int e : touching) for (size_t r = 1; r < rot.size(); r++) { Variant v = base; rotate(v, e, rot[r]); v.name = vh::str("element ", e, " rotation ", r); f(v); }
	for (size_t r = 1; r < rot.size(); r++) { Variant v = base; for (int e = 0; e < NE; e++) { rotate(v, e, rot[r]); } v.name = vh::str("all elements rotation ", r); f(v); }
	if (touching.size() <= 6 && rot.size() <= 4) {
		std::vector<int> b(touching.size(), int(rot.size()));
		hx::tuples(b, [&](const std::vector<int>& t) { Variant v = base; std::string n; for (size_t i = 0; i < t.size(); i++) { rotate(v, touching[i], rot[t[i]]); n += std::to_string(t[i]); } v.name = "rotations " + n; f(v); });
	}
	// face listings and orders
	std::vector<int> faces;
	for (size_t i = 0; i < base.def.bdr.size(); i++) { if (base.def.bdr[i].tag == c.tag) { faces.push_back(int(i)); } }
	if (base.def.dim() > 1) {
		auto ls = listings(int(base.def.bdr[faces[0]].v.size()));
		auto list = [&](Variant& v, int b, const std::vector<int>& l) { auto old = v.def.bdr[b].v; for (size_t i = 0; i < l.size(); i++) { v.def.bdr[b].v[i] = old[l[i]]; } };
		for (int b : faces) for (size_t l = 1; l < ls.size(); l++) { Variant v = base; list(v, b, ls[l]); v.name = vh::str("face ", b, " listing ", l); f(v); }
		for (size_t l = 1; l < ls.size(); l++) { Variant v = base; for (int b : faces) { list(v, b, ls[l]); } v.name = vh::str("all faces listing ", l); f(v); }
		if (faces.size() <= 8) { hx::tuples(std::vector<int>(faces.size(), 2), [&](const std::vector<int>& t) { Variant v = base; std::string n; for (size_t i = 0; i < t.size(); i++) { if (t[i]) { list(v, faces[i], ls[1]); } n += std::to_string(t[i]); } v.name = "faces flipped " + n; f(v); }); }
		for (size_t i = 0; i < base.def.bdr.size(); i++) { Variant v = base; std::rotate(v.def.bdr.begin(), v.def.bdr.begin() + i, v.def.bdr.end()); v.name = vh::str("faces rotated by ", i); f(v); }
		if (faces.size() <= 6) { for (auto& p : hx::perms(int(faces.size()))) { Variant v = base; std::string n; for (size_t i = 0; i < p.size(); i++) { v.def.bdr[faces[i]] = base.def.bdr[faces[p[i]]]; n += std::to_string(p[i]); } v.name = "face order " + n; f(v); } }
		{ Variant v = base; std::reverse(v.def.bdr.begin(), v.def.bdr.end()); v.name = "faces reversed"; f(v); }
	}
	// vertex labels
	std::vector<int> iv(NV);
	for (int i = 0; i < NV; i++) { iv[i] = i; }
	auto labels = [&](const std::vector<int>& to, const std::string& n) { Variant v = base; relabel(v, to); v.name = n; f(v); };
	if (NV <= (deep ? 7 : 6)) { for (auto& p : hx::perms(NV)) { std::string n; for (int i : p) { n += std::to_string(i); } labels(p, "labels " + n); } }
	for (int i = 0; i < NV; i++) for (int j = i + 1; j < NV; j++) { if (!deep && NV > 40 && (i + j) % 3) { continue; } auto to = iv; std::swap(to[i], to[j]); labels(to, vh::str("labels ", i, " and ", j, " swapped")); }
	{ auto to = iv; std::reverse(to.begin(), to.end()); labels(to, "labels reversed"); }
}

inline std::string show(const std::set<int>& s) { std::string r = "{"; for (int i : s) { r += (r.size() > 1 ? "," : "") + std::to_string(i); } return r + "}"; }
inline std::set<int> parents(mfem::SubMesh* m) { std::set<int> r; if (m) { auto& p = m->GetParentElementIDMap(); for (int i = 0; i < p.Size(); i++) { r.insert(p[i]); } } return r; }

// The 2-D and 3-D surfaces both checks use.
inline std::vector<Case> surfaces2D(bool deep)
{
	auto blk = [](double x0, double x1, double y0, double y1) { return In([=](const V3& c) { return c[0] > x0 && c[0] < x1 && c[1] > y0 && c[1] < y1; }); };
	std::vector<Case> r;
	for (auto k : { hx::QUAD, hx::TRI }) {
		const std::string n = hx::kindName(k);
		r.push_back(make(n + "33 cell", k, { 3, 3, 0 }, blk(1, 2, 1, 2)));
		r.push_back(make(n + "33 cell warped", k, { 3, 3, 0 }, blk(1, 2, 1, 2), 0.12));
		r.push_back(make(n + "43 two cells", k, { 4, 3, 0 }, blk(1, 3, 1, 2)));
		r.push_back(make(n + "44 L", k, { 4, 4, 0 }, [](const V3& c) { return c[0] > 1 && c[0] < 3 && c[1] > 1 && c[1] < 3 && !(c[0] > 2 && c[1] > 2); }));
		r.push_back(make(n + "54 U", k, { 5, 4, 0 }, [](const V3& c) { return c[0] > 1 && c[0] < 4 && c[1] > 1 && c[1] < 3 && !(c[0] > 2 && c[0] < 3 && c[1] > 2); }));
		r.push_back(make(n + "52 strip", k, { 5, 2, 0 }, blk(1, 4, -1, 9)));
		r.push_back(make(n + "31 strip", k, { 3, 1, 0 }, blk(1, 2, -1, 9)));
		if (deep) { r.push_back(make(n + "55 block", k, { 5, 5, 0 }, blk(1, 4, 1, 4), 0.1)); r.push_back(make(n + "55 ring", k, { 5, 5, 0 }, [](const V3& c) { return c[0] > 1 && c[0] < 4 && c[1] > 1 && c[1] < 4 && !(c[0] > 2 && c[0] < 3 && c[1] > 2 && c[1] < 3); })); }
		if (k == hx::TRI) { r.push_back(make(n + "33 single", k, { 3, 3, 0 }, [](const V3& c) { return c[0] > 1 && c[0] < 2 && c[1] > 1 && c[1] < 2 && c[0] - c[1] > 0.1; })); }
	}
	return r;
}
inline std::vector<Case> surfaces3D(bool deep)
{
	auto blk = [](V3 a, V3 b) { return In([=](const V3& c) { return hx::inside(3, c, a, b); }); };
	std::vector<Case> r;
	for (auto k : { hx::HEX, hx::TET }) {
		const std::string n = hx::kindName(k);
		r.push_back(make(n + "333 cell", k, { 3, 3, 3 }, blk({ 1, 1, 1 }, { 2, 2, 2 })));
		r.push_back(make(n + "311 slab", k, { 3, 1, 1 }, blk({ 1, -1, -1 }, { 2, 9, 9 })));
		r.push_back(make(n + "433 two cells", k, { 4, 3, 3 }, blk({ 1, 1, 1 }, { 3, 2, 2 })));
		r.push_back(make(n + "633 rod", k, { 6, 3, 3 }, blk({ 1, 1, 1 }, { 5, 2, 2 })));
		if (deep) { r.push_back(make(n + "553 plate", k, { 5, 5, 3 }, blk({ 1, 1, 1 }, { 4, 4, 2 }))); }
		if (k == hx::TET) {
			r.push_back(make(n + "333 prism", k, { 3, 3, 3 }, [](const V3& c) { return hx::inside(3, c, { 1, 1, 1 }, { 2, 2, 2 }) && c[0] > c[1]; }));
			r.push_back(make(n + "333 single", k, { 3, 3, 3 }, [](const V3& c) { return hx::inside(3, c, { 1, 1, 1 }, { 2, 2, 2 }) && c[0] > c[1] + 1e-6 && c[1] > c[2] + 1e-6; }));
		}
	}
	const size_t n = r.size();
	for (size_t i = 0; i < n; i++) {
		if (!deep && r[i].name.find("633") != std::string::npos) { continue; }
		auto add = [&](const char* name, const std::function<V3(const V3&)>& f, const std::function<V3(const V3&)>& g) { auto c = affine(r[i], name, f); auto in = r[i].in; c.in = [in, g](const V3& x) { return in(g(x)); }; r.push_back(c); };
		add("long", [](const V3& v) { return V3{ 4 * v[0], v[1], v[2] }; }, [](const V3& v) { return V3{ v[0] / 4, v[1], v[2] }; });
		add("flat", [](const V3& v) { return V3{ v[0], v[1], 0.2 * v[2] }; }, [](const V3& v) { return V3{ v[0], v[1], v[2] / 0.2 }; });
		add("sheared", [](const V3& v) { return V3{ v[0] + 0.6 * v[1], v[1] + 0.3 * v[2], v[2] }; }, [](const V3& v) { const double y = v[1] - 0.3 * v[2]; return V3{ v[0] - 0.6 * y, y, v[2] }; });
	}
	return r;
}

}
