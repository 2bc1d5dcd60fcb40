// Synthetic surface recordings and the independent surface-integral oracle (C22-C26).
#pragma once
#include "hx.hpp"
#include <complex>

namespace rx {

using hx::V3;
using cd = std::complex<double>;
constexpr double c0 = 299792458.0;

// A recording: the enclosed elements next to a closed surface, all surface faces tagged `ntff`.
struct Surface {
	hx::MeshDef def;              // tag 1: surface face, tag 0/none: not on the surface
	int dim() const { return def.dim(); }
	struct Face { std::vector<int> v; int elem; };
	std::vector<Face> faces;      // surface faces with the element behind them
};

// Elements of a box satisfying `keep`; faces on the box's outer side are the surface.
inline Surface surface(hx::Kind k, std::array<int, 3> n, V3 lo, V3 hi, double warp, const std::function<bool(const V3&)>& keep = nullptr)
{
	Surface s;
	auto b = hx::box(k, n, hi, warp);
	const int dim = hx::kindDim(k);
	std::set<std::vector<int>> outer;
	for (auto& f : b.bdr) { auto v = f.v; std::sort(v.begin(), v.end()); outer.insert(v); }
	hx::MeshDef d;
	d.kind = k;
	d.verts = b.verts;
	for (auto& e : b.elems) { if (!keep || keep(b.centre(e))) { d.elems.push_back(e); d.attrs.push_back(1); } }
	for (auto& v : d.verts) { v = v + lo; }
	for (int i = dim; i < 3; i++) { for (auto& v : d.verts) { v[i] = 0; } }
	for (size_t e = 0; e < d.elems.size(); e++) for (auto& lf : hx::localFaces(k)) {
		std::vector<int> f;
		for (int i : lf) { f.push_back(d.elems[e][i]); }
		auto v = f;
		std::sort(v.begin(), v.end());
		if (outer.count(v)) { s.faces.push_back({ f, int(e) }); }
	}
	s.def = d;
	return s;
}

// The elements owned by `rank`, compacted, with the surface faces tagged `ntff` and every other
// exposed face tagged ntff+1.
inline hx::MeshDef part(const Surface& s, const std::vector<int>& owner, int rank, int ntff)
{
	hx::MeshDef d;
	d.kind = s.def.kind;
	std::map<int, int> vm;
	auto V = [&](int v) { auto it = vm.find(v); if (it != vm.end()) { return it->second; } const int i = int(d.verts.size()); d.verts.push_back(s.def.verts[v]); vm[v] = i; return i; };
	std::set<std::vector<int>> surf;
	for (auto& f : s.faces) { auto v = f.v; std::sort(v.begin(), v.end()); surf.insert(v); }
	std::map<std::vector<int>, int> count;
	for (size_t e = 0; e < s.def.elems.size(); e++) {
		if (owner[e] != rank) { continue; }
		for (auto& lf : hx::localFaces(d.kind)) { std::vector<int> f; for (int i : lf) { f.push_back(s.def.elems[e][i]); } std::sort(f.begin(), f.end()); count[f]++; }
	}
	for (size_t e = 0; e < s.def.elems.size(); e++) {
		if (owner[e] != rank) { continue; }
		std::vector<int> ne;
		for (int v : s.def.elems[e]) { ne.push_back(V(v)); }
		d.elems.push_back(ne);
		d.attrs.push_back(1);
		for (auto& lf : hx::localFaces(d.kind)) {
			std::vector<int> f, g;
			for (int i : lf) { f.push_back(s.def.elems[e][i]); }
			for (int v : f) { g.push_back(V(v)); }
			std::sort(f.begin(), f.end());
			if (surf.count(f)) { d.bdr.push_back({ g, ntff }); }
			else if (count[f] == 1) { d.bdr.push_back({ g, ntff + 1 }); }
		}
	}
	return d;
}

using FieldFn = std::function<double(int comp, const V3& x, int rec)>;

template <class T> void put(std::string& s, const T& v) { s.append(reinterpret_cast<const char*>(&v), sizeof v); }

// Bytes of a recording for a mesh: geometry block (not consulted for the integral) and records.
inline std::string bytes(mfem::Mesh& m, int order, int basis, const std::vector<double>& times, const FieldFn& F, int ntff)
{
	const int dim = m.Dimension();
	mfem::DG_FECollection fec(order, dim, basis);
	mfem::FiniteElementSpace fes(&m, &fec);
	auto X = hx::nodes(fes);
	int nb = 0;
	for (int i = 0; i < m.GetNBE(); i++) { if (m.GetBdrAttribute(i) == ntff) { nb++; } }
	std::string s;
	const int nq = nb;
	put(s, int32_t(dim)); put(s, int32_t(X.size())); put(s, int32_t(nb)); put(s, int32_t(nq)); put(s, int32_t(basis));
	for (int i = 0; i < nq * (dim + 4); i++) { put(s, 0.25 + 0.01 * i); }
	for (size_t t = 0; t < times.size(); t++) {
		put(s, times[t]);
		for (int c = 0; c < 6; c++) for (auto& x : X) { put(s, F(c, x, int(t))); }
	}
	return s;
}

inline void writeRanks(const std::string& dir, const Surface& s, const std::vector<int>& owner, int order, int basis, const std::vector<double>& times, const FieldFn& F, int ntff)
{
	std::set<int> rs(owner.begin(), owner.end());
	for (int r : rs) {
		auto m = part(s, owner, r, ntff).build();
		const std::string rd = dir + "/rank" + std::to_string(r);
		hx::fs::create_directories(rd);
		m.Save(rd + "/mesh");
		hx::spew(rd + "/surface_data.bin", bytes(m, order, basis, times, F, ntff));
	}
}

inline V3 rhat(double th, double ph) { return { std::sin(th) * std::cos(ph), std::sin(th) * std::sin(ph), std::cos(th) }; }
inline V3 thhat(double th, double ph) { return { std::cos(th) * std::cos(ph), std::cos(th) * std::sin(ph), -std::sin(th) }; }
inline V3 phhat(double, double ph) { return { -std::sin(ph), std::cos(ph), 0 }; }

// Gauss-Legendre on [0,1], eight points.
inline const std::vector<std::pair<double, double>>& gl8()
{
	static const std::vector<std::pair<double, double>> g = [] {
		std::vector<std::pair<double, double>> r;
		const int n = 8;
		for (int i = 0; i < n; i++) {
			double x = std::cos(M_PI * (i + 0.75) / (n + 0.5)), dp = 1;
			for (int it = 0; it < 50; it++) {
				double p0 = 1, p1 = x;
				for (int j = 2; j <= n; j++) { const double p2 = ((2 * j - 1) * x * p1 - (j - 1) * p0) / j; p0 = p1; p1 = p2; }
				dp = n * (x * p1 - p0) / (x * x - 1);
				x -= p1 / dp;
			}
			r.push_back({ 0.5 * (x + 1), 1.0 / ((1 - x * x) * dp * dp) });
		}
		return r;
	}();
	return g;
}

struct Quad { V3 x, n; double w; };
inline std::vector<Quad> quadrature(const Surface& s)
{
	std::vector<Quad> q;
	for (auto& f : s.faces) {
		const V3 ce = s.def.centre(s.def.elems[f.elem]);
		auto add = [&](const V3& x, V3 nn, double w) {
			const double m = hx::norm(nn);
			nn = (1.0 / m) * nn;
			if (hx::dot(nn, x - ce) < 0) { nn = -1.0 * nn; }
			q.push_back({ x, nn, w * m });
		};
		std::vector<V3> p;
		for (int v : f.v) { p.push_back(s.def.verts[v]); }
		if (p.size() == 2) {
			for (auto& a : gl8()) { const V3 t = p[1] - p[0]; add(p[0] + a.first * t, { t[1], -t[0], 0 }, a.second); }
		} else if (p.size() == 3) {
			for (auto& a : gl8()) for (auto& b : gl8()) {
				const double u = a.first, v = b.first * (1 - u);
				add(p[0] + u * (p[1] - p[0]) + v * (p[2] - p[0]), hx::cross(p[1] - p[0], p[2] - p[0]), a.second * b.second * (1 - u));
			}
		} else {
			for (auto& a : gl8()) for (auto& b : gl8()) {
				const double u = a.first, v = b.first;
				const V3 x = (1 - u) * (1 - v) * p[0] + u * (1 - v) * p[1] + u * v * p[2] + (1 - u) * v * p[3];
				const V3 du = (1 - v) * (p[1] - p[0]) + v * (p[2] - p[3]), dv = (1 - u) * (p[3] - p[0]) + u * (p[2] - p[1]);
				add(x, hx::cross(du, dv), a.second * b.second);
			}
		}
	}
	return q;
}

struct Pulse { double spread, mean; double freqHz = 0; };
struct Result { double pot, rcs, potScale, rcsScale; };

// Definition: mean DFT of the fields, equivalent currents, radiation potentials, normalisation.
inline Result expected(const Surface& s, const std::vector<Quad>& q, const std::vector<double>& times, const FieldFn& F, double fHz, double th, double ph, const Pulse& pw)
{
	const double f = fHz / c0, k = 2 * M_PI * f;
	const int n = int(times.size());
	std::array<cd, 3> N{}, L{};
	double scale = 0;
	const V3 r = rhat(th, ph);
	for (auto& p : q) {
		std::array<cd, 6> fld{};
		for (int c = 0; c < 6; c++) { for (int t = 0; t < n; t++) { fld[c] += F(c, p.x, t) * std::exp(cd(0, -k * times[t])); } fld[c] /= double(n); }
		const cd w = p.w * std::exp(cd(0, k * hx::dot(r, p.x)));
		for (int i = 0; i < 3; i++) {
			const int a = (i + 1) % 3, b = (i + 2) % 3;
			N[i] += w * (p.n[a] * fld[3 + b] - p.n[b] * fld[3 + a]);
			L[i] -= w * (p.n[a] * fld[b] - p.n[b] * fld[a]);
		}
		for (auto& v : fld) { scale += p.w * std::abs(v); }
	}
	auto dot = [](const V3& a, const std::array<cd, 3>& b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; };
	const cd Nt = dot(thhat(th, ph), N), Np = dot(phhat(th, ph), N), Lt = dot(thhat(th, ph), L), Lp = dot(phhat(th, ph), L);
	const double U = std::norm(Lp + Nt) + std::norm(Lt - Np);
	cd inc = 0;
	for (double t : times) {
		double g = std::exp(-(t - std::abs(pw.mean)) * (t - std::abs(pw.mean)) / (2 * pw.spread * pw.spread));
		if (pw.freqHz != 0) { g *= std::cos(2 * M_PI * pw.freqHz / c0 * (t - std::abs(pw.mean))); }
		inc += g * std::exp(cd(0, -k * t));
	}
	inc /= double(n);
	const double P = std::norm(inc);
	Result R;
	const double kp = s.dim() == 2 ? k * k / 32 : k * k / (32 * M_PI * M_PI);
	const double kr = s.dim() == 2 ? k / 4 / P : k * k / (4 * M_PI) / P;
	R.pot = kp * U;
	R.rcs = kr * U;
	R.potScale = kp * scale * scale;
	R.rcsScale = kr * scale * scale;
	return R;
}

struct Row { double th, ph, f, val, nrm; };
inline std::string fileName(const std::string& dir, bool rcs, double th, double ph)
{
	return dir + (rcs ? "/rcs/rcsData_" : "/farfield/farfieldData_") + "Th_" + std::to_string(th) + "_Phi_" + std::to_string(ph) + "_dgtd.dat";
}
inline bool readRows(const std::string& file, std::vector<Row>& rows)
{
	rows.clear();
	if (!hx::fs::is_regular_file(file)) { return false; }
	auto ls = hx::lines(hx::slurp(file));
	for (size_t i = 1; i < ls.size(); i++) {
		std::istringstream in(ls[i]);
		std::string a[5];
		for (auto& x : a) { in >> x; }
		try { rows.push_back({ std::stod(a[0]), std::stod(a[1]), std::stod(a[2]), std::stod(a[3]), std::stod(a[4]) }); } catch (const std::exception&) { return false; }
	}
	return !ls.empty();
}

inline std::string caseJson(const Pulse& p, const V3& dir, const std::string& extraSource = "")
{
	auto v = [](const V3& a) { return "[" + vh::num(a[0]) + "," + vh::num(a[1]) + "," + vh::num(a[2]) + "]"; };
	const V3 d = hx::unit(dir);
	std::string s = "{\"model\":{\"filename\":\"c.msh\"},\"sources\":[" + extraSource;
	s += "{\"type\":\"planewave\",\"tags\":[9],\"polarization\":[0,0,1],\"propagation\":" + v(dir) + ",\"magnitude\":{\"type\":\"" + (p.freqHz != 0 ? "modulated_gaussian" : "gaussian") + "\",\"spread\":" + vh::num(p.spread) + ",\"mean\":" + v(p.mean * d);
	if (p.freqHz != 0) { s += ",\"frequency\":" + vh::num(p.freqHz); }
	return s + "}}]}";
}

} // namespace rx
