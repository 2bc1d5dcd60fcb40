// Thin panels between cells: the solver with panels and this project's own model of the coupling.
#pragma once
#include "vh.hpp"
#include "hx.hpp"
#include "ox.hpp"
#include "evolution/GlobalEvolution.h"
#include "solver/SolverExtension.h"

namespace panels {

using namespace maxwell;
using ox::Mat; using ox::Vec; using hx::V3;


struct Setup {
	std::string name;
	hx::MeshDef def;
	int order = 1;
	double alpha = 1.0;
	std::vector<SGBCProperties> panels;     // by tag
	double dt = 0.05;
	bool symmetric = true;                  // every panel looks the same from both sides
	bool each = false;                      // the stack starts at the cell numbered lower, unless
	int flips = 0;                          // the face's bit is set here
	std::map<int, Material> mats;
	BdrCond outer = BdrCond::SMA;
};
inline double mix(int i) { return std::sin(1.0 + 0.7310585 * i) + 0.25 * std::cos(2.1 * i * i); }
inline Vec generic(int n, int salt) { Vec v(n); for (int i = 0; i < n; i++) { v[i] = mix(i + 1000 * salt); } return v; }

inline SGBCProperties stack(int tag, int kind)
{
	SGBCProperties p;
	p.geom_tags = { size_t(tag) };
	auto add = [&](double e, double m, double s, double w, int n, int o) { SGBCLayer l(Material(e, m, s), w); l.num_of_segments = n; l.order = o; p.layers.push_back(l); };
	switch (kind) {
	case 0: add(2, 1, 3.0, 0.1, 2, 1); break;
	case 1: add(1, 1, 40.0, 0.06, 1, 2); break;
	case 2: add(4, 1, 1.0, 0.05, 1, 1); add(1, 2, 8.0, 0.1, 1, 1); break;
	default: add(1, 1, 5.0, 0.2, 1, 1); p.sgbc_bdr_info.first = { kind == 3 ? BdrCond::PEC : BdrCond::PMC, true }; p.sgbc_bdr_info.second = { kind == 3 ? BdrCond::PEC : BdrCond::PMC, true }; break;
	}
	return p;
}
inline std::unique_ptr<maxwell::Solver> solver(const Setup& s, bool withPanels)
{
	hx::MuteAll mute;
	auto mesh = s.def.build();
	ox::Cfg c;
	c.order = s.order;
	c.alpha = s.alpha;
	c.outer = hx::allOuter(s.def.dim(), s.outer);
	c.mats = s.mats;
	c.dt = s.dt;
	if (!withPanels) { return ox::solver(mesh, c); }
	for (auto& p : s.panels) for (auto t : p.geom_tags) { c.inner[int(t)] = BdrCond::SGBC; }
	auto m = hx::model(mesh, c.outer, c.inner, c.mats);
	m.setSGBCProperties(s.panels);
	mfem::Array<int> marker(m.getConstMesh().bdr_attributes.Max());
	marker = 0;
	for (auto& p : s.panels) for (auto t : p.geom_tags) { marker[int(t) - 1] = 1; }
	m.getSGBCToMarker().insert({ BdrCond::SGBC, marker });
	auto o = ox::options(c);
	o.setFinalTime(100.0);
	return std::make_unique<maxwell::Solver>(m, Probes(), Sources(), o);
}

// The harness' own panels.
struct Oracle {
	const Setup& s;
	Mat A;
	int N = 0;
	std::vector<int> elem;
	struct Node { int a, b; SGBCState st, work; int panel; };
	std::vector<Node> nodes;
	std::vector<std::unique_ptr<SGBCWrapper>> w;
	std::map<std::pair<int, int>, bool> split;      // cells separated by a panel
	int faces = 0;

	Oracle(const Setup& s_, bool flip) : s(s_)
	{
		hx::MuteAll mute;
		auto plain = solver(s, false);
		A = ox::matrix(*plain);
		auto& fes = plain->getFES();
		N = fes.GetNDofs();
		elem = ox::dofElem(fes);
		auto x = hx::nodes(fes);
		for (auto& p : s.panels) { w.push_back(SGBCWrapper::buildSGBCWrapper(p)); }
		auto fe = s.def.faceElems();
		for (auto& b : s.def.bdr) {
			int panel = -1;
			for (size_t p = 0; p < s.panels.size(); p++) for (auto t : s.panels[p].geom_tags) { if (int(t) == b.tag) { panel = int(p); } }
			if (panel < 0) { continue; }
			auto key = b.v;
			std::sort(key.begin(), key.end());
			auto els = fe.at(key);
			// lower side of the (axis-aligned or tilted) face first
			const V3 f = s.def.centre(b.v);
			V3 n = normal(b.v);
			if (hx::dot(hx::operator-(s.def.centre(s.def.elems[els[0]]), f), n) > 0) { std::swap(els[0], els[1]); }
			if (s.each && (els[0] > els[1]) != bool(s.flips >> faces & 1)) { std::swap(els[0], els[1]); n = hx::operator*(-1.0, n); }
			faces++;
			if (flip) { std::swap(els[0], els[1]); n = hx::operator*(-1.0, n); }
			split[{ els[0], els[1] }] = split[{ els[1], els[0] }] = true;
			for (int i = 0; i < N; i++) {
				if (elem[i] != els[0] || !onFace(x[i], b.v)) { continue; }
				for (int j = 0; j < N; j++) {
					if (elem[j] != els[1] || hx::norm(hx::operator-(x[i], x[j])) > 1e-9) { continue; }
					Node q;
					q.a = i; q.b = j; q.panel = panel;
					q.st.global_pair = { i, j };
					q.st.element_pair = { els[0], els[1] };
					q.st.init(w[panel]->getStateSize());
					frame(n, q.st.rot);
					nodes.push_back(q);
				}
			}
		}
	}
	V3 normal(const std::vector<int>& v) const
	{
		const auto& X = s.def.verts;
		V3 n{ 1, 0, 0 };
		if (v.size() == 2) { const V3 t = hx::operator-(X[v[1]], X[v[0]]); n = { t[1], -t[0], 0 }; }
		if (v.size() > 2) { n = hx::cross(hx::operator-(X[v[1]], X[v[0]]), hx::operator-(X[v[2]], X[v[0]])); }
		n = hx::unit(n);
		// one sense for all faces
		for (int d = 0; d < 3; d++) { if (std::abs(n[d]) > 1e-9) { return n[d] > 0 ? n : hx::operator*(-1.0, n); } }
		return n;
	}
	bool onFace(const V3& p, const std::vector<int>& v) const
	{
		const auto& X = s.def.verts;
		if (v.size() == 1) { return hx::norm(hx::operator-(p, X[v[0]])) < 1e-9; }
		return std::abs(hx::dot(hx::operator-(p, X[v[0]]), normal(v))) < 1e-9;      // of a cell bordering the face
	}
	static void frame(const V3& n, double* R)
	{
		const V3 r = std::abs(n[2]) < 0.7 ? V3{ 0, 0, 1 } : V3{ 0, 1, 0 };
		const V3 t = hx::unit(hx::cross(r, n)), b = hx::cross(n, t);
		for (int d = 0; d < 3; d++) { R[d] = n[d]; R[3 + d] = t[d]; R[6 + d] = b[d]; }
	}
	void ghosts(const Node& q, const Vec& u, double* g) const
	{
		for (int side = 0; side < 2; side++) for (int f = 0; f < 2; f++) for (int d = 0; d < 3; d++) {
			double v = 0;
			for (int k = 0; k < 3; k++) { v += q.st.rot[3 * d + k] * u[(3 * f + k) * N + (side ? q.b : q.a)]; }
			g[6 * side + 3 * f + d] = v;
		}
	}
	void advance(Node& q, SGBCState& st, double t, double dt)
	{
		auto& x = *w[q.panel];
		const double sub = x.getRecommendedDt();
		const int n = sub > 0 && sub < dt ? int(std::ceil(dt / sub)) : 1;
		x.loadState(st);
		for (int k = 0; k < n; k++) { x.updateFieldsWithInterpolatedGhost(double(k + 1) / n, st); x.solve(t + k * dt / n, dt / n); }
		x.saveState(st);
	}
	double t0 = 0, h = 0;
	Vec start;
	void commit(double t, double dt, const Vec& u) { t0 = t; h = dt; start = u; }
	void complete(const Vec& u)
	{
		for (auto& q : nodes) {
			ghosts(q, start, q.st.ghost_old);
			ghosts(q, u, q.st.ghost_new);
			advance(q, q.st, t0, h);
		}
	}
	Vec derivative(const Vec& u, double t)
	{
		std::map<std::pair<int, int>, Vec> seen;       // what cell .first sees of cell .second
		for (auto& q : nodes) {
			SGBCState st = q.st;
			ghosts(q, u, st.ghost_old);
			ghosts(q, u, st.ghost_new);
			if (t - t0 > 1e-12) { advance(q, st, t0, t - t0); }
			const int n = w[q.panel]->getLocalFieldSize();
			for (int side = 0; side < 2; side++) {
				const int idx = side ? w[q.panel]->getRightInterfaceIndex() : w[q.panel]->getLeftInterfaceIndex();
				const int me = side ? q.b : q.a, other = side ? q.a : q.b;
				auto& v = seen[{ elem[me], elem[other] }];
				if (!v.size()) { v = Vec::Zero(6 * N); }
				const auto& info = side ? s.panels[q.panel].sgbc_bdr_info.second : s.panels[q.panel].sgbc_bdr_info.first;
				for (int f = 0; f < 2; f++) for (int d = 0; d < 3; d++) {
					double z = 0;
					if (!info.isOn) { for (int k = 0; k < 3; k++) { z += st.rot[3 * k + d] * st.fields_state[(3 * f + k) * n + idx]; } }
					else { z = u[(3 * f + d) * N + me] * ((f == 0) == (info.bdrCond == BdrCond::PEC) ? -1 : 1); }
					v[(3 * f + d) * N + other] = z;
				}
			}
		}
		Vec r = Vec::Zero(6 * N);
		for (int i = 0; i < 6 * N; i++) for (int j = 0; j < 6 * N; j++) {
			if (A(i, j) == 0) { continue; }
			const std::pair<int, int> k{ elem[i % N], elem[j % N] };
			auto it = seen.find(k);
			r[i] += A(i, j) * (it == seen.end() ? u[j] : it->second[j]);
		}
		return r;
	}
};

inline Vec run(GlobalEvolution& g, const Vec& u, double t)
{
	mfem::Vector a(int(u.size())), b(int(u.size()));
	for (int i = 0; i < u.size(); i++) { a[i] = u[i]; }
	g.SetTime(t);
	g.Mult(a, b);
	Vec r(u.size());
	for (int i = 0; i < u.size(); i++) { r[i] = b[i]; }
	return r;
}
inline void put(maxwell::Solver& s, const Vec& u) { for (int i = 0; i < u.size(); i++) { s.getFields().allDOFs()[i] = u[i]; } }
inline bool same(const Vec& a, const Vec& b) { return (a - b).cwiseAbs().maxCoeff() <= 1e-9 * (1 + b.cwiseAbs().maxCoeff()); }
inline double off(const Vec& a, const Vec& b) { return (a - b).cwiseAbs().maxCoeff(); }

inline GlobalEvolution* evolution(maxwell::Solver& s) { return dynamic_cast<GlobalEvolution*>(s.getEvolTDO()); }

} // namespace panels
