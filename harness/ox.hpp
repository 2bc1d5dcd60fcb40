// Spatial operators as dense matrices, and the exact weighted mass of the fields' space.
#pragma once
#include "hx.hpp"
#include "solver/Solver.h"

namespace ox {

using hx::V3;
using Mat = Eigen::MatrixXd;
using Vec = Eigen::VectorXd;

struct Cfg {
	int order = 1;
	double alpha = 1.0;
	maxwell::EvolutionOperatorType op = maxwell::Global;
	std::map<int, maxwell::BdrCond> outer, inner;
	std::map<int, maxwell::Material> mats;
	double dt = 1e-3;
	int ode = 0;
	std::vector<int> tfsf;      // tags of the total-field surface
};

inline maxwell::SolverOptions options(const Cfg& c)
{
	maxwell::SolverOptions o;
	o.setOrder(c.order).setFinalTime(1.0).setTimeStep(c.dt).setEvolutionOperator(c.op);
	o.evolution.alpha = c.alpha;
	o.setODEType(c.ode);
	return o;
}
inline std::unique_ptr<maxwell::Solver> solver(mfem::Mesh& mesh, const Cfg& c, const maxwell::Sources& s = maxwell::Sources())
{
	auto m = hx::model(mesh, c.outer, c.inner, c.mats);
	if (!c.tfsf.empty()) {
		mfem::Array<int> marker(m.getConstMesh().bdr_attributes.Max());
		marker = 0;
		for (int t : c.tfsf) { marker[t - 1] = 1; }
		m.getTotalFieldScatteredFieldToMarker().insert({ maxwell::BdrCond::TotalFieldIn, marker });
	}
	return std::make_unique<maxwell::Solver>(m, maxwell::Probes(), s, options(c));
}
inline Vec apply(maxwell::Solver& s, const Vec& x, double t = 0.0)
{
	mfem::Vector a(int(x.size())), b(int(x.size()));
	for (int i = 0; i < x.size(); i++) { a[i] = x[i]; }
	auto* op = const_cast<mfem::TimeDependentOperator*>(s.getConstEvolTDO());
	op->SetTime(t);
	op->Mult(a, b);
	Vec r(x.size());
	for (int i = 0; i < x.size(); i++) { r[i] = b[i]; }
	return r;
}
// Column by column: the time derivative of every unit state.
inline Mat matrix(maxwell::Solver& s)
{
	const int n = 6 * s.getFES().GetNDofs();
	Mat A(n, n);
	for (int j = 0; j < n; j++) { A.col(j) = apply(s, Vec::Unit(n, j)); }
	return A;
}
inline std::vector<int> dofElem(mfem::FiniteElementSpace& fes)
{
	std::vector<int> r(fes.GetNDofs(), -1);
	for (int e = 0; e < fes.GetNE(); e++) { mfem::Array<int> d; fes.GetElementDofs(e, d); for (int i = 0; i < d.Size(); i++) { r[d[i]] = e; } }
	return r;
}
inline const char* bcName(maxwell::BdrCond c)
{
	switch (c) { case maxwell::BdrCond::PEC: return "PEC"; case maxwell::BdrCond::PMC: return "PMC"; case maxwell::BdrCond::SMA: return "SMA"; default: return "?"; }
}
// Exact integrals of products of monomials over an affine simplex or a tensor cell, by Gauss points
// of this harness' own (degree >= 2*order+3 per direction, collapsed coordinates on simplices).
inline void gauss(int n, std::vector<double>& x, std::vector<double>& w)
{
	Mat J = Mat::Zero(n, n);
	for (int i = 1; i < n; i++) { J(i, i - 1) = J(i - 1, i) = i / std::sqrt(4.0 * i * i - 1); }
	Eigen::SelfAdjointEigenSolver<Mat> es(J);
	x.resize(n); w.resize(n);
	for (int i = 0; i < n; i++) { x[i] = 0.5 * (1 + es.eigenvalues()[i]); w[i] = es.eigenvectors()(0, i) * es.eigenvectors()(0, i); }
}
// Scalar mass matrix, element block by element block: M_ij = int phi_i phi_j with the nodal basis
// through the element's nodes (independent of the library's shape functions; affine maps for
// simplices, multilinear ones for tensor cells).
inline Mat mass(const hx::MeshDef& def, mfem::FiniteElementSpace& fes, int order)
{
	const int N = fes.GetNDofs(), dim = def.dim();
	const bool tensor = def.kind == hx::SEG || def.kind == hx::QUAD || def.kind == hx::HEX;
	auto ms = hx::monomials(dim, order, tensor);
	Mat M = Mat::Zero(N, N);
	std::vector<double> gx, gw;
	gauss(order + 3, gx, gw);
	for (int e = 0; e < fes.GetNE(); e++) {
		mfem::Array<int> dofs;
		fes.GetElementDofs(e, dofs);
		const auto& ir = fes.GetFE(e)->GetNodes();
		const int n = dofs.Size();
		Mat B(n, n);
		for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { const auto& q = ir.IntPoint(i); B(i, j) = hx::mono(ms[j], { q.x, q.y, q.z }); }
		Mat C = B.inverse();      // column i: coefficients of phi_i in the reference monomials
		auto* T = fes.GetElementTransformation(e);
		Mat L = Mat::Zero(n, n);
		const int g = int(gx.size());
		for (int a = 0; a < g; a++) for (int b = 0; b < (dim > 1 ? g : 1); b++) for (int c = 0; c < (dim > 2 ? g : 1); c++) {
			V3 p{ gx[a], dim > 1 ? gx[b] : 0.0, dim > 2 ? gx[c] : 0.0 };
			double w = gw[a] * (dim > 1 ? gw[b] : 1) * (dim > 2 ? gw[c] : 1);
			if (def.kind == hx::TRI) { w *= 1 - p[0]; p[1] *= 1 - p[0]; }
			if (def.kind == hx::TET) { w *= (1 - p[0]) * (1 - p[0]) * (1 - p[1]); const double y = p[1] * (1 - p[0]); p[2] *= (1 - p[0]) * (1 - p[1]); p[1] = y; }
			mfem::IntegrationPoint ip;
			ip.Set3(p[0], p[1], p[2]);
			T->SetIntPoint(&ip);
			w *= T->Weight();
			Vec m(n);
			for (int j = 0; j < n; j++) { m[j] = hx::mono(ms[j], p); }
			Vec phi = C.transpose() * m;
			L += w * phi * phi.transpose();
		}
		for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { M(dofs[i], dofs[j]) += L(i, j); }
	}
	return M;
}
// Energy weight: eps on the electric blocks, mu on the magnetic ones.
inline Mat energy(const hx::MeshDef& def, maxwell::Solver& s, const Cfg& c)
{
	auto& fes = s.getFES();
	const int N = fes.GetNDofs();
	Mat M = mass(def, fes, c.order);
	auto el = dofElem(fes);
	Mat W = Mat::Zero(6 * N, 6 * N);
	for (int f = 0; f < 2; f++) for (int d = 0; d < 3; d++) for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) {
		if (el[i] != el[j]) { continue; }
		double k = 1;
		auto it = c.mats.find(fes.GetMesh()->GetAttribute(el[i]));
		if (it != c.mats.end()) { k = f ? it->second.getPermeability() : it->second.getPermittivity(); }
		W((3 * f + d) * N + i, (3 * f + d) * N + j) = k * M(i, j);
	}
	return W;
}

} // namespace ox
