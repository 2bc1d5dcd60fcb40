// Reference geometry, quadrature, nodal elements and transformations.
#include "mfem.hpp"
#include <mutex>

namespace mfem {

const int Geometry::NumVerts[NumGeom] = { 1, 2, 3, 4, 4, 8, 6, 5 };
const int Geometry::NumEdges[NumGeom] = { 0, 1, 3, 4, 6, 12, 9, 8 };
const int Geometry::NumFaces[NumGeom] = { 0, 0, 1, 1, 4, 6, 5, 5 };
const int Geometry::Dimension[NumGeom] = { 0, 1, 2, 2, 3, 3, 3, 3 };
const int Geometry::DimStart[5] = { POINT, SEGMENT, TRIANGLE, TETRAHEDRON, NUM_GEOMETRIES };
const double Geometry::Volume[NumGeom] = { 1.0, 1.0, 0.5, 1.0, 1. / 6, 1.0, 0.5, 1. / 3 };
const char* Geometry::Name[NumGeom] = { "Point", "Segment", "Triangle", "Square", "Tetrahedron", "Cube", "Prism", "Pyramid" };
Geometry Geometries;
IntegrationRules IntRules;

namespace {
IntegrationPoint P(double x, double y = 0, double z = 0) { IntegrationPoint p; p.Set3(x, y, z); return p; }
const std::vector<IntegrationPoint>& refVerts(int g)
{
	static const std::vector<IntegrationPoint> v[8] = {
		{ P(0) },
		{ P(0), P(1) },
		{ P(0, 0), P(1, 0), P(0, 1) },
		{ P(0, 0), P(1, 0), P(1, 1), P(0, 1) },
		{ P(0, 0, 0), P(1, 0, 0), P(0, 1, 0), P(0, 0, 1) },
		{ P(0, 0, 0), P(1, 0, 0), P(1, 1, 0), P(0, 1, 0), P(0, 0, 1), P(1, 0, 1), P(1, 1, 1), P(0, 1, 1) },
		{}, {} };
	return v[g];
}
double legendre(int n, double s, double* d = nullptr)
{
	double p0 = 1, p1 = s, d0 = 0, d1 = 1;
	if (n == 0) { if (d) { *d = 0; } return 1; }
	for (int k = 1; k < n; k++) {
		const double p2 = ((2 * k + 1) * s * p1 - k * p0) / (k + 1);
		const double d2 = d0 + (2 * k + 1) * p1;
		p0 = p1; p1 = p2; d0 = d1; d1 = d2;
	}
	if (d) { *d = d1; }
	return p1;
}
}

const IntegrationRule* Geometry::GetVertices(int g) const
{
	static IntegrationRule r[8];
	static std::once_flag once;
	std::call_once(once, [] {
		for (int k = 0; k < 8; k++) { for (auto& p : refVerts(k)) { r[k].Append(p); } }
	});
	return &r[g];
}
const IntegrationPoint& Geometry::GetCenter(int g) const
{
	static const IntegrationPoint c[8] = { P(0), P(.5), P(1. / 3, 1. / 3), P(.5, .5), P(.25, .25, .25), P(.5, .5, .5), P(1. / 3, 1. / 3, .5), P(.375, .375, .25) };
	return c[g];
}
bool Geometry::CheckPoint(int g, const IntegrationPoint& ip, double e)
{
	switch (g) {
	case POINT: return std::abs(ip.x) <= e;
	case SEGMENT: return ip.x >= -e && ip.x <= 1 + e;
	case TRIANGLE: return ip.x >= -e && ip.y >= -e && ip.x + ip.y <= 1 + e;
	case SQUARE: return ip.x >= -e && ip.x <= 1 + e && ip.y >= -e && ip.y <= 1 + e;
	case TETRAHEDRON: return ip.x >= -e && ip.y >= -e && ip.z >= -e && ip.x + ip.y + ip.z <= 1 + e;
	case CUBE: return ip.x >= -e && ip.x <= 1 + e && ip.y >= -e && ip.y <= 1 + e && ip.z >= -e && ip.z <= 1 + e;
	default: mfem_error("CheckPoint: geometry");
	}
}

void gaussLegendre(int n, std::vector<double>& x, std::vector<double>& w)
{
	x.assign(n, 0);
	w.assign(n, 0);
	for (int i = 0; i < n; i++) {
		double s = -std::cos(M_PI * (i + 0.75) / (n + 0.5)), d = 0;
		for (int it = 0; it < 100; it++) {
			const double p = legendre(n, s, &d), ds = p / d;
			s -= ds;
			if (std::abs(ds) < 1e-16) { break; }
		}
		legendre(n, s, &d);
		x[i] = 0.5 * (1 + s);
		w[i] = 1.0 / ((1 - s * s) * d * d);
	}
}
void gaussLobatto(int n, std::vector<double>& x)
{
	x.assign(n, 0);
	if (n == 1) { x[0] = 0.5; return; }
	x[0] = 0;
	x[n - 1] = 1;
	const int N = n - 1;
	for (int i = 1; i < N; i++) {
		double s = -std::cos(M_PI * i / N);
		for (int it = 0; it < 100; it++) {
			double d;
			const double p = legendre(N, s, &d);
			const double d2 = (2 * s * d - N * (N + 1) * p) / (1 - s * s);
			const double ds = d / d2;
			s -= ds;
			if (std::abs(ds) < 1e-16) { break; }
		}
		x[i] = 0.5 * (1 + s);
	}
}

void QuadratureFunctions1D::GaussLegendre(const int np, IntegrationRule* ir)
{
	std::vector<double> x, w;
	gaussLegendre(np, x, w);
	ir->SetSize(np);
	for (int i = 0; i < np; i++) { ir->IntPoint(i).Set1w(x[i], w[i]); }
}
void QuadratureFunctions1D::GaussLobatto(const int np, IntegrationRule* ir)
{
	std::vector<double> x;
	gaussLobatto(np, x);
	ir->SetSize(np);
	for (int i = 0; i < np; i++) {
		const double l = legendre(np - 1, 2 * x[i] - 1);
		ir->IntPoint(i).Set1w(x[i], np == 1 ? 1.0 : 1.0 / (np * (np - 1) * l * l));
	}
}

const IntegrationRule& IntegrationRules::Get(int geom, int order)
{
	static std::map<std::pair<int, int>, std::unique_ptr<IntegrationRule>> cache;
	static std::mutex m;
	std::lock_guard<std::mutex> lk(m);
	if (order < 0) { order = 0; }
	auto& slot = cache[{ geom, order }];
	if (slot) { return *slot; }
	slot = std::make_unique<IntegrationRule>();
	IntegrationRule& r = *slot;
	r.order = order;
	auto push = [&](double x, double y, double z, double w) {
		IntegrationPoint p;
		p.Set(x, y, z, w);
		p.index = r.Size();
		r.Append(p);
	};
	const int n = order / 2 + 1;
	std::vector<double> x, w, x1, w1, x2, w2;
	gaussLegendre(n, x, w);
	gaussLegendre((order + 1) / 2 + 1, x1, w1);
	gaussLegendre((order + 2) / 2 + 1, x2, w2);
	switch (geom) {
	case Geometry::POINT: push(0, 0, 0, 1); break;
	case Geometry::SEGMENT: for (int i = 0; i < n; i++) { push(x[i], 0, 0, w[i]); } break;
	case Geometry::SQUARE: for (int j = 0; j < n; j++) { for (int i = 0; i < n; i++) { push(x[i], x[j], 0, w[i] * w[j]); } } break;
	case Geometry::CUBE:
		for (int k = 0; k < n; k++) { for (int j = 0; j < n; j++) { for (int i = 0; i < n; i++) { push(x[i], x[j], x[k], w[i] * w[j] * w[k]); } } }
		break;
	case Geometry::TRIANGLE:
		if (order <= 1) { push(1. / 3, 1. / 3, 0, 0.5); break; }
		for (size_t i = 0; i < x1.size(); i++) { for (int j = 0; j < n; j++) { push(x1[i], x[j] * (1 - x1[i]), 0, w1[i] * w[j] * (1 - x1[i])); } }
		break;
	case Geometry::TETRAHEDRON:
		if (order <= 1) { push(.25, .25, .25, 1. / 6); break; }
		for (size_t i = 0; i < x2.size(); i++) {
			for (size_t j = 0; j < x1.size(); j++) {
				for (int k = 0; k < n; k++) {
					const double a = x2[i], b = x1[j] * (1 - a), c = x[k] * (1 - a) * (1 - x1[j]);
					push(a, b, c, w2[i] * w1[j] * w[k] * (1 - a) * (1 - a) * (1 - x1[j]));
				}
			}
		}
		break;
	default: mfem_error("IntegrationRules: geometry");
	}
	return r;
}

// ---------------------------------------------------------------- FiniteElement
FiniteElement::FiniteElement(Geometry::Type g, int p, int bt) : geom_(g), order_(p), btype_(bt)
{
	space_ = g == Geometry::SQUARE || g == Geometry::CUBE ? FunctionSpace::Qk : FunctionSpace::Pk;
	std::vector<double> c, w;
	if (bt == BasisType::GaussLobatto && p > 0) { gaussLobatto(p + 1, c); }
	else { gaussLegendre(p + 1, c, w); }
	auto push = [&](double x, double y, double z) {
		IntegrationPoint ip = P(x, y, z);
		ip.index = nodes_.Size();
		nodes_.Append(ip);
	};
	switch (g) {
	case Geometry::POINT: order_ = 0; push(0, 0, 0); exps_.push_back({ 0,0,0 }); break;
	case Geometry::SEGMENT: for (int i = 0; i <= p; i++) { push(c[i], 0, 0); exps_.push_back({ i,0,0 }); } break;
	case Geometry::SQUARE: for (int j = 0; j <= p; j++) { for (int i = 0; i <= p; i++) { push(c[i], c[j], 0); exps_.push_back({ i,j,0 }); } } break;
	case Geometry::CUBE:
		for (int k = 0; k <= p; k++) { for (int j = 0; j <= p; j++) { for (int i = 0; i <= p; i++) { push(c[i], c[j], c[k]); exps_.push_back({ i,j,k }); } } }
		break;
	case Geometry::TRIANGLE:
		for (int j = 0; j <= p; j++) {
			for (int i = 0; i + j <= p; i++) {
				const double s = c[i] + c[j] + c[p - i - j];
				push(c[i] / s, c[j] / s, 0);
				exps_.push_back({ i,j,0 });
			}
		}
		break;
	case Geometry::TETRAHEDRON:
		for (int k = 0; k <= p; k++) {
			for (int j = 0; j + k <= p; j++) {
				for (int i = 0; i + j + k <= p; i++) {
					const double s = c[i] + c[j] + c[k] + c[p - i - j - k];
					push(c[i] / s, c[j] / s, c[k] / s);
					exps_.push_back({ i,j,k });
				}
			}
		}
		break;
	default: mfem_error("FiniteElement: geometry");
	}
	const int n = GetDof();
	DenseMatrix V(n);
	Vector v(n);
	for (int i = 0; i < n; i++) {
		poly(nodes_[i].x, nodes_[i].y, nodes_[i].z, v);
		for (int k = 0; k < n; k++) { V(k, i) = v(k); }
	}
	V.Invert();
	Vinv_ = V;
}
void FiniteElement::poly(double x, double y, double z, Vector& v) const
{
	const int d = GetDim();
	double a[3][16];
	const double s[3] = { 2 * x - 1, 2 * y - 1, 2 * z - 1 };
	for (int c = 0; c < 3; c++) { for (int k = 0; k <= order_; k++) { a[c][k] = c < d ? legendre(k, s[c]) : (k == 0 ? 1.0 : 0.0); } }
	for (size_t k = 0; k < exps_.size(); k++) { v(int(k)) = a[0][exps_[k][0]] * a[1][exps_[k][1]] * a[2][exps_[k][2]]; }
}
void FiniteElement::dpoly(double x, double y, double z, DenseMatrix& m) const
{
	const int d = GetDim();
	double a[3][16], b[3][16];
	const double s[3] = { 2 * x - 1, 2 * y - 1, 2 * z - 1 };
	for (int c = 0; c < 3; c++) {
		for (int k = 0; k <= order_; k++) {
			if (c < d) { a[c][k] = legendre(k, s[c], &b[c][k]); b[c][k] *= 2; }
			else { a[c][k] = k == 0; b[c][k] = 0; }
		}
	}
	for (size_t k = 0; k < exps_.size(); k++) {
		for (int c = 0; c < d; c++) {
			double v = 1;
			for (int e = 0; e < 3; e++) { v *= e == c ? b[e][exps_[k][e]] : a[e][exps_[k][e]]; }
			m(int(k), c) = v;
		}
	}
}
void FiniteElement::CalcShape(const IntegrationPoint& ip, Vector& shape) const
{
	const int n = GetDof();
	if (shape.Size() != n) { throw ShimIndexError("CalcShape output", shape.Size(), n); }
	Vector v(n);
	poly(ip.x, ip.y, ip.z, v);
	Vinv_.Mult(v.GetData(), shape.GetData());
}
void FiniteElement::CalcDShape(const IntegrationPoint& ip, DenseMatrix& ds) const
{
	const int n = GetDof(), d = GetDim();
	if (ds.Height() != n || ds.Width() != d) { throw ShimIndexError("CalcDShape output", ds.Height(), n); }
	DenseMatrix m(n, d);
	dpoly(ip.x, ip.y, ip.z, m);
	for (int c = 0; c < d; c++) { Vinv_.Mult(m.GetColumn(c), ds.GetColumn(c)); }
}
void FiniteElement::CalcPhysShape(ElementTransformation& T, Vector& s) const { CalcShape(T.GetIntPoint(), s); }
void FiniteElement::CalcPhysDShape(ElementTransformation& T, DenseMatrix& ds) const
{
	DenseMatrix r(GetDof(), GetDim());
	CalcDShape(T.GetIntPoint(), r);
	Mult(r, T.InverseJacobian(), ds);
}

const FiniteElement* shimGetFE(Geometry::Type g, int order, int bt)
{
	static std::map<std::array<int, 3>, std::unique_ptr<FiniteElement>> cache;
	static std::mutex m;
	std::lock_guard<std::mutex> lk(m);
	auto& s = cache[{ g, order, bt }];
	if (!s) { s = std::make_unique<FiniteElement>(g, order, bt); }
	return s.get();
}

// ---------------------------------------------------------------- Transformations
const DenseMatrix& ElementTransformation::Jacobian()
{
	if (dirty_) {
		evalJacobian(J_);
		dirty_ = false;
	}
	return J_;
}
double ElementTransformation::Weight() { return Jacobian().Weight(); }
const DenseMatrix& ElementTransformation::AdjugateJacobian() { CalcAdjugate(Jacobian(), adj_); return adj_; }
const DenseMatrix& ElementTransformation::InverseJacobian() { CalcInverse(Jacobian(), inv_); return inv_; }

void IsoparametricTransformation::Transform(const IntegrationPoint& ip, Vector& x)
{
	Vector s(fe_->GetDof());
	fe_->CalcShape(ip, s);
	x.SetSize(pm_.Height());
	pm_.Mult(s.GetData(), x.GetData());
}
void IsoparametricTransformation::Transform(const IntegrationRule& ir, DenseMatrix& tr)
{
	tr.SetSize(pm_.Height(), ir.GetNPoints());
	Vector x;
	for (int i = 0; i < ir.GetNPoints(); i++) { Transform(ir.IntPoint(i), x); tr.SetCol(i, x); }
}
void IsoparametricTransformation::evalJacobian(DenseMatrix& J)
{
	const int d = fe_->GetDim();
	if (d == 0) { J = DenseMatrix(pm_.Height(), 0); return; }
	DenseMatrix ds(fe_->GetDof(), d);
	fe_->CalcDShape(GetIntPoint(), ds);
	Mult(pm_, ds, J);
}
int IsoparametricTransformation::OrderJ() const { return fe_->Space() == FunctionSpace::Pk ? std::max(0, fe_->GetOrder() - 1) : fe_->GetOrder(); }
int IsoparametricTransformation::OrderW() const
{
	const int d = fe_->GetDim(), p = fe_->GetOrder();
	if (d == 0) { return 0; }
	return fe_->Space() == FunctionSpace::Pk ? (p - 1) * d : p * d - 1;
}
int IsoparametricTransformation::OrderGrad(const FiniteElement* fe) const
{
	const int k = fe_->GetOrder(), l = fe->GetOrder(), d = fe_->GetDim();
	return fe_->Space() == FunctionSpace::Pk ? (k - 1) * (d - 1) + (l - 1) : k * (d - 1) + (l - 1);
}
int IsoparametricTransformation::TransformBack(const Vector& pt, IntegrationPoint& ip, double tol)
{
	const int d = fe_->GetDim();
	const IntegrationPoint* keep = ip_;
	IntegrationPoint cur = Geometries.GetCenter(geom);
	Vector x;
	bool ok = false;
	for (int it = 0; it < 50; it++) {
		Transform(cur, x);
		Vector r(x.Size());
		for (int i = 0; i < x.Size(); i++) { r(i) = pt(i) - x(i); }
		SetIntPoint(&cur);
		DenseMatrix inv;
		if (Jacobian().Weight() == 0) { break; }
		CalcInverse(Jacobian(), inv);
		Vector dx(d);
		inv.Mult(r, dx);
		cur.x += dx(0);
		if (d > 1) { cur.y += dx(1); }
		if (d > 2) { cur.z += dx(2); }
		if (dx.Norml2() < 1e-14) { ok = true; break; }
		if (!(std::abs(cur.x) < 1e6)) { break; }
	}
	Transform(cur, x);
	double res = 0, sc = 1e-300;
	for (int i = 0; i < x.Size(); i++) { res = std::max(res, std::abs(pt(i) - x(i))); }
	for (int i = 0; i < pm_.Height(); i++) { for (int j = 0; j < pm_.Width(); j++) { sc = std::max(sc, std::abs(pm_(i, j) - pm_(i, 0))); } }
	SetIntPoint(keep);
	ip = cur;
	if (!ok && !(res <= 1e-10 * sc)) { return 2; }
	if (res > 1e-9 * sc) { return 1; }
	return Geometry::CheckPoint(geom, cur, std::max(tol, 1e-10)) ? 0 : 1;
}
void IsoparametricTransformation::SetIdentityTransformation(Geometry::Type g)
{
	SetFE(shimGetFE(g, 1, BasisType::GaussLobatto));
	const auto& n = fe_->GetNodes();
	DenseMatrix pm(Geometry::Dimension[g], n.GetNPoints());
	for (int i = 0; i < n.GetNPoints(); i++) {
		double c[3];
		n.IntPoint(i).Get(c, 3);
		for (int k = 0; k < pm.Height(); k++) { pm(k, i) = c[k]; }
	}
	SetPointMat(pm);
}

void IntegrationPointTransformation::Transform(const IntegrationPoint& a, IntegrationPoint& b)
{
	Vector x;
	Transf.Transform(a, x);
	b.x = x.Size() > 0 ? x(0) : 0;
	b.y = x.Size() > 1 ? x(1) : 0;
	b.z = x.Size() > 2 ? x(2) : 0;
	b.weight = a.weight;
	b.index = a.index;
}
void IntegrationPointTransformation::Transform(const IntegrationRule& a, IntegrationRule& b)
{
	b.SetSize(a.GetNPoints());
	for (int i = 0; i < a.GetNPoints(); i++) { Transform(a.IntPoint(i), b.IntPoint(i)); }
}

FaceElementTransformations& FaceElementTransformations::operator=(const FaceElementTransformations& o)
{
	IsoparametricTransformation::operator=(o);
	Elem1No = o.Elem1No;
	Elem2No = o.Elem2No;
	FaceGeom = o.FaceGeom;
	Elem1 = o.Elem1;
	Elem2 = o.Elem2;
	Face = this;
	Loc1 = o.Loc1;
	Loc2 = o.Loc2;
	eip1_ = o.eip1_;
	eip2_ = o.eip2_;
	mask_ = o.mask_;
	return *this;
}
void FaceElementTransformations::SetAllIntPoints(const IntegrationPoint* ip)
{
	IsoparametricTransformation::SetIntPoint(ip);
	if (mask_ & HAVE_ELEM1) { Loc1.Transform(*ip, eip1_); if (Elem1) { Elem1->SetIntPoint(&eip1_); } }
	if (mask_ & HAVE_ELEM2) { Loc2.Transform(*ip, eip2_); if (Elem2) { Elem2->SetIntPoint(&eip2_); } }
}
ElementTransformation& FaceElementTransformations::GetElement1Transformation() { if (!Elem1) { mfem_error("no Elem1"); } return *Elem1; }
ElementTransformation& FaceElementTransformations::GetElement2Transformation() { if (!Elem2) { mfem_error("no Elem2"); } return *Elem2; }

// ---------------------------------------------------------------- Element
namespace {
const int triE[3][2] = { {0,1},{1,2},{2,0} };
const int quadE[4][2] = { {0,1},{1,2},{2,3},{3,0} };
const int tetE[6][2] = { {0,1},{0,2},{0,3},{1,2},{1,3},{2,3} };
const int hexE[12][2] = { {0,1},{1,2},{3,2},{0,3},{4,5},{5,6},{7,6},{4,7},{0,4},{1,5},{2,6},{3,7} };
const int tetF[4][3] = { {1,2,3},{0,3,2},{0,1,3},{0,2,1} };
const int hexF[6][4] = { {3,2,1,0},{0,1,5,4},{1,2,6,5},{2,3,7,6},{3,0,4,7},{4,5,6,7} };
const int segE[1][2] = { {0,1} };
}
Element::Element(Geometry::Type g, const int* vv, int attr) : v(vv, vv + Geometry::NumVerts[g]), geom(g), attribute(attr) {}
const int* Element::GetEdgeVertices(int e) const
{
	switch (geom) {
	case Geometry::SEGMENT: shimCheck("edge", e, 1); return segE[e];
	case Geometry::TRIANGLE: shimCheck("edge", e, 3); return triE[e];
	case Geometry::SQUARE: shimCheck("edge", e, 4); return quadE[e];
	case Geometry::TETRAHEDRON: shimCheck("edge", e, 6); return tetE[e];
	case Geometry::CUBE: shimCheck("edge", e, 12); return hexE[e];
	default: mfem_error("GetEdgeVertices: geometry");
	}
}
const int* Element::GetFaceVertices(int f) const
{
	switch (geom) {
	case Geometry::TETRAHEDRON: shimCheck("face", f, 4); return tetF[f];
	case Geometry::CUBE: shimCheck("face", f, 6); return hexF[f];
	default: mfem_error("GetFaceVertices: geometry");
	}
}

} // namespace mfem
