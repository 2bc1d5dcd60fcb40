// Spaces, grid functions, integrators and assembly.
#include "mfem.hpp"
#include "mpi_sim.hpp"

namespace mfem {

L2_FECollection::L2_FECollection(int p, int dim, int bt, int) : p_(p), dim_(dim), bt_(bt)
{
	if (p < 0) { mfem_error("L2_FECollection: negative order"); }
	name_ = bt == BasisType::GaussLegendre ? "L2_" + std::to_string(dim) + "D_P" + std::to_string(p)
		: "L2_T" + std::to_string(bt) + "_" + std::to_string(dim) + "D_P" + std::to_string(p);
}
FiniteElementCollection* FiniteElementCollection::New(const char* n)
{
	int bt, d, p;
	if (std::sscanf(n, "L2_T%d_%dD_P%d", &bt, &d, &p) == 3) { return new L2_FECollection(p, d, bt); }
	if (std::sscanf(n, "L2_%dD_P%d", &d, &p) == 2) { return new L2_FECollection(p, d); }
	if (std::sscanf(n, "H1_%dD_P%d", &d, &p) == 2) { return new H1_FECollection(p, d); }
	mfem_error((std::string("unknown collection ") + n).c_str());
}

FiniteElementSpace::FiniteElementSpace(Mesh* m, const FiniteElementCollection* f, int v, int o) : mesh(m), fec(f), vdim(v), ordering(o) { build(); }
void FiniteElementSpace::build()
{
	start.clear();
	el_dof = Table();
	ndofs = 0;
	for (int e = 0; e < mesh->GetNE(); e++) {
		start.push_back(ndofs);
		const int n = fec->FiniteElementForGeometry(mesh->GetElementGeometry(e))->GetDof();
		Array<int> r(n);
		for (int k = 0; k < n; k++) { r[k] = ndofs + k; }
		el_dof.rows_.push_back(r);
		ndofs += n;
	}
}
FiniteElementCollection* FiniteElementSpace::Load(Mesh* m, std::istream& in)
{
	std::string w, name;
	in >> w;
	if (w != "FiniteElementSpace") { mfem_error("FiniteElementSpace::Load: bad header"); }
	in >> w >> name >> w >> vdim >> w >> ordering;
	std::string rest;
	std::getline(in, rest);
	std::getline(in, rest);
	auto* f = FiniteElementCollection::New(name.c_str());
	mesh = m;
	fec = f;
	build();
	return f;
}
void FiniteElementSpace::Save(std::ostream& os) const
{
	os << "FiniteElementSpace\nFiniteElementCollection: " << fec->Name() << "\nVDim: " << vdim << "\nOrdering: " << ordering << "\n";
}
const FiniteElement* FiniteElementSpace::GetFE(int i) const { return fec->FiniteElementForGeometry(mesh->GetElementGeometry(i)); }
DofTransformation* FiniteElementSpace::GetElementDofs(int i, Array<int>& d) const { el_dof.GetRow(i, d); return nullptr; }
DofTransformation* FiniteElementSpace::GetElementVDofs(int i, Array<int>& v) const
{
	Array<int> d;
	GetElementDofs(i, d);
	v.SetSize(d.Size() * vdim);
	for (int c = 0; c < vdim; c++) { for (int k = 0; k < d.Size(); k++) { v[c * d.Size() + k] = DofToVDof(d[k], c); } }
	return nullptr;
}
int FiniteElementSpace::GetElementForDof(int d) const { shimCheck("dof", d, ndofs); return int(std::upper_bound(start.begin(), start.end(), d) - start.begin()) - 1; }
int FiniteElementSpace::GetLocalDofForDof(int d) const { return d - start[GetElementForDof(d)]; }

void ParFiniteElementSpace::ExchangeFaceNbrData()
{
	if (num_face_nbr_dofs >= 0) { return; }
	num_face_nbr_dofs = 0;
	for (int i = 0; i < pmesh->GetNFaceNbrElements(); i++) {
		nbr_start.push_back(num_face_nbr_dofs);
		num_face_nbr_dofs += GetFaceNbrFE(i)->GetDof();
	}
}
void ParFiniteElementSpace::GetFaceNbrElementVDofs(int i, Array<int>& v) const
{
	const int n = GetFaceNbrFE(i)->GetDof();
	v.SetSize(n);
	for (int k = 0; k < n; k++) { v[k] = nbr_start.at(i) + k; }
}
const FiniteElement* ParFiniteElementSpace::GetFaceNbrFE(int i) const { return fec->FiniteElementForGeometry(pmesh->globalMesh()->GetElementGeometry(pmesh->nbrElements().at(i).global_el)); }
const FiniteElement* ParFiniteElementSpace::GetFE(int i) const { return i < GetNE() || !pmesh ? FiniteElementSpace::GetFE(i) : GetFaceNbrFE(i - GetNE()); }

double FunctionCoefficient::Eval(ElementTransformation& T, const IntegrationPoint& ip)
{
	Vector x;
	T.Transform(ip, x);
	return f_ ? f_(x) : tf_(x, GetTime());
}

// ---------------------------------------------------------------- GridFunction
GridFunction::GridFunction(Mesh* m, std::istream& in)
{
	own_fes = std::make_shared<FiniteElementSpace>();
	own_fes->owned_fec.reset(own_fes->Load(m, in));
	fes = own_fes.get();
	Vector::Load(in, fes->GetVSize());
}
void GridFunction::ProjectCoefficient(Coefficient& c)
{
	Array<int> d;
	for (int e = 0; e < fes->GetNE(); e++) {
		fes->GetElementVDofs(e, d);
		const auto& n = fes->GetFE(e)->GetNodes();
		ElementTransformation* T = fes->GetElementTransformation(e);
		for (int k = 0; k < n.GetNPoints(); k++) {
			T->SetIntPoint(&n.IntPoint(k));
			(*this)(d[k]) = c.Eval(*T, n.IntPoint(k));
		}
	}
}
double GridFunction::GetValue(int el, const IntegrationPoint& ip, int vd) const
{
	Array<int> d;
	fes->GetElementDofs(el, d);
	Vector s(d.Size());
	fes->GetFE(el)->CalcShape(ip, s);
	double v = 0;
	for (int k = 0; k < d.Size(); k++) { v += s(k) * (*this)(fes->DofToVDof(d[k], vd - 1)); }
	return v;
}
void GridFunction::GetVectorValue(int el, const IntegrationPoint& ip, Vector& v) const
{
	v.SetSize(fes->GetVDim());
	for (int c = 0; c < v.Size(); c++) { v(c) = GetValue(el, ip, c + 1); }
}
void GridFunction::GetNodalValues(int el, Array<double>& v, int vd) const
{
	const auto* ir = Geometries.GetVertices(fes->GetMesh()->GetElementGeometry(el));
	v.SetSize(ir->GetNPoints());
	for (int k = 0; k < v.Size(); k++) { v[k] = GetValue(el, ir->IntPoint(k), vd); }
}
double GridFunction::ComputeL2Error(Coefficient& c, const IntegrationRule**, const Array<int>*) const
{
	double s = 0;
	for (int e = 0; e < fes->GetNE(); e++) {
		ElementTransformation* T = fes->GetElementTransformation(e);
		const auto& ir = IntRules.Get(fes->GetFE(e)->GetGeomType(), 2 * fes->GetFE(e)->GetOrder() + 3);
		for (int k = 0; k < ir.GetNPoints(); k++) {
			T->SetIntPoint(&ir.IntPoint(k));
			const double d = GetValue(e, ir.IntPoint(k)) - c.Eval(*T, ir.IntPoint(k));
			s += ir.IntPoint(k).weight * std::abs(T->Weight()) * d * d;
		}
	}
	return std::sqrt(s);
}
double GridFunction::ComputeMaxError(Coefficient& c) const
{
	double s = 0;
	for (int e = 0; e < fes->GetNE(); e++) {
		ElementTransformation* T = fes->GetElementTransformation(e);
		const auto& ir = IntRules.Get(fes->GetFE(e)->GetGeomType(), 2 * fes->GetFE(e)->GetOrder() + 3);
		for (int k = 0; k < ir.GetNPoints(); k++) { T->SetIntPoint(&ir.IntPoint(k)); s = std::max(s, std::abs(GetValue(e, ir.IntPoint(k)) - c.Eval(*T, ir.IntPoint(k)))); }
	}
	return s;
}
void GridFunction::Save(std::ostream& os) const
{
	fes->Save(os);
	os << '\n';
	if (fes->GetOrdering() == Ordering::byNODES) { for (int i = 0; i < Size(); i++) { os << (*this)(i) << '\n'; } }
	else { for (int i = 0; i < Size(); i++) { os << (*this)(i) << ((i + 1) % fes->GetVDim() ? ' ' : '\n'); } }
	os.flush();
}
void GridFunction::Save(const char* f, int prec) const { std::ofstream o(f); o.precision(prec); Save(o); }

void ParGridFunction::ExchangeFaceNbrData()
{
	pfes->ExchangeFaceNbrData();
	const ParMesh* pm = pfes->GetParMesh();
	nbr.SetSize(pfes->GetFaceNbrVSize());
	if (pm->GetNRanks() == 1) { return; }
	const auto all = mpisim::publish(this);
	Array<int> d;
	for (int i = 0; i < pm->GetNFaceNbrElements(); i++) {
		const auto& n = pm->nbrElements()[i];
		const auto* g = static_cast<const ParGridFunction*>(all[n.rank]);
		g->pfes->GetElementDofs(n.index_in_rank, d);
		for (int k = 0; k < d.Size(); k++) { nbr(pfes->nbrStart()[i] + k) = (*g)(d[k]); }
	}
	mpisim::release();
}

// ---------------------------------------------------------------- integrators
const IntegrationRule& MassIntegrator::GetRule(const FiniteElement& a, const FiniteElement& b, ElementTransformation& T) { return IntRules.Get(a.GetGeomType(), a.GetOrder() + b.GetOrder() + T.OrderW()); }
void MassIntegrator::AssembleElementMatrix(const FiniteElement& el, ElementTransformation& T, DenseMatrix& m) { AssembleElementMatrix2(el, el, T, m); }
void MassIntegrator::AssembleElementMatrix2(const FiniteElement& a, const FiniteElement& b, ElementTransformation& T, DenseMatrix& m)
{
	const IntegrationRule* ir = IntRule ? IntRule : &GetRule(a, b, T);
	m.SetSize(b.GetDof(), a.GetDof());
	m = 0.0;
	Vector sa(a.GetDof()), sb(b.GetDof());
	for (int i = 0; i < ir->GetNPoints(); i++) {
		const auto& ip = ir->IntPoint(i);
		T.SetIntPoint(&ip);
		a.CalcShape(ip, sa);
		b.CalcShape(ip, sb);
		double w = T.Weight() * ip.weight;
		if (Q) { w *= Q->Eval(T, ip); }
		AddMult_a_VWt(w, sb, sa, m);
	}
}
void DerivativeIntegrator::AssembleElementMatrix2(const FiniteElement& trial, const FiniteElement& test, ElementTransformation& T, DenseMatrix& m)
{
	const int dim = trial.GetDim();
	const int order = trial.Space() == FunctionSpace::Pk ? trial.GetOrder() + test.GetOrder() - 1 : trial.GetOrder() + test.GetOrder() + dim - 1;
	const IntegrationRule* ir = IntRule ? IntRule : &IntRules.Get(trial.GetGeomType(), order);
	m.SetSize(test.GetDof(), trial.GetDof());
	m = 0.0;
	DenseMatrix ds(trial.GetDof(), dim), dx, inv;
	Vector s(test.GetDof()), d(trial.GetDof());
	for (int i = 0; i < ir->GetNPoints(); i++) {
		const auto& ip = ir->IntPoint(i);
		trial.CalcDShape(ip, ds);
		T.SetIntPoint(&ip);
		CalcInverse(T.Jacobian(), inv);
		const double det = T.Weight();
		Mult(ds, inv, dx);
		dx.GetColumn(xi, d);
		test.CalcShape(ip, s);
		s *= Q->Eval(T, ip) * det * ip.weight;
		AddMultVWt(s, d, m);
	}
}
void DGTraceIntegrator::AssembleFaceMatrix(const FiniteElement& e1, const FiniteElement& e2, FaceElementTransformations& T, DenseMatrix& m)
{
	const int n1 = e1.GetDof(), n2 = T.Elem2No >= 0 ? e2.GetDof() : 0, dim = e1.GetDim();
	m.SetSize(n1 + n2);
	m = 0.0;
	const IntegrationRule* ir = IntRule;
	if (!ir) {
		int order = T.Elem2No >= 0 ? std::min(T.Elem1->OrderW(), T.Elem2->OrderW()) + 2 * std::max(e1.GetOrder(), e2.GetOrder()) : T.Elem1->OrderW() + 2 * e1.GetOrder();
		if (e1.Space() == FunctionSpace::Pk) { order++; }
		ir = &IntRules.Get(T.GetGeometryType(), order);
	}
	Vector s1(n1), s2(n2), vu(dim), nor(dim);
	for (int p = 0; p < ir->GetNPoints(); p++) {
		const auto& ip = ir->IntPoint(p);
		T.SetAllIntPoints(&ip);
		const IntegrationPoint i1 = T.GetElement1IntPoint(), i2 = T.GetElement2IntPoint();
		e1.CalcShape(i1, s1);
		u->Eval(vu, *T.Elem1, i1);
		if (dim == 1) { nor(0) = 2 * i1.x - 1.0; }
		else { CalcOrtho(T.Jacobian(), nor); }
		const double un = vu * nor, a = 0.5 * alpha * un, b = beta * std::abs(un);
		double w = ip.weight * (a + b);
		if (w != 0.0) { for (int i = 0; i < n1; i++) { for (int j = 0; j < n1; j++) { m(i, j) += w * s1(i) * s1(j); } } }
		if (!n2) { continue; }
		e2.CalcShape(i2, s2);
		if (w != 0.0) { for (int i = 0; i < n2; i++) { for (int j = 0; j < n1; j++) { m(n1 + i, j) -= w * s2(i) * s1(j); } } }
		w = ip.weight * (b - a);
		if (w != 0.0) {
			for (int i = 0; i < n2; i++) { for (int j = 0; j < n2; j++) { m(n1 + i, n1 + j) += w * s2(i) * s2(j); } }
			for (int i = 0; i < n1; i++) { for (int j = 0; j < n2; j++) { m(i, n1 + j) -= w * s1(i) * s2(j); } }
		}
	}
}
void DomainLFIntegrator::AssembleRHSElementVect(const FiniteElement& el, ElementTransformation& T, Vector& v)
{
	v.SetSize(el.GetDof());
	v = 0.0;
	Vector s(el.GetDof());
	const IntegrationRule* ir = IntRule ? IntRule : &IntRules.Get(el.GetGeomType(), oa * el.GetOrder() + ob);
	for (int i = 0; i < ir->GetNPoints(); i++) {
		const auto& ip = ir->IntPoint(i);
		T.SetIntPoint(&ip);
		el.CalcShape(ip, s);
		v.Add(ip.weight * T.Weight() * Q.Eval(T, ip), s);
	}
}
void BoundaryNormalLFIntegrator::AssembleRHSElementVect(const FiniteElement& el, ElementTransformation& T, Vector& v)
{
	v.SetSize(el.GetDof());
	v = 0.0;
	Vector s(el.GetDof()), n(el.GetDim() + 1), q;
	const IntegrationRule* ir = IntRule ? IntRule : &IntRules.Get(el.GetGeomType(), oa * el.GetOrder() + ob);
	for (int i = 0; i < ir->GetNPoints(); i++) {
		const auto& ip = ir->IntPoint(i);
		T.SetIntPoint(&ip);
		CalcOrtho(T.Jacobian(), n);
		Q.Eval(q, T, ip);
		el.CalcShape(ip, s);
		v.Add(ip.weight * (q * n), s);
	}
}

// ---------------------------------------------------------------- forms
BilinearForm::BilinearForm(FiniteElementSpace* f) : Operator(f->GetVSize()), fes(f) {}
BilinearForm::~BilinearForm()
{
	std::set<BilinearFormIntegrator*> all;
	for (auto* l : { &dom_, &intf_, &bdrf_, &ibf_ }) { for (auto& t : *l) { all.insert(t.integ); } }
	for (auto* i : all) { delete i; }
	delete mat;
}
void BilinearForm::AddDomainIntegrator(BilinearFormIntegrator* b) { dom_.push_back({ b, nullptr }); }
void BilinearForm::AddDomainIntegrator(BilinearFormIntegrator* b, Array<int>& m) { dom_.push_back({ b, &m }); }
void BilinearForm::AddInteriorFaceIntegrator(BilinearFormIntegrator* b) { intf_.push_back({ b, nullptr }); }
void BilinearForm::AddInteriorFaceIntegrator(BilinearFormIntegrator* b, Array<int>& m) { intf_.push_back({ b, &m }); }
void BilinearForm::AddBdrFaceIntegrator(BilinearFormIntegrator* b) { bdrf_.push_back({ b, nullptr }); }
void BilinearForm::AddBdrFaceIntegrator(BilinearFormIntegrator* b, Array<int>& m) { bdrf_.push_back({ b, &m }); }
void BilinearForm::AddInternalBoundaryFaceIntegrator(BilinearFormIntegrator* b) { ibf_.push_back({ b, nullptr }); }
void BilinearForm::AddInternalBoundaryFaceIntegrator(BilinearFormIntegrator* b, Array<int>& m) { ibf_.push_back({ b, &m }); }
void BilinearForm::AllocMat() { mat = new SparseMatrix(height, width); }

static bool marked(const Array<int>* m, int attr) { return !m || (*m)[attr - 1] != 0; }

void BilinearForm::Assemble(int skip)
{
	if (!mat) { AllocMat(); }
	Mesh* mesh = fes->GetMesh();
	Array<int> d1, d2;
	DenseMatrix em;
	for (auto& t : dom_) {
		for (int e = 0; e < fes->GetNE(); e++) {
			if (!marked(t.marker, fes->GetAttribute(e))) { continue; }
			fes->GetElementVDofs(e, d1);
			t.integ->AssembleElementMatrix(*fes->GetFE(e), *fes->GetElementTransformation(e), em);
			mat->AddSubMatrix(d1, d1, em, skip);
		}
	}
	if (!intf_.empty()) {
		const Array<int> f2b = mesh->GetFaceToBdrElMap();
		for (int f = 0; f < mesh->GetNumFaces(); f++) {
			for (auto& t : intf_) {
				if (t.marker && f2b[f] >= 0 && marked(t.marker, mesh->GetBdrAttribute(f2b[f]))) { continue; }
				auto* T = mesh->GetInteriorFaceTransformations(f);
				if (!T) { continue; }
				fes->GetElementVDofs(T->Elem1No, d1);
				fes->GetElementVDofs(T->Elem2No, d2);
				d1.Append(d2);
				t.integ->AssembleFaceMatrix(*fes->GetFE(T->Elem1No), *fes->GetFE(T->Elem2No), *T, em);
				mat->AddSubMatrix(d1, d1, em, skip);
			}
		}
	}
	for (int b = 0; b < fes->GetNBE(); b++) {
		for (auto& t : bdrf_) {
			if (!marked(t.marker, mesh->GetBdrAttribute(b))) { continue; }
			auto* T = mesh->GetBdrFaceTransformations(b);
			if (!T) { continue; }
			fes->GetElementVDofs(T->Elem1No, d1);
			t.integ->AssembleFaceMatrix(*fes->GetFE(T->Elem1No), *fes->GetFE(T->Elem1No), *T, em);
			mat->AddSubMatrix(d1, d1, em, skip);
		}
	}
	for (int b = 0; b < fes->GetNBE(); b++) {
		for (auto& t : ibf_) {
			if (!marked(t.marker, mesh->GetBdrAttribute(b))) { continue; }
			auto* T = mesh->GetInternalBdrFaceTransformations(b);
			if (!T) { continue; }
			fes->GetElementVDofs(T->Elem1No, d1);
			fes->GetElementVDofs(T->Elem2No, d2);
			d1.Append(d2);
			t.integ->AssembleFaceMatrix(*fes->GetFE(T->Elem1No), *fes->GetFE(T->Elem2No), *T, em);
			mat->AddSubMatrix(d1, d1, em, skip);
		}
	}
	if (!intf_.empty()) { assembleSharedFaces(skip); }
}

void ParBilinearForm::AllocMat()
{
	if (intf_.empty()) { BilinearForm::AllocMat(); return; }
	pfes->ExchangeFaceNbrData();
	const int n = pfes->GetFaceNbrVSize();
	mat = keep_nbr_block ? new SparseMatrix(height + n, width + n) : new SparseMatrix(height, width + n);
}
void ParBilinearForm::assembleSharedFaces(int skip)
{
	ParMesh* pm = pfes->GetParMesh();
	Array<int> d1, d2, all;
	DenseMatrix em;
	for (int s = 0; s < pm->GetNSharedFaces(); s++) {
		for (auto& t : intf_) {
			auto* T = pm->GetSharedFaceTransformations(s);
			const int nb = T->Elem2No - pm->GetNE();
			pfes->GetElementVDofs(T->Elem1No, d1);
			pfes->GetFaceNbrElementVDofs(nb, d2);
			all = d1;
			for (int k : d2) { all.Append(height + k); }
			t.integ->AssembleFaceMatrix(*pfes->GetFE(T->Elem1No), *pfes->GetFaceNbrFE(nb), *T, em);
			mat->AddSubMatrix(keep_nbr_block ? all : d1, all, em, skip);
		}
	}
}

LinearForm::~LinearForm()
{
	for (auto* l : { &dom_, &bdrf_, &intf_ }) { for (auto& t : *l) { delete t.integ; } }
}
void LinearForm::Assemble()
{
	Vector::operator=(0.0);
	Mesh* mesh = fes->GetMesh();
	Array<int> d, d2;
	Vector v;
	for (auto& t : dom_) {
		for (int e = 0; e < fes->GetNE(); e++) {
			fes->GetElementVDofs(e, d);
			t.integ->AssembleRHSElementVect(*fes->GetFE(e), *fes->GetElementTransformation(e), v);
			AddElementVector(d, v);
		}
	}
	for (int b = 0; b < fes->GetNBE(); b++) {
		for (auto& t : bdrf_) {
			if (!marked(t.marker, mesh->GetBdrAttribute(b))) { continue; }
			auto* T = mesh->GetBdrFaceTransformations(b);
			if (!T) { continue; }
			fes->GetElementVDofs(T->Elem1No, d);
			t.integ->AssembleRHSElementVect(*fes->GetFE(T->Elem1No), *T, v);
			AddElementVector(d, v);
		}
	}
	for (int f = 0; f < mesh->GetNumFaces(); f++) {
		for (auto& t : intf_) {
			auto* T = mesh->GetInteriorFaceTransformations(f);
			if (!T) { continue; }
			fes->GetElementVDofs(T->Elem1No, d);
			fes->GetElementVDofs(T->Elem2No, d2);
			d.Append(d2);
			t.integ->AssembleRHSElementVect(*fes->GetFE(T->Elem1No), *fes->GetFE(T->Elem2No), *T, v);
			AddElementVector(d, v);
		}
	}
}

} // namespace mfem
