#include <sys/stat.h>
// Mesh topology, geometry, readers, sub-meshes and partitioned meshes.
#include "mfem.hpp"
#include "mpi_sim.hpp"

namespace mfem {

namespace {
// vertex order -> lexicographic (order-1 node) order
const int* lex1(Geometry::Type g)
{
	static const int id[8] = { 0,1,2,3,4,5,6,7 }, q[4] = { 0,1,3,2 }, h[8] = { 0,1,3,2,4,5,7,6 };
	return g == Geometry::SQUARE ? q : g == Geometry::CUBE ? h : id;
}
int nLocalFaces(Geometry::Type g) { return g == Geometry::SEGMENT ? 2 : Geometry::Dimension[g] == 2 ? Geometry::NumEdges[g] : Geometry::NumFaces[g]; }
Geometry::Type faceGeom(Geometry::Type g)
{
	switch (g) {
	case Geometry::SEGMENT: return Geometry::POINT;
	case Geometry::TRIANGLE: case Geometry::SQUARE: return Geometry::SEGMENT;
	case Geometry::TETRAHEDRON: return Geometry::TRIANGLE;
	case Geometry::CUBE: return Geometry::SQUARE;
	default: mfem_error("face geometry");
	}
}
Element localFace(const Element& e, int f)
{
	const auto g = e.GetGeometryType();
	int v[4];
	const int d = Geometry::Dimension[g];
	if (d == 1) { v[0] = e.v[f]; }
	else if (d == 2) { const int* l = e.GetEdgeVertices(f); v[0] = e.v[l[0]]; v[1] = e.v[l[1]]; }
	else { const int* l = e.GetFaceVertices(f); for (int k = 0; k < e.GetNFaceVertices(f); k++) { v[k] = e.v[l[k]]; } }
	return Element(faceGeom(g), v, 1);
}
std::vector<int> key(std::vector<int> v) { std::sort(v.begin(), v.end()); return v; }

int orientation(const Element& base, const Element& test)
{
	const auto& b = base.v;
	const auto& t = test.v;
	switch (base.GetGeometryType()) {
	case Geometry::POINT: return 0;
	case Geometry::SEGMENT: return b[0] == t[0] ? 0 : 1;
	case Geometry::TRIANGLE:
		if (t[0] == b[0]) { return t[1] == b[1] ? 0 : 5; }
		if (t[0] == b[1]) { return t[1] == b[2] ? 2 : 1; }
		return t[1] == b[0] ? 4 : 3;
	case Geometry::SQUARE: {
		int i = 0;
		while (i < 4 && t[i] != b[0]) { i++; }
		return t[(i + 1) % 4] == b[1] ? 2 * i : 2 * i + 1;
	}
	default: mfem_error("orientation");
	}
}
}

// ---------------------------------------------------------------- construction
Mesh::Mesh(int dim, int nv, int ne, int nbe, int sdim) : Dim(dim), spaceDim(sdim < 0 ? dim : sdim)
{
	vertices.reserve(nv);
	elements.reserve(ne);
	boundary.reserve(nbe);
}
Mesh::Mesh(const Mesh& o, bool) { copyFrom(o); }
Mesh::Mesh(Mesh&& o) { copyFrom(o); }
Mesh::Mesh(const std::string& f, int, int refine, bool fix) { loadFile(f, fix, true, refine); }
Mesh::Mesh(std::istream& in, int, int, bool fix) { loadStream(in, fix, true); }
Mesh& Mesh::operator=(const Mesh& o) { if (this != &o) { copyFrom(o); } return *this; }
Mesh& Mesh::operator=(Mesh&& o) { if (this != &o) { copyFrom(o); } return *this; }
Mesh::~Mesh() = default;
void Mesh::copyFrom(const Mesh& o)
{
	attributes = o.attributes;
	bdr_attributes = o.bdr_attributes;
	Dim = o.Dim;
	spaceDim = o.spaceDim;
	vertices = o.vertices;
	elements = o.elements;
	boundary = o.boundary;
	faces = o.faces;
	faces_info = o.faces_info;
	be_to_face = o.be_to_face;
	edge_verts = o.edge_verts;
	el_to_edge = o.el_to_edge;
	el_to_face = o.el_to_face;
	geom_order = o.geom_order;
	geom_nodes = o.geom_nodes;
	el_to_el_built = false;
	rebuildNodes();
}

int Mesh::AddVertex(double x, double y, double z) { vertices.push_back({ x, y, z }); return GetNV() - 1; }
int Mesh::AddVertex(const double* c) { return AddVertex(c[0], spaceDim > 1 ? c[1] : 0.0, spaceDim > 2 ? c[2] : 0.0); }
int Mesh::AddSegment(int a, int b, int attr) { int v[] = { a,b }; elements.emplace_back(Geometry::SEGMENT, v, attr); return GetNE() - 1; }
int Mesh::AddTriangle(int a, int b, int c, int attr) { int v[] = { a,b,c }; elements.emplace_back(Geometry::TRIANGLE, v, attr); return GetNE() - 1; }
int Mesh::AddQuad(int a, int b, int c, int d, int attr) { int v[] = { a,b,c,d }; elements.emplace_back(Geometry::SQUARE, v, attr); return GetNE() - 1; }
int Mesh::AddTet(int a, int b, int c, int d, int attr) { int v[] = { a,b,c,d }; elements.emplace_back(Geometry::TETRAHEDRON, v, attr); return GetNE() - 1; }
int Mesh::AddHex(const int* v, int attr) { elements.emplace_back(Geometry::CUBE, v, attr); return GetNE() - 1; }
int Mesh::AddBdrPoint(int v, int attr) { boundary.emplace_back(Geometry::POINT, &v, attr); return GetNBE() - 1; }
int Mesh::AddBdrSegment(int a, int b, int attr) { int v[] = { a,b }; boundary.emplace_back(Geometry::SEGMENT, v, attr); return GetNBE() - 1; }
int Mesh::AddBdrTriangle(int a, int b, int c, int attr) { int v[] = { a,b,c }; boundary.emplace_back(Geometry::TRIANGLE, v, attr); return GetNBE() - 1; }
int Mesh::AddBdrQuad(int a, int b, int c, int d, int attr) { int v[] = { a,b,c,d }; boundary.emplace_back(Geometry::SQUARE, v, attr); return GetNBE() - 1; }
int Mesh::AddElement(Element* e) { elements.push_back(*e); delete e; return GetNE() - 1; }
int Mesh::AddBdrElement(Element* e) { boundary.push_back(*e); delete e; return GetNBE() - 1; }

// ---------------------------------------------------------------- topology
void Mesh::buildTopology()
{
	faces.clear();
	faces_info.clear();
	be_to_face.clear();
	edge_verts.clear();
	el_to_edge.assign(elements.size(), {});
	el_to_face.assign(elements.size(), {});
	el_to_el_built = false;
	for (auto& e : elements) { for (int v : e.v) { shimCheck("element vertex", v, GetNV()); } }

	if (Dim > 1) {
		std::map<std::array<int, 2>, int> em;
		for (size_t i = 0; i < elements.size(); i++) {
			const auto& e = elements[i];
			for (int k = 0; k < Geometry::NumEdges[e.GetGeometryType()]; k++) {
				const int* l = e.GetEdgeVertices(k);
				std::array<int, 2> ev{ std::min(e.v[l[0]], e.v[l[1]]), std::max(e.v[l[0]], e.v[l[1]]) };
				auto it = em.emplace(ev, int(edge_verts.size()));
				if (it.second) { edge_verts.push_back(ev); }
				el_to_edge[i].push_back(it.first->second);
			}
		}
	}

	std::map<std::vector<int>, int> fm;
	if (Dim == 1) {
		faces.resize(vertices.size());
		faces_info.resize(vertices.size());
		for (int v = 0; v < GetNV(); v++) { fm[{ v }] = v; }
	}
	for (int i = 0; i < GetNE(); i++) {
		const auto& e = elements[i];
		for (int k = 0; k < nLocalFaces(e.GetGeometryType()); k++) {
			Element lf = localFace(e, k);
			auto it = fm.emplace(key(lf.v), int(faces.size()));
			const int f = it.first->second;
			if (it.second) { faces.emplace_back(); faces_info.emplace_back(); }
			auto& fi = faces_info[f];
			el_to_face[i].push_back(f);
			if (fi.Elem1No < 0) {
				fi.Elem1No = i;
				fi.Elem1Inf = 64 * k;
				faces[f] = lf;
			}
			else if (fi.Elem2No < 0) {
				fi.Elem2No = i;
				fi.Elem2Inf = 64 * k + orientation(faces[f], lf);
			}
			else { mfem_error("face shared by more than two elements"); }
		}
	}
	for (auto& b : boundary) {
		auto it = fm.find(key(b.v));
		if (it == fm.end()) { mfem_error("boundary element does not match any face"); }
		be_to_face.push_back(it->second);
	}
}
void Mesh::GenerateBoundaryElements()
{
	boundary.clear();
	be_to_face.clear();
	for (size_t f = 0; f < faces.size(); f++) {
		if (faces_info[f].Elem1No >= 0 && faces_info[f].Elem2No < 0) {
			boundary.push_back(faces[f]);
			boundary.back().SetAttribute(1);
			be_to_face.push_back(int(f));
		}
	}
}
void Mesh::SetAttributes()
{
	std::set<int> a, b;
	for (auto& e : elements) { a.insert(e.GetAttribute()); }
	for (auto& e : boundary) { b.insert(e.GetAttribute()); }
	attributes.SetSize(0);
	bdr_attributes.SetSize(0);
	for (int x : a) { attributes.Append(x); }
	for (int x : b) { bdr_attributes.Append(x); }
}
void Mesh::FinalizeTopology(bool gen)
{
	buildTopology();
	if (boundary.empty() && gen) { GenerateBoundaryElements(); }
	SetAttributes();
}
// Puts the longest edge first, as adaptive bisection wants it.
void Mesh::markForRefinement()
{
	auto len = [&](int a, int b) { double r = 0; for (int d = 0; d < 3; d++) { const double x = vertices[a][d] - vertices[b][d]; r += x * x; } return r; };
	std::map<std::pair<int, int>, int> rank;
	if (Dim == 3) {
		std::vector<std::pair<double, int>> l;
		for (size_t i = 0; i < edge_verts.size(); i++) { l.push_back({ len(edge_verts[i][0], edge_verts[i][1]), int(i) }); }
		std::stable_sort(l.begin(), l.end(), [](const auto& a, const auto& b) { return a.first < b.first; });
		for (size_t i = 0; i < l.size(); i++) {
			const auto& e = edge_verts[l[i].second];
			rank[{ std::min(e[0], e[1]), std::max(e[0], e[1]) }] = int(i);
		}
	}
	auto rk = [&](int a, int b) { return rank.at({ std::min(a, b), std::max(a, b) }); };
	auto tri = [&](std::vector<int>& v, auto& L) {
		const auto d0 = L(v[0], v[1]), d1 = L(v[1], v[2]), d2 = L(v[2], v[0]);
		const int shift = d0 >= d1 ? (d0 >= d2 ? 0 : 2) : (d1 >= d2 ? 1 : 2);
		std::rotate(v.begin(), v.begin() + shift, v.end());
	};
	for (auto& e : elements) {
		if (e.GetGeometryType() == Geometry::TRIANGLE) { if (Dim == 2) { tri(e.v, len); } else { tri(e.v, rk); } }
		if (e.GetGeometryType() == Geometry::TETRAHEDRON) {
			static const int E[6][2] = { {0,1},{1,2},{2,0},{0,3},{1,3},{2,3} };
			static const int P[6][4] = { {0,1,2,3},{1,2,0,3},{2,0,1,3},{3,0,2,1},{1,3,2,0},{2,3,0,1} };
			int j = 0;
			for (int k = 1; k < 6; k++) { if (rk(e.v[E[k][0]], e.v[E[k][1]]) > rk(e.v[E[j][0]], e.v[E[j][1]])) { j = k; } }
			const auto o = e.v;
			for (int k = 0; k < 4; k++) { e.v[k] = o[P[j][k]]; }
		}
	}
	if (Dim == 3) { for (auto& b : boundary) { if (b.GetGeometryType() == Geometry::TRIANGLE) { tri(b.v, rk); } } }
}
void Mesh::Finalize(bool refine, bool fix)
{
	if (CheckElementOrientation(fix) && fix) { buildTopology(); }
	if (refine && Dim >= 2 && !geom_order) { markForRefinement(); buildTopology(); }
	CheckBdrElementOrientation(true);
	rebuildNodes();
}
void Mesh::FinalizeMesh(int refine, bool fix) { FinalizeTopology(); Finalize(refine != 0, fix); }
int Mesh::CheckElementOrientation(bool fix)
{
	if (Dim != spaceDim || Dim < 2) { return 0; }
	int wrong = 0;
	for (int i = 0; i < GetNE(); i++) {
		auto& e = elements[i];
		IsoparametricTransformation T;
		GetElementTransformation(i, &T);
		T.SetIntPoint(&Geometries.GetCenter(e.GetGeometryType()));
		if (T.Jacobian().Det() >= 0) { continue; }
		wrong++;
		if (!fix || geom_order) { continue; }
		if (e.GetGeometryType() == Geometry::TRIANGLE || e.GetGeometryType() == Geometry::TETRAHEDRON) { std::swap(e.v[0], e.v[1]); }
		else if (e.GetGeometryType() == Geometry::SQUARE) { std::swap(e.v[1], e.v[3]); }
	}
	return wrong;
}
int Mesh::CheckBdrElementOrientation(bool fix)
{
	int wrong = 0;
	for (int b = 0; b < GetNBE(); b++) {
		const int f = be_to_face[b];
		if (faces_info[f].Elem2No >= 0 || Dim == 1) { continue; }
		if (orientation(faces[f], boundary[b]) % 2 == 0) { continue; }
		wrong++;
		if (!fix) { continue; }
		auto& v = boundary[b].v;
		if (boundary[b].GetGeometryType() == Geometry::SQUARE) { std::swap(v[0], v[2]); }
		else { std::swap(v[0], v[1]); }
	}
	return wrong;
}

void Mesh::GetEdgeVertices(int i, Array<int>& v) const
{
	if (Dim == 1) { v.SetSize(1); v[0] = i; return; }
	shimCheck("edge", i, int(edge_verts.size()));
	v.SetSize(2);
	v[0] = edge_verts[i][0];
	v[1] = edge_verts[i][1];
}
void Mesh::GetFaceVertices(int i, Array<int>& v) const
{
	if (Dim == 1) { v.SetSize(1); v[0] = i; return; }
	if (Dim == 2) { GetEdgeVertices(i, v); return; }
	GetFace(i)->GetVertices(v);
}
void Mesh::GetElementEdges(int i, Array<int>& e, Array<int>& o) const
{
	shimCheck("element", i, GetNE());
	e.SetSize(0);
	o.SetSize(0);
	for (size_t k = 0; k < el_to_edge[i].size(); k++) {
		e.Append(el_to_edge[i][k]);
		const int* l = elements[i].GetEdgeVertices(int(k));
		o.Append(elements[i].v[l[0]] < elements[i].v[l[1]] ? 1 : -1);
	}
}
void Mesh::GetElementFaces(int i, Array<int>& f, Array<int>& o) const
{
	shimCheck("element", i, GetNE());
	f.SetSize(0);
	o.SetSize(0);
	for (int x : el_to_face[i]) {
		f.Append(x);
		o.Append(faces_info[x].Elem1No == i ? faces_info[x].Elem1Inf % 64 : faces_info[x].Elem2Inf % 64);
	}
}
Array<int> Mesh::GetElementFaceIndices(int i) const { Array<int> f, o; GetElementFaces(i, f, o); return f; }
void Mesh::GetBdrElementFace(int be, int* f, int* o) const
{
	*f = GetBdrElementFaceIndex(be);
	*o = orientation(faces[*f], boundary[be]);
}
void Mesh::GetBdrElementAdjacentElement(int be, int& el, int& info) const
{
	const auto& fi = faces_info[GetBdrElementFaceIndex(be)];
	el = fi.Elem1No;
	info = fi.Elem1Inf;
}
void Mesh::GetFaceElements(int f, int* a, int* b) const { shimCheck("face", f, GetNumFaces()); *a = faces_info[f].Elem1No; *b = faces_info[f].Elem2No; }
void Mesh::GetFaceInfos(int f, int* a, int* b) const { shimCheck("face", f, GetNumFaces()); *a = faces_info[f].Elem1Inf; *b = faces_info[f].Elem2Inf; }
Array<int> Mesh::GetFaceToBdrElMap() const
{
	Array<int> m(GetNumFaces());
	m = -1;
	for (int b = 0; b < GetNBE(); b++) { m[be_to_face[b]] = b; }
	return m;
}
bool Mesh::FaceIsInterior(int f) const { shimCheck("face", f, GetNumFaces()); return faces_info[f].Elem2No >= 0; }
Mesh::FaceInformation Mesh::GetFaceInformation(int f) const
{
	shimCheck("face", f, GetNumFaces());
	const auto& fi = faces_info[f];
	FaceInformation r;
	r.element[0].location = ElementLocation::Local;
	r.element[0].conformity = ElementConformity::Coincident;
	r.element[0].index = fi.Elem1No;
	r.element[0].local_face_id = fi.Elem1Inf / 64;
	r.element[0].orientation = fi.Elem1Inf % 64;
	if (fi.Elem2No >= 0) {
		r.topology = FaceTopology::Conforming;
		r.tag = FaceInfoTag::LocalConforming;
		r.element[1].location = ElementLocation::Local;
		r.element[1].index = fi.Elem2No;
	}
	else if (fi.Elem2Inf >= 0) {
		r.topology = FaceTopology::Conforming;
		r.tag = FaceInfoTag::SharedConforming;
		r.element[1].location = ElementLocation::FaceNbr;
		r.element[1].index = -1 - fi.Elem2No;
	}
	else {
		r.topology = FaceTopology::Boundary;
		r.tag = FaceInfoTag::Boundary;
		return r;
	}
	r.element[1].conformity = ElementConformity::Coincident;
	r.element[1].local_face_id = fi.Elem2Inf / 64;
	r.element[1].orientation = fi.Elem2Inf % 64;
	return r;
}
Table Mesh::ElementToEdgeTable() const
{
	Table t;
	for (auto& r : el_to_edge) { Array<int> a; for (int x : r) { a.Append(x); } t.rows_.push_back(a); }
	return t;
}
Table Mesh::ElementToFaceTable() const
{
	Table t;
	for (auto& r : el_to_face) { Array<int> a; for (int x : r) { a.Append(x); } t.rows_.push_back(a); }
	return t;
}
const Table& Mesh::ElementToElementTable()
{
	if (!el_to_el_built) {
		el_to_el.rows_.assign(elements.size(), Array<int>());
		for (auto& f : faces_info) {
			if (f.Elem2No >= 0) { el_to_el.rows_[f.Elem1No].Append(f.Elem2No); el_to_el.rows_[f.Elem2No].Append(f.Elem1No); }
		}
		for (auto& r : el_to_el.rows_) { r.Sort(); }
		el_to_el_built = true;
	}
	return el_to_el;
}
Table* Mesh::GetVertexToElementTable()
{
	auto* t = new Table;
	t->rows_.assign(vertices.size(), Array<int>());
	for (int i = 0; i < GetNE(); i++) { for (int v : elements[i].v) { t->rows_[v].Append(i); } }
	return t;
}

// ---------------------------------------------------------------- geometry
void Mesh::elementPointMat(int i, DenseMatrix& pm, const FiniteElement*& fe) const
{
	shimCheck("element", i, GetNE());
	const auto& e = elements[i];
	const auto g = e.GetGeometryType();
	fe = shimGetFE(g, geom_order ? geom_order : 1, BasisType::GaussLobatto);
	if (geom_order) { pm = geom_nodes.at(i); return; }
	pm.SetSize(spaceDim, e.GetNVertices());
	const int* p = lex1(g);
	for (int k = 0; k < e.GetNVertices(); k++) { for (int d = 0; d < spaceDim; d++) { pm(d, k) = vertices[e.v[p[k]]][d]; } }
}
void Mesh::GetElementTransformation(int i, IsoparametricTransformation* T) const
{
	DenseMatrix pm;
	const FiniteElement* fe;
	elementPointMat(i, pm, fe);
	T->SetFE(fe);
	T->SetPointMat(pm);
	T->Attribute = GetAttribute(i);
	T->ElementNo = i;
	T->ElementType = ElementTransformation::ELEMENT;
	T->mesh = this;
	T->Reset();
}
ElementTransformation* Mesh::GetElementTransformation(int i) { GetElementTransformation(i, &Transformation); return &Transformation; }

void Mesh::buildLoc(int el, const Element& face, IntegrationPointTransformation& loc) const
{
	const auto& e = elements.at(el);
	const auto* rv = Geometries.GetVertices(e.GetGeometryType());
	const auto g = face.GetGeometryType();
	loc.Transf.SetFE(shimGetFE(g, 1, BasisType::GaussLobatto));
	DenseMatrix pm(Geometry::Dimension[e.GetGeometryType()], face.GetNVertices());
	const int* p = lex1(g);
	for (int k = 0; k < face.GetNVertices(); k++) {
		const int gv = face.v[p[k]];
		int l = -1;
		for (int m = 0; m < e.GetNVertices(); m++) { if (e.v[m] == gv) { l = m; } }
		if (l < 0) { mfem_error("face vertex not in element"); }
		double c[3];
		rv->IntPoint(l).Get(c, 3);
		for (int d = 0; d < pm.Height(); d++) { pm(d, k) = c[d]; }
	}
	loc.Transf.SetPointMat(pm);
}
namespace {
void straightFace(const std::vector<std::array<double, 3>>& V, int sd, const Element& f, IsoparametricTransformation* T)
{
	const auto g = f.GetGeometryType();
	T->SetFE(shimGetFE(g, 1, BasisType::GaussLobatto));
	DenseMatrix pm(sd, f.GetNVertices());
	const int* p = lex1(g);
	for (int k = 0; k < f.GetNVertices(); k++) { for (int d = 0; d < sd; d++) { pm(d, k) = V[f.v[p[k]]][d]; } }
	T->SetPointMat(pm);
	T->Reset();
}
void curvedFace(IsoparametricTransformation& elT, IntegrationPointTransformation& loc, Geometry::Type g, int order, int sd, IsoparametricTransformation* T)
{
	const auto* fe = shimGetFE(g, order, BasisType::GaussLobatto);
	T->SetFE(fe);
	DenseMatrix pm(sd, fe->GetDof());
	Vector x;
	for (int k = 0; k < fe->GetDof(); k++) {
		IntegrationPoint ip;
		loc.Transform(fe->GetNodes().IntPoint(k), ip);
		elT.Transform(ip, x);
		pm.SetCol(k, x);
	}
	T->SetPointMat(pm);
	T->Reset();
}
}
void Mesh::fillFaceTransformation(int f, IsoparametricTransformation* T) const
{
	shimCheck("face", f, GetNumFaces());
	if (!geom_order || Dim == 1) { straightFace(vertices, spaceDim, faces[f], T); }
	else {
		IsoparametricTransformation el;
		IntegrationPointTransformation loc;
		GetElementTransformation(faces_info[f].Elem1No, &el);
		buildLoc(faces_info[f].Elem1No, faces[f], loc);
		curvedFace(el, loc, faces[f].GetGeometryType(), geom_order, spaceDim, T);
	}
	T->ElementNo = f;
	T->ElementType = ElementTransformation::FACE;
	T->Attribute = Dim == 1 ? 1 : faces[f].GetAttribute();
	T->mesh = this;
}
void Mesh::GetFaceTransformation(int f, IsoparametricTransformation* T) const { fillFaceTransformation(f, T); }
ElementTransformation* Mesh::GetFaceTransformation(int f) { fillFaceTransformation(f, &FaceTransformation); return &FaceTransformation; }
ElementTransformation* Mesh::GetEdgeTransformation(int e)
{
	if (Dim == 2) { fillFaceTransformation(e, &EdgeTransformation); return &EdgeTransformation; }
	shimCheck("edge", e, int(edge_verts.size()));
	Element s(Geometry::SEGMENT, edge_verts[e].data(), 1);
	straightFace(vertices, spaceDim, s, &EdgeTransformation);
	EdgeTransformation.ElementNo = e;
	return &EdgeTransformation;
}
void Mesh::GetBdrElementTransformation(int b, IsoparametricTransformation* T) const
{
	shimCheck("boundary element", b, GetNBE());
	const auto& be = boundary[b];
	if (!geom_order || Dim == 1) { straightFace(vertices, spaceDim, be, T); }
	else {
		const int e1 = faces_info[be_to_face[b]].Elem1No;
		IsoparametricTransformation el;
		IntegrationPointTransformation loc;
		GetElementTransformation(e1, &el);
		buildLoc(e1, be, loc);
		curvedFace(el, loc, be.GetGeometryType(), geom_order, spaceDim, T);
	}
	T->Attribute = be.GetAttribute();
	T->ElementNo = b;
	T->ElementType = ElementTransformation::BDR_ELEMENT;
	T->mesh = this;
}
ElementTransformation* Mesh::GetBdrElementTransformation(int b) { GetBdrElementTransformation(b, &BdrTransformation); return &BdrTransformation; }

FaceElementTransformations* Mesh::GetFaceElementTransformations(int f, int mask)
{
	shimCheck("face", f, GetNumFaces());
	const auto& fi = faces_info[f];
	auto& T = FaceElemTr;
	T.Elem1No = fi.Elem1No;
	T.Elem2No = -1;
	T.Elem1 = T.Elem2 = nullptr;
	T.FaceGeom = faces[f].GetGeometryType();
	int m = 0;
	if (mask & FaceElementTransformations::HAVE_ELEM1) { GetElementTransformation(fi.Elem1No, &Transformation); T.Elem1 = &Transformation; m |= 1; }
	if (fi.Elem2No >= 0) {
		T.Elem2No = fi.Elem2No;
		if (mask & FaceElementTransformations::HAVE_ELEM2) { GetElementTransformation(fi.Elem2No, &Transformation2); T.Elem2 = &Transformation2; m |= 2; }
	}
	if (mask & FaceElementTransformations::HAVE_LOC1) { buildLoc(fi.Elem1No, faces[f], T.Loc1); m |= 4; }
	if ((mask & FaceElementTransformations::HAVE_LOC2) && fi.Elem2No >= 0) { buildLoc(fi.Elem2No, faces[f], T.Loc2); m |= 8; }
	if (mask & FaceElementTransformations::HAVE_FACE) { fillFaceTransformation(f, &T); m |= 16; }
	T.ElementNo = f;
	T.SetConfigurationMask(m);
	return &T;
}
FaceElementTransformations* Mesh::GetInteriorFaceTransformations(int f)
{
	shimCheck("face", f, GetNumFaces());
	return faces_info[f].Elem2No < 0 ? nullptr : GetFaceElementTransformations(f);
}
FaceElementTransformations* Mesh::GetBdrFaceTransformations(int b)
{
	const int f = GetBdrElementFaceIndex(b);
	if (faces_info[f].Elem2No >= 0 || faces_info[f].Elem2Inf >= 0) { return nullptr; }
	auto* T = GetFaceElementTransformations(f, 21);
	T->Attribute = boundary[b].GetAttribute();
	T->ElementNo = b;
	T->ElementType = ElementTransformation::BDR_FACE;
	return T;
}
FaceElementTransformations* Mesh::GetInternalBdrFaceTransformations(int b)
{
	const int f = GetBdrElementFaceIndex(b);
	if (faces_info[f].Elem2No < 0 && !(sharedInternalBoundaries && faces_info[f].Elem2Inf >= 0)) { return nullptr; }
	auto* T = GetFaceElementTransformations(f);
	T->Attribute = boundary[b].GetAttribute();
	T->ElementNo = b;
	T->ElementType = ElementTransformation::BDR_FACE;
	return T;
}
void Mesh::GetElementCenter(int i, Vector& c)
{
	IsoparametricTransformation T;
	GetElementTransformation(i, &T);
	T.Transform(Geometries.GetCenter(GetElementGeometry(i)), c);
}
double Mesh::GetElementSize(int i, int type)
{
	IsoparametricTransformation T;
	GetElementTransformation(i, &T);
	const auto g = GetElementGeometry(i);
	T.SetIntPoint(&Geometries.GetCenter(g));
	DenseMatrix perf(Dim), J;
	for (int d = 0; d < Dim; d++) { perf(d, d) = 1; }
	if (g == Geometry::TRIANGLE) { perf(0, 1) = 0.5; perf(1, 1) = std::sqrt(3.) / 2; }
	if (g == Geometry::TETRAHEDRON) {
		perf(0, 1) = 0.5; perf(1, 1) = std::sqrt(3.) / 2;
		perf(0, 2) = 0.5; perf(1, 2) = std::sqrt(3.) / 6; perf(2, 2) = std::sqrt(2. / 3);
	}
	perf.Invert();
	Mult(T.Jacobian(), perf, J);
	if (type == 0) { return std::pow(std::abs(J.Weight()), 1. / Dim); }
	return type == 1 ? J.CalcSingularvalue(Dim - 1) : J.CalcSingularvalue(0);
}
double Mesh::GetElementVolume(int i)
{
	IsoparametricTransformation T;
	GetElementTransformation(i, &T);
	const auto& ir = IntRules.Get(GetElementGeometry(i), T.OrderW());
	double v = 0;
	for (int k = 0; k < ir.GetNPoints(); k++) { T.SetIntPoint(&ir.IntPoint(k)); v += ir.IntPoint(k).weight * T.Weight(); }
	return v;
}
void Mesh::GetBoundingBox(Vector& mn, Vector& mx, int)
{
	mn.SetSize(spaceDim);
	mx.SetSize(spaceDim);
	mn = std::numeric_limits<double>::max();
	mx = -std::numeric_limits<double>::max();
	for (auto& v : vertices) { for (int d = 0; d < spaceDim; d++) { mn(d) = std::min(mn(d), v[d]); mx(d) = std::max(mx(d), v[d]); } }
	for (auto& pm : geom_nodes) { for (int k = 0; k < pm.Width(); k++) { for (int d = 0; d < spaceDim; d++) { mn(d) = std::min(mn(d), pm(d, k)); mx(d) = std::max(mx(d), pm(d, k)); } } }
}
int Mesh::FindPoints(DenseMatrix& pts, Array<int>& ids, Array<IntegrationPoint>& ips, bool, void*)
{
	const int n = pts.Width();
	if (pts.Height() != spaceDim) { throw ShimIndexError("FindPoints coordinates", pts.Height(), spaceDim); }
	ids.SetSize(n);
	ips.SetSize(n);
	ids = -1;
	int found = 0;
	for (int k = 0; k < n; k++) {
		Vector p(spaceDim);
		for (int d = 0; d < spaceDim; d++) { p(d) = pts(d, k); }
		std::vector<std::pair<double, int>> order;
		for (int e = 0; e < GetNE(); e++) { Vector c; GetElementCenter(e, c); order.push_back({ c.DistanceTo(p), e }); }
		std::sort(order.begin(), order.end());
		for (auto& o : order) {
			IsoparametricTransformation T;
			GetElementTransformation(o.second, &T);
			IntegrationPoint ip;
			if (T.TransformBack(p, ip) == 0) { ids[k] = o.second; ips[k] = ip; found++; break; }
		}
	}
	return found;
}
const std::vector<int>* forcedPartitioning = nullptr;
bool sharedInternalBoundaries = false;
int* Mesh::GeneratePartitioning(int n, int)
{
	if (forcedPartitioning && int(forcedPartitioning->size()) == GetNE()) {
		int* q = new int[forcedPartitioning->size()];
		std::copy(forcedPartitioning->begin(), forcedPartitioning->end(), q);
		return q;
	}
	int* p = new int[std::max(1, GetNE())];
	for (int i = 0; i < GetNE(); i++) { p[i] = int((long long)i * n / GetNE()); }
	return p;
}

// ---------------------------------------------------------------- nodes
void Mesh::SetCurvature(int order, bool, int, int)
{
	std::vector<DenseMatrix> n;
	for (int i = 0; i < GetNE(); i++) {
		IsoparametricTransformation T;
		GetElementTransformation(i, &T);
		const auto* fe = shimGetFE(GetElementGeometry(i), order, BasisType::GaussLobatto);
		DenseMatrix pm;
		T.Transform(fe->GetNodes(), pm);
		n.push_back(pm);
	}
	setGeometryNodes(order, std::move(n));
}
void Mesh::rebuildNodes()
{
	nodes_gf.reset();
	nodes_fes.reset();
	nodes_fec.reset();
	if (!geom_order) { return; }
	nodes_fec = std::make_unique<L2_FECollection>(geom_order, Dim, BasisType::GaussLobatto);
	nodes_fes = std::make_unique<FiniteElementSpace>(this, nodes_fec.get(), spaceDim, Ordering::byVDIM);
	nodes_gf = std::make_unique<GridFunction>(nodes_fes.get());
	Array<int> d;
	for (int e = 0; e < GetNE(); e++) {
		nodes_fes->GetElementDofs(e, d);
		for (int k = 0; k < d.Size(); k++) { for (int c = 0; c < spaceDim; c++) { (*nodes_gf)(nodes_fes->DofToVDof(d[k], c)) = geom_nodes[e](c, k); } }
	}
}
const FiniteElementSpace* Mesh::GetNodalFESpace() const { return nodes_fes.get(); }
void Mesh::GetNodes(GridFunction& gf) const
{
	auto* fes = gf.FESpace();
	gf.SetSize(fes->GetVSize());
	Array<int> d;
	Vector x;
	for (int e = 0; e < GetNE(); e++) {
		IsoparametricTransformation T;
		GetElementTransformation(e, &T);
		fes->GetElementDofs(e, d);
		const auto& n = fes->GetFE(e)->GetNodes();
		for (int k = 0; k < d.Size(); k++) {
			T.Transform(n.IntPoint(k), x);
			for (int c = 0; c < fes->GetVDim(); c++) { gf(fes->DofToVDof(d[k], c)) = c < x.Size() ? x(c) : 0.0; }
		}
	}
}
void Mesh::GetNodes(Vector& v) const
{
	if (nodes_gf) { v = *nodes_gf; return; }
	v.SetSize(spaceDim * GetNV());
	for (int d = 0; d < spaceDim; d++) { for (int i = 0; i < GetNV(); i++) { v(d * GetNV() + i) = vertices[i][d]; } }
}
void Mesh::SetNodes(const GridFunction& gf)
{
	auto* fes = gf.FESpace();
	const int order = fes->FEColl()->GetOrder();
	std::vector<DenseMatrix> nn;
	Vector s;
	Array<int> d;
	for (int e = 0; e < GetNE(); e++) {
		const auto* fe = shimGetFE(GetElementGeometry(e), order, BasisType::GaussLobatto);
		const auto* src = fes->GetFE(e);
		fes->GetElementDofs(e, d);
		DenseMatrix pm(spaceDim, fe->GetDof());
		s.SetSize(src->GetDof());
		for (int k = 0; k < fe->GetDof(); k++) {
			src->CalcShape(fe->GetNodes().IntPoint(k), s);
			for (int c = 0; c < spaceDim; c++) { double v = 0; for (int m = 0; m < d.Size(); m++) { v += s(m) * gf(fes->DofToVDof(d[m], c)); } pm(c, k) = v; }
		}
		nn.push_back(pm);
	}
	setGeometryNodes(order, std::move(nn));
}
void Mesh::Transform(const std::function<void(const Vector&, Vector&)>& f)
{
	Vector y(spaceDim);
	for (auto& v : vertices) {
		Vector x(spaceDim);
		for (int d = 0; d < spaceDim; d++) { x(d) = v[d]; }
		f(x, y);
		for (int d = 0; d < spaceDim; d++) { v[d] = y(d); }
	}
	for (auto& pm : geom_nodes) {
		for (int k = 0; k < pm.Width(); k++) { Vector x; pm.GetColumn(k, x); f(x, y); pm.SetCol(k, y); }
	}
	rebuildNodes();
}

// ---------------------------------------------------------------- structured meshes & refinement
Mesh Mesh::MakeCartesian1D(int n, double sx)
{
	Mesh m(1, n + 1, n, 2);
	for (int i = 0; i <= n; i++) { m.AddVertex(double(i) / n * sx); }
	for (int i = 0; i < n; i++) { m.AddSegment(i, i + 1, 1); }
	m.AddBdrPoint(0, 1);
	m.AddBdrPoint(n, 2);
	m.FinalizeMesh(0, false);
	return m;
}
Mesh Mesh::MakeCartesian2D(int nx, int ny, Element::Type t, bool, double sx, double sy, bool)
{
	Mesh m(2, 0, 0);
	const int s = nx + 1;
	for (int j = 0; j <= ny; j++) { for (int i = 0; i <= nx; i++) { m.AddVertex(double(i) / nx * sx, double(j) / ny * sy); } }
	for (int j = 0; j < ny; j++) {
		for (int i = 0; i < nx; i++) {
			const int a = i + j * s, b = a + 1, c = b + s, d = a + s;
			if (t == Element::QUADRILATERAL) { m.AddQuad(a, b, c, d); }
			else { m.AddTriangle(a, c, d); m.AddTriangle(a, b, c); }
		}
	}
	for (int i = 0; i < nx; i++) { m.AddBdrSegment(i, i + 1, 1); }
	for (int i = 0; i < nx; i++) { m.AddBdrSegment(ny * s + i + 1, ny * s + i, 3); }
	for (int j = 0; j < ny; j++) { m.AddBdrSegment((j + 1) * s, j * s, 4); }
	for (int j = 0; j < ny; j++) { m.AddBdrSegment(j * s + nx, (j + 1) * s + nx, 2); }
	m.FinalizeMesh(1, true);
	return m;
}
Mesh Mesh::MakeCartesian3D(int nx, int ny, int nz, Element::Type t, double sx, double sy, double sz, bool)
{
	Mesh m(3, 0, 0);
	auto V = [&](int i, int j, int k) { return i + (nx + 1) * (j + (ny + 1) * k); };
	for (int k = 0; k <= nz; k++) { for (int j = 0; j <= ny; j++) { for (int i = 0; i <= nx; i++) { m.AddVertex(double(i) / nx * sx, double(j) / ny * sy, double(k) / nz * sz); } } }
	static const int h2t[6][4] = { {0,1,2,6},{0,5,1,6},{0,4,5,6},{0,2,3,6},{0,3,7,6},{0,7,4,6} };
	for (int k = 0; k < nz; k++) {
		for (int j = 0; j < ny; j++) {
			for (int i = 0; i < nx; i++) {
				int v[8] = { V(i,j,k), V(i + 1,j,k), V(i + 1,j + 1,k), V(i,j + 1,k), V(i,j,k + 1), V(i + 1,j,k + 1), V(i + 1,j + 1,k + 1), V(i,j + 1,k + 1) };
				if (t == Element::HEXAHEDRON) { m.AddHex(v); }
				else { for (auto& q : h2t) { m.AddTet(v[q[0]], v[q[1]], v[q[2]], v[q[3]]); } }
			}
		}
	}
	auto bq = [&](int a, int b, int c, int d, int at) {
		if (t == Element::HEXAHEDRON) { m.AddBdrQuad(a, b, c, d, at); }
		else { m.AddBdrTriangle(a, b, c, at); m.AddBdrTriangle(a, c, d, at); }
	};
	for (int j = 0; j < ny; j++) { for (int i = 0; i < nx; i++) { bq(V(i, j, 0), V(i, j + 1, 0), V(i + 1, j + 1, 0), V(i + 1, j, 0), 1); } }
	for (int j = 0; j < ny; j++) { for (int i = 0; i < nx; i++) { bq(V(i, j, nz), V(i + 1, j, nz), V(i + 1, j + 1, nz), V(i, j + 1, nz), 6); } }
	for (int k = 0; k < nz; k++) { for (int j = 0; j < ny; j++) { bq(V(0, j, k), V(0, j, k + 1), V(0, j + 1, k + 1), V(0, j + 1, k), 5); } }
	for (int k = 0; k < nz; k++) { for (int j = 0; j < ny; j++) { bq(V(nx, j, k), V(nx, j + 1, k), V(nx, j + 1, k + 1), V(nx, j, k + 1), 3); } }
	for (int k = 0; k < nz; k++) { for (int i = 0; i < nx; i++) { bq(V(i, 0, k), V(i + 1, 0, k), V(i + 1, 0, k + 1), V(i, 0, k + 1), 2); } }
	for (int k = 0; k < nz; k++) { for (int i = 0; i < nx; i++) { bq(V(i, ny, k), V(i, ny, k + 1), V(i + 1, ny, k + 1), V(i + 1, ny, k), 4); } }
	m.FinalizeMesh(1, true);
	return m;
}
void Mesh::UniformRefinement()
{
	if (geom_order > 1) { mfem_error("UniformRefinement of curved meshes is not provided"); }
	Mesh r(Dim, 0, 0, 0, spaceDim);
	r.vertices = vertices;
	std::map<std::vector<int>, int> mid;
	auto M = [&](std::vector<int> v) {
		std::sort(v.begin(), v.end());
		auto it = mid.find(v);
		if (it != mid.end()) { return it->second; }
		double c[3] = { 0,0,0 };
		for (int x : v) { for (int d = 0; d < 3; d++) { c[d] += vertices[x][d] / v.size(); } }
		return mid[v] = r.AddVertex(c[0], c[1], c[2]);
	};
	auto split = [&](const Element& e, std::vector<Element>& o) {
		const auto& v = e.v;
		const int a = e.GetAttribute();
		auto add = [&](Geometry::Type g, std::vector<int> w) { o.emplace_back(g, w.data(), a); };
		switch (e.GetGeometryType()) {
		case Geometry::POINT: o.push_back(e); break;
		case Geometry::SEGMENT: { int m = M({ v[0],v[1] }); add(Geometry::SEGMENT, { v[0],m }); add(Geometry::SEGMENT, { m,v[1] }); break; }
		case Geometry::TRIANGLE: {
			int x = M({ v[0],v[1] }), y = M({ v[1],v[2] }), z = M({ v[2],v[0] });
			add(Geometry::TRIANGLE, { v[0],x,z }); add(Geometry::TRIANGLE, { x,v[1],y }); add(Geometry::TRIANGLE, { z,y,v[2] }); add(Geometry::TRIANGLE, { y,z,x });
			break;
		}
		case Geometry::SQUARE: {
			int x = M({ v[0],v[1] }), y = M({ v[1],v[2] }), z = M({ v[2],v[3] }), w = M({ v[3],v[0] }), c = M({ v[0],v[1],v[2],v[3] });
			add(Geometry::SQUARE, { v[0],x,c,w }); add(Geometry::SQUARE, { x,v[1],y,c }); add(Geometry::SQUARE, { c,y,v[2],z }); add(Geometry::SQUARE, { w,c,z,v[3] });
			break;
		}
		case Geometry::TETRAHEDRON: {
			int m01 = M({ v[0],v[1] }), m02 = M({ v[0],v[2] }), m03 = M({ v[0],v[3] }), m12 = M({ v[1],v[2] }), m13 = M({ v[1],v[3] }), m23 = M({ v[2],v[3] });
			auto T = Geometry::TETRAHEDRON;
			add(T, { v[0],m01,m02,m03 }); add(T, { m01,v[1],m12,m13 }); add(T, { m02,m12,v[2],m23 }); add(T, { m03,m13,m23,v[3] });
			add(T, { m01,m02,m03,m13 }); add(T, { m01,m12,m02,m13 }); add(T, { m02,m12,m23,m13 }); add(T, { m02,m23,m03,m13 });
			break;
		}
		case Geometry::CUBE: {
			int id[3][3][3];
			auto L = [&](int i, int j, int k) { static const int m[2][2][2] = { {{0,4},{3,7}},{{1,5},{2,6}} }; return v[m[i][j][k]]; };
			for (int i = 0; i < 3; i++) { for (int j = 0; j < 3; j++) { for (int k = 0; k < 3; k++) {
				std::set<int> s;
				for (int p = i / 2; p <= (i + 1) / 2; p++) { for (int q = j / 2; q <= (j + 1) / 2; q++) { for (int u = k / 2; u <= (k + 1) / 2; u++) { s.insert(L(p, q, u)); } } }
				id[i][j][k] = s.size() == 1 ? *s.begin() : M(std::vector<int>(s.begin(), s.end()));
			} } }
			for (int i = 0; i < 2; i++) { for (int j = 0; j < 2; j++) { for (int k = 0; k < 2; k++) {
				add(Geometry::CUBE, { id[i][j][k], id[i + 1][j][k], id[i + 1][j + 1][k], id[i][j + 1][k], id[i][j][k + 1], id[i + 1][j][k + 1], id[i + 1][j + 1][k + 1], id[i][j + 1][k + 1] });
			} } }
			break;
		}
		default: mfem_error("UniformRefinement");
		}
	};
	for (auto& e : elements) { split(e, r.elements); }
	for (auto& e : boundary) { split(e, r.boundary); }
	const bool curved = geom_order == 1;
	r.FinalizeMesh(0, true);
	if (curved) { r.SetCurvature(1); }
	copyFrom(r);
}

// ---------------------------------------------------------------- I/O
Mesh Mesh::LoadFromFile(const std::string& f, int, int refine, bool fix) { Mesh m; m.loadFile(f, fix, true, refine); return m; }
Mesh Mesh::LoadFromFileNoBdrFix(const std::string& f, int, int refine, bool fix) { Mesh m; m.loadFile(f, fix, false, refine); return m; }
void Mesh::loadFile(const std::string& f, bool fix, bool bdrfix, bool refine)
{
	struct stat a, b;
	const bool seen = ::stat(f.c_str(), &a) == 0;
	if (mpisim::lagPoint() && seen) {
		if (::stat(f.c_str(), &b) != 0 || a.st_ino != b.st_ino || a.st_size != b.st_size || a.st_mtim.tv_sec != b.st_mtim.tv_sec || a.st_mtim.tv_nsec != b.st_mtim.tv_nsec) {
			mfem_error("mesh file rewritten while being read");
		}
	}
	std::ifstream in(f);
	if (!in) { mfem_error(("Mesh file not found: " + f).c_str()); }
	loadStream(in, fix, bdrfix, refine);
}
void Mesh::loadStream(std::istream& in, bool fix, bool bdrfix, bool refine)
{
	std::string head;
	std::getline(in, head);
	if (!head.empty() && head.back() == '\r') { head.pop_back(); }
	if (head == "MFEM mesh v1.0") { readMfem(in); }
	else if (head == "$MeshFormat") { readGmsh(in); }
	else { mfem_error(("unknown mesh format: " + head).c_str()); }
	buildTopology();
	if (boundary.empty()) { GenerateBoundaryElements(); }
	SetAttributes();
	if (CheckElementOrientation(fix) && fix && !geom_order) { buildTopology(); }
	if (refine && Dim >= 2 && !geom_order) { markForRefinement(); buildTopology(); }
	if (bdrfix) { CheckBdrElementOrientation(true); }
	rebuildNodes();
}
void Mesh::readMfem(std::istream& in)
{
	std::string w;
	auto next = [&]() -> bool {
		while (in >> w) {
			if (w[0] != '#') { return true; }
			std::string rest;
			std::getline(in, rest);
		}
		return false;
	};
	auto readElems = [&](std::vector<Element>& o) {
		int n;
		in >> n;
		for (int i = 0; i < n; i++) {
			int a, g, v[8];
			in >> a >> g;
			if (!in || g < 0 || g > 5) { mfem_error("bad element in mesh"); }
			for (int k = 0; k < Geometry::NumVerts[g]; k++) { in >> v[k]; }
			o.emplace_back(Geometry::Type(g), v, a);
		}
	};
	while (next()) {
		if (w == "dimension") { in >> Dim; spaceDim = Dim; }
		else if (w == "elements") { readElems(elements); }
		else if (w == "boundary") { readElems(boundary); }
		else if (w == "vertices") {
			int n;
			in >> n;
			vertices.assign(n, { 0,0,0 });
			std::string t;
			in >> t;
			if (t == "nodes") { w = t; goto nodes; }
			spaceDim = std::stoi(t);
			for (auto& v : vertices) { for (int d = 0; d < spaceDim; d++) { in >> v[d]; } }
			return; // nodes are read only in place of coordinates
		}
		else if (w == "nodes") {
		nodes:
			std::string a, name;
			int vdim, ord;
			in >> a >> a >> name >> a >> vdim >> a >> ord;
			spaceDim = vdim;
			int bt = 0, dd = 0, p = 0;
			if (std::sscanf(name.c_str(), "L2_T%d_%dD_P%d", &bt, &dd, &p) != 3 || bt != 1) { mfem_error(("unsupported nodal space " + name).c_str()); }
			std::vector<DenseMatrix> nn;
			long nd = 0;
			for (auto& e : elements) { nd += shimGetFE(e.GetGeometryType(), p, bt)->GetDof(); }
			std::vector<double> val(nd * vdim);
			for (auto& x : val) { in >> x; }
			long off = 0;
			for (auto& e : elements) {
				const auto* fe = shimGetFE(e.GetGeometryType(), p, bt);
				DenseMatrix pm(vdim, fe->GetDof());
				for (int k = 0; k < fe->GetDof(); k++) { for (int c = 0; c < vdim; c++) { pm(c, k) = ord ? val[(off + k) * vdim + c] : val[c * nd + off + k]; } }
				off += fe->GetDof();
				nn.push_back(pm);
				// vertex coordinates from the element corners
				const auto* rv = Geometries.GetVertices(e.GetGeometryType());
				Vector s(fe->GetDof());
				for (int k = 0; k < e.GetNVertices(); k++) {
					fe->CalcShape(rv->IntPoint(k), s);
					for (int c = 0; c < vdim; c++) { double x = 0; for (int m = 0; m < fe->GetDof(); m++) { x += s(m) * pm(c, m); } vertices[e.v[k]][c] = x; }
				}
			}
			geom_order = p;
			geom_nodes = nn;
		}
	}
}
void Mesh::readGmsh(std::istream& in)
{
	double version;
	int binary, dsize;
	in >> version >> binary >> dsize;
	if (binary || version < 2 || version >= 3) { mfem_error("unsupported gmsh version"); }
	std::map<int, int> idx;
	struct Raw { int type, phys; std::vector<int> n; };
	std::vector<Raw> raw;
	std::string w;
	static const int nn[17] = { 0, 2, 3, 4, 4, 8, 6, 5, 3, 6, 9, 10, 27, 18, 14, 1, 8 };
	while (in >> w) {
		if (w == "$Nodes") {
			int n;
			in >> n;
			for (int i = 0; i < n; i++) {
				int id;
				std::array<double, 3> c;
				in >> id >> c[0] >> c[1] >> c[2];
				idx[id] = int(vertices.size());
				vertices.push_back(c);
			}
		}
		else if (w == "$Elements") {
			int n;
			in >> n;
			for (int i = 0; i < n; i++) {
				Raw r;
				int id, nt;
				in >> id >> r.type >> nt;
				if (!in || r.type < 1 || r.type > 16) { mfem_error("Gmsh mesh: bad element record"); }
				std::vector<int> tags(nt);
				for (auto& t : tags) { in >> t; }
				r.phys = nt > 0 ? tags[0] : 1;
				r.n.resize(nn[r.type]);
				for (auto& v : r.n) {
					in >> v;
					auto it = idx.find(v);
					if (!in || it == idx.end()) { mfem_error("Gmsh mesh: unknown node"); }
					v = it->second;
				}
				raw.push_back(r);
			}
		}
	}
	auto geomOf = [](int t) {
		switch (t) {
		case 15: return Geometry::POINT;
		case 1: case 8: return Geometry::SEGMENT;
		case 2: case 9: return Geometry::TRIANGLE;
		case 3: case 10: case 16: return Geometry::SQUARE;
		case 4: case 11: return Geometry::TETRAHEDRON;
		case 5: case 12: return Geometry::CUBE;
		default: mfem_error("Gmsh mesh: unsupported element type");
		}
	};
	Dim = 0;
	for (auto& r : raw) { Dim = std::max(Dim, Geometry::Dimension[geomOf(r.type)]); }
	if (Dim == 0) { mfem_error("Gmsh file : no elements found"); }
	spaceDim = 1;
	for (auto& v : vertices) {
		if (v[1] != vertices[0][1]) { spaceDim = std::max(spaceDim, 2); }
		if (v[2] != vertices[0][2]) { spaceDim = 3; }
	}
	spaceDim = std::max(spaceDim, Dim);
	bool quad = false;
	std::vector<const Raw*> vol;
	// Gmsh writes physical tag 0 throughout when no physical groups exist.
	if (std::all_of(raw.begin(), raw.end(), [](const Raw& r) { return r.phys == 0; })) { for (auto& r : raw) { r.phys = 1; } }
	for (auto& r : raw) {
		const auto g = geomOf(r.type);
		const int d = Geometry::Dimension[g];
		if (d < Dim - 1) { continue; }
		if (r.phys <= 0) { mfem_error("Non-positive element attribute in Gmsh mesh!"); }
		if (d == Dim) { elements.emplace_back(g, r.n.data(), r.phys); vol.push_back(&r); quad |= r.type >= 8 && r.type != 15; }
		else { boundary.emplace_back(g, r.n.data(), r.phys); }
	}
	if (quad) {
		static const int seg2[3] = { 0,2,1 };
		static const int tri2[6] = { 0,3,1,5,4,2 };
		static const int quad2[9] = { 0,4,1,7,8,5,3,6,2 };
		static const int tet2[10] = { 0,4,1,6,5,2,7,9,8,3 };
		std::vector<DenseMatrix> gn;
		for (auto* r : vol) {
			const int* p = r->type == 8 ? seg2 : r->type == 9 ? tri2 : r->type == 10 ? quad2 : r->type == 11 ? tet2 : nullptr;
			if (!p) { mfem_error("Gmsh mesh: unsupported high-order element"); }
			DenseMatrix pm(spaceDim, nn[r->type]);
			for (int k = 0; k < pm.Width(); k++) { for (int d = 0; d < spaceDim; d++) { pm(d, k) = vertices[r->n[p[k]]][d]; } }
			gn.push_back(pm);
		}
		geom_order = 2;
		geom_nodes = gn;
	}
	// drop unused vertices, keeping their order
	std::vector<int> use(vertices.size(), 0), nid(vertices.size(), -1);
	for (auto& e : elements) { for (int v : e.v) { use[v] = 1; } }
	std::vector<std::array<double, 3>> nv;
	for (size_t i = 0; i < vertices.size(); i++) { if (use[i]) { nid[i] = int(nv.size()); nv.push_back(vertices[i]); } }
	for (auto& e : elements) { for (int& v : e.v) { v = nid[v]; } }
	for (auto& e : boundary) { for (int& v : e.v) { if (nid[v] < 0) { mfem_error("boundary element does not match any face"); } v = nid[v]; } }
	vertices = nv;
}
void Mesh::Save(const std::string& f, int prec) const
{
	std::ofstream o(f);
	o.precision(prec);
	Print(o);
}
void Mesh::Print(std::ostream& os, const std::string&) const
{
	os << "MFEM mesh v1.0\n\n#\n# MFEM Geometry Types (see fem/geom.hpp):\n#\n# POINT       = 0\n# SEGMENT     = 1\n# TRIANGLE    = 2\n# SQUARE      = 3\n# TETRAHEDRON = 4\n# CUBE        = 5\n#\n\n";
	os << "dimension\n" << Dim << "\n\nelements\n" << GetNE() << "\n";
	auto w = [&](const Element& e) { os << e.GetAttribute() << ' ' << e.GetGeometryType(); for (int v : e.v) { os << ' ' << v; } os << '\n'; };
	for (auto& e : elements) { w(e); }
	os << "\nboundary\n" << GetNBE() << "\n";
	for (auto& e : boundary) { w(e); }
	os << "\nvertices\n" << GetNV() << "\n";
	if (!geom_order) {
		os << spaceDim << "\n";
		for (auto& v : vertices) { for (int d = 0; d < spaceDim; d++) { os << (d ? " " : "") << v[d]; } os << '\n'; }
		return;
	}
	os << "\nnodes\n";
	nodes_gf->Save(os);
}

// ---------------------------------------------------------------- sub-meshes
namespace {
struct SubBuild { Array<int> el, vert; };
template <class M>
SubBuild extract(const Mesh& parent, const Array<int>& attrs, M&& sink)
{
	SubBuild r;
	std::map<int, int> vid;
	for (int e = 0; e < parent.GetNE(); e++) {
		if (attrs.Find(parent.GetAttribute(e)) < 0) { continue; }
		Element el = *parent.GetElement(e);
		for (int& v : el.v) {
			auto it = vid.emplace(v, int(vid.size()));
			if (it.second) { r.vert.Append(v); }
			v = it.first->second;
		}
		sink(el);
		r.el.Append(e);
	}
	return r;
}
}
#define SHIM_BUILD_SUB(SELF, PARENT, ATTRS) \
	(SELF).Dim = (PARENT).Dimension(); \
	(SELF).spaceDim = (PARENT).SpaceDimension(); \
	auto b = extract(PARENT, ATTRS, [&](const Element& e) { (SELF).elements.push_back(e); }); \
	for (int v : b.vert) { const double* c = (PARENT).GetVertex(v); (SELF).vertices.push_back({ c[0], c[1], c[2] }); } \
	(SELF).buildTopology(); \
	(SELF).GenerateBoundaryElements(); \
	if (!(PARENT).geometryNodes().empty()) { \
		std::vector<DenseMatrix> n; \
		for (int e : b.el) { n.push_back((PARENT).geometryNodes()[e]); } \
		(SELF).geom_order = (PARENT).geometryOrder(); \
		(SELF).geom_nodes = n; \
	} \
	(SELF).rebuildNodes(); \
	Array<int> fmap = SubMeshUtils::BuildFaceMap(PARENT, SELF, b.el); \
	Array<int> f2b = (PARENT).GetFaceToBdrElMap(); \
	const int mx = (PARENT).bdr_attributes.Size() ? (PARENT).bdr_attributes.Max() : 0; \
	for (int k = 0; k < (SELF).GetNBE(); k++) { \
		const int pb = f2b[fmap[(SELF).be_to_face[k]]]; \
		(SELF).boundary[k].SetAttribute(pb >= 0 ? (PARENT).GetBdrAttribute(pb) : mx + 1); \
	} \
	(SELF).SetAttributes();

SubMesh SubMesh::CreateFromDomain(const Mesh& parent, const Array<int>& attrs) { SubMesh s; s.build(parent, attrs); return s; }
void SubMesh::build(const Mesh& parent, const Array<int>& attrs)
{
	SHIM_BUILD_SUB(*this, parent, attrs)
	parent_ = &parent;
	parent_el = b.el;
	parent_vert = b.vert;
	parent_face = fmap;
}
ParSubMesh ParSubMesh::CreateFromDomain(const ParMesh& parent, const Array<int>& attrs)
{
	ParSubMesh s;
	SHIM_BUILD_SUB(s, parent, attrs)
	s.parent_ = &parent;
	s.parent_el = b.el;
	s.parent_vert = b.vert;
	s.comm = parent.GetComm();
	return s;
}
Array<int> SubMeshUtils::BuildFaceMap(const Mesh& parent, const Mesh& sub, const Array<int>& pe)
{
	Array<int> m(sub.GetNumFaces());
	m = -1;
	for (int e = 0; e < sub.GetNE(); e++) {
		Array<int> sf = sub.GetElementFaceIndices(e), pf = parent.GetElementFaceIndices(pe[e]);
		for (int k = 0; k < sf.Size(); k++) { m[sf[k]] = pf[k]; }
	}
	return m;
}
void SubMeshUtils::BuildVdofToVdofMap(const FiniteElementSpace& s, const FiniteElementSpace& p, const SubMesh::From&, const Array<int>& pe, Array<int>& map)
{
	map.SetSize(s.GetVSize());
	map = -1;
	Array<int> a, b;
	for (int e = 0; e < s.GetNE(); e++) {
		s.GetElementVDofs(e, a);
		p.GetElementVDofs(pe[e], b);
		for (int k = 0; k < a.Size(); k++) { map[a[k]] = b[k]; }
	}
}
TransferMap SubMesh::CreateTransferMap(const GridFunction& src, const GridFunction& dst) { return TransferMap(src, dst); }
void SubMesh::Transfer(const GridFunction& src, GridFunction& dst) { TransferMap(src, dst).Transfer(src, dst); }
TransferMap::TransferMap(const GridFunction& src, const GridFunction& dst)
{
	auto ids = [](const Mesh* m) -> const Array<int>* {
		if (auto* s = dynamic_cast<const SubMesh*>(m)) { return &s->GetParentElementIDMap(); }
		if (auto* s = dynamic_cast<const ParSubMesh*>(m)) { return &s->GetParentElementIDMap(); }
		return nullptr;
	};
	const auto* sf = src.FESpace();
	const auto* df = dst.FESpace();
	if (auto* m = ids(sf->GetMesh())) { SubMeshUtils::BuildVdofToVdofMap(*sf, *df, SubMesh::Domain, *m, map_); sub_to_parent_ = true; }
	else if (auto* m2 = ids(df->GetMesh())) { SubMeshUtils::BuildVdofToVdofMap(*df, *sf, SubMesh::Domain, *m2, map_); sub_to_parent_ = false; }
	else { mfem_error("TransferMap: neither space lives on a sub-mesh"); }
}
void TransferMap::Transfer(const GridFunction& src, GridFunction& dst) const
{
	for (int i = 0; i < map_.Size(); i++) {
		if (sub_to_parent_) { dst(map_[i]) = src(i); }
		else { dst(i) = src(map_[i]); }
	}
}

// ---------------------------------------------------------------- partitioned meshes
ParMesh::ParMesh(const ParMesh& o, bool) : Mesh(o), comm(o.comm), rank_(o.rank_), nranks_(o.nranks_), global(o.global), partition(o.partition), l2g_el(o.l2g_el), nbr_elems(o.nbr_elems), shared(o.shared) {}

ParMesh::ParMesh(MPI_Comm c, Mesh& m, const int* part, int)
{
	comm = c;
	MPI_Comm_rank(c, &rank_);
	MPI_Comm_size(c, &nranks_);
	if (nranks_ == 1) {
		copyFrom(m);
		for (int e = 0; e < GetNE(); e++) { l2g_el.push_back(e); }
		return;
	}
	global = std::make_shared<Mesh>(m);
	int* own = part ? nullptr : m.GeneratePartitioning(nranks_);
	partition.assign(part ? part : own, (part ? part : own) + m.GetNE());
	delete[] own;
	Dim = m.Dimension();
	spaceDim = m.SpaceDimension();
	std::set<int> used;
	std::vector<int> cnt(nranks_, 0), idx(m.GetNE());
	for (int e = 0; e < m.GetNE(); e++) {
		shimCheck("partition rank", partition[e], nranks_);
		idx[e] = cnt[partition[e]]++;
		if (partition[e] != rank_) { continue; }
		l2g_el.push_back(e);
		for (int v : m.GetElement(e)->v) { used.insert(v); }
	}
	std::map<int, int> g2l;
	for (int v : used) {
		g2l[v] = GetNV();
		const double* x = m.GetVertex(v);
		vertices.push_back({ x[0], x[1], x[2] });
	}
	for (int e : l2g_el) {
		Element el = *m.GetElement(e);
		for (int& v : el.v) { v = g2l[v]; }
		elements.push_back(el);
	}
	const auto& gfi = m.faceInfos();
	for (int b = 0; b < m.GetNBE(); b++) {
		int f, o;
		m.GetBdrElementFace(b, &f, &o);
		const int who = partition[(o % 2 == 0 || gfi[f].Elem2No < 0) ? gfi[f].Elem1No : gfi[f].Elem2No];
		if (who != rank_) { continue; }
		Element be = *m.GetBdrElement(b);
		for (int& v : be.v) { v = g2l[v]; }
		boundary.push_back(be);
	}
	buildTopology();
	attributes = m.attributes;
	bdr_attributes = m.bdr_attributes;
	if (!m.geometryNodes().empty()) {
		geom_order = m.geometryOrder();
		for (int e : l2g_el) { geom_nodes.push_back(m.geometryNodes()[e]); }
	}
	rebuildNodes();
	// neighbours across rank interfaces
	std::map<std::pair<int, int>, int> nb;
	std::vector<std::array<int, 3>> sf;   // global face, mine, other
	for (int f = 0; f < int(gfi.size()); f++) {
		const int a = gfi[f].Elem1No, b = gfi[f].Elem2No;
		if (b < 0 || partition[a] == partition[b]) { continue; }
		if (partition[a] != rank_ && partition[b] != rank_) { continue; }
		const int mine = partition[a] == rank_ ? a : b, other = mine == a ? b : a;
		nb[{ partition[other], other }] = 0;
		sf.push_back({ f, mine, other });
	}
	for (auto& n : nb) {
		n.second = int(nbr_elems.size());
		nbr_elems.push_back({ n.first.first, n.first.second, idx[n.first.second] });
	}
	for (auto& s : sf) {
		const auto gl = m.GetElementFaceIndices(s[1]);
		const int lf = GetElementFaceIndices(idx[s[1]])[gl.Find(s[0])];
		const int n = nb[{ partition[s[2]], s[2] }];
		shared.push_back({ lf, n, s[0] });
		const auto go = m.GetElementFaceIndices(s[2]);
		faces_info[lf].Elem2No = -1 - n;
		faces_info[lf].Elem2Inf = 64 * go.Find(s[0]);
	}
}
void ParMesh::ExchangeFaceNbrData() {}
long long ParMesh::GetGlobalNE() const
{
	if (nranks_ == 1) { return GetNE(); }
	int l = GetNE(), g = 0;
	MPI_Allreduce(&l, &g, 1, MPI_INT, MPI_SUM, comm);
	return g;
}
int ParMesh::globalBdrOfFace(int gf) const { auto m = global->GetFaceToBdrElMap(); return m[gf]; }
FaceElementTransformations* ParMesh::GetSharedFaceTransformations(int s, bool)
{
	const auto& sh = shared.at(s);
	auto* T = Mesh::GetFaceElementTransformations(sh.local_face, 21);
	const auto& nb = nbr_elems[sh.nbr];
	std::set<int> used;
	for (int e : l2g_el) { for (int v : global->GetElement(e)->v) { used.insert(v); } }
	std::vector<int> l2g(used.begin(), used.end());
	Element gf = faces[sh.local_face];
	for (int& v : gf.v) { v = l2g[v]; }
	struct Open : Mesh { using Mesh::buildLoc; };
	(global.get()->*static_cast<void (Mesh::*)(int, const Element&, IntegrationPointTransformation&) const>(&Open::buildLoc))(nb.global_el, gf, T->Loc2);
	global->GetElementTransformation(nb.global_el, &Transformation2);
	Transformation2.ElementNo = GetNE() + sh.nbr;
	T->Elem2 = &Transformation2;
	T->Elem2No = GetNE() + sh.nbr;
	T->SetConfigurationMask(31);
	return T;
}
int ParMesh::FindPoints(DenseMatrix& pts, Array<int>& ids, Array<IntegrationPoint>& ips, bool w, void* inv)
{
	Mesh::FindPoints(pts, ids, ips, w, inv);
	int found = 0;
	for (int k = 0; k < ids.Size(); k++) {
		int mine = ids[k] >= 0 ? rank_ : nranks_, best = mine;
		if (nranks_ > 1) { MPI_Allreduce(&mine, &best, 1, MPI_INT, MPI_MIN, comm); }
		if (best < nranks_) { found++; if (best != rank_) { ids[k] = -2; } }
	}
	return found;
}

} // namespace mfem
