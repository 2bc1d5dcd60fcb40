// C31: every formulation and every assembly route gives the same time derivative of every unit state.
#include "ox.hpp"
#include "components/DGOperatorFactory.h"

using namespace maxwell;
using hx::V3;
using ox::Mat;

static const V3 HI{ 1.0, 0.8, 0.6 };
static vh::Explorer ex;

static Mat dense(mfem::SparseMatrix& s)
{
	Mat r = Mat::Zero(s.Height(), s.Width());
	for (int i = 0; i < s.Height(); i++) {
		mfem::Array<int> c;
		mfem::Vector v;
		s.GetRow(i, c, v);
		for (int k = 0; k < c.Size(); k++) { r(i, c[k]) += v[k]; }
	}
	return r;
}

// The block-by-block route, as long as the factory offers it.
using BF = mfem::ParBilinearForm;
template <class D, class = void> struct HasBlocks : std::false_type {};
template <class D> struct HasBlocks<D, std::void_t<
	decltype(std::declval<D&>().template addGlobalOneNormalIBFIOperators<BF>((mfem::SparseMatrix*)nullptr)),
	decltype(std::declval<D&>().template addGlobalZeroNormalIBFIOperators<BF>((mfem::SparseMatrix*)nullptr)),
	decltype(std::declval<D&>().template addGlobalTwoNormalIBFIOperators<BF>((mfem::SparseMatrix*)nullptr)),
	decltype(std::declval<D&>().template addGlobalDirectionalOperators<BF>((mfem::SparseMatrix*)nullptr)),
	decltype(std::declval<D&>().template addGlobalOneNormalOperators<BF>((mfem::SparseMatrix*)nullptr)),
	decltype(std::declval<D&>().template addGlobalZeroNormalOperators<BF>((mfem::SparseMatrix*)nullptr)),
	decltype(std::declval<D&>().template addGlobalTwoNormalOperators<BF>((mfem::SparseMatrix*)nullptr)),
	decltype(std::declval<D&>().template addGlobalConductiveOperator<BF>((mfem::SparseMatrix*)nullptr))>> : std::true_type {};
template <class D> bool blocks(D& dg, mfem::SparseMatrix& S, bool sheets)
{
	if constexpr (HasBlocks<D>::value) {
		if (sheets) {
			dg.template addGlobalOneNormalIBFIOperators<BF>(&S);
			dg.template addGlobalZeroNormalIBFIOperators<BF>(&S);
			dg.template addGlobalTwoNormalIBFIOperators<BF>(&S);
		}
		dg.template addGlobalDirectionalOperators<BF>(&S);
		dg.template addGlobalOneNormalOperators<BF>(&S);
		dg.template addGlobalZeroNormalOperators<BF>(&S);
		dg.template addGlobalTwoNormalOperators<BF>(&S);
		dg.template addGlobalConductiveOperator<BF>(&S);
		S.Finalize();
		return true;
	}
	return false;
}

static void same(const Mat& a, const Mat& b, const std::string& what)
{
	ex.step(b.cols());
	if (!ex.check(a.rows() == b.rows() && a.cols() == b.cols(), what, " has another size")) { return; }
	const double scale = std::max(1.0, a.cwiseAbs().maxCoeff());
	Mat d = (a - b).cwiseAbs();
	Eigen::Index i, j;
	const double m = d.size() ? d.maxCoeff(&i, &j) : 0.0;
	if (!ex.check(std::isfinite(b.sum()) && m < 1e-9 * scale, what, ": unit state ", j, " gives ", b(i, j), " at unknown ", i, " instead of ", a(i, j))) { return; }
	ex.trace(b.cols());
}

// The text format the library prints matrices in: rows, cols, row starts, columns, values.
static Mat readCSR(const std::string& text)
{
	std::istringstream in(text);
	int h = 0, w = 0;
	in >> h >> w;
	std::vector<int> I(h + 1);
	for (auto& i : I) { in >> i; }
	std::vector<int> J(I.back() - I[0]);
	for (auto& j : J) { in >> j; }
	Mat r = Mat::Zero(h, w);
	for (int i = 0; i < h; i++) for (int k = I[i]; k < I[i + 1]; k++) { double v = NAN; in >> v; r(i, J[k - I[0]] - I[0]) += v; }
	return r;
}

// The outer sides tagged one by one, the inner faces across the cut with the next number.
static void tagged(hx::MeshDef& def, int dim, double cut)
{
	auto fe = def.faceElems();
	const auto b0 = def;
	def.tagFaces([&](const V3& c, bool in) {
		if (!in) { return hx::outerSide(c, HI, dim); }
		for (auto& f : fe) {
			if (f.second.size() == 2 && hx::norm(b0.centre(f.first) - c) < 1e-12 && (b0.centre(b0.elems[f.second[0]])[0] > cut) != (b0.centre(b0.elems[f.second[1]])[0] > cut)) { return 2 * dim + 1; }
		}
		return 0;
	});
}

int main()
{
	const bool T = ex.thorough();
	struct MeshCase { hx::Kind k; std::array<int, 3> n; double warp; std::vector<int> orders; };
	std::vector<MeshCase> meshes{
		{ hx::SEG, { 4, 0, 0 }, 0.2, { 0, 1, 2, 3 } }, { hx::TRI, { 2, 1, 0 }, 0.2, { 1, 2, 3 } }, { hx::TRI, { 2, 2, 0 }, 0.2, { 1 } }, { hx::QUAD, { 2, 1, 0 }, 0.0, { 1, 2 } }, { hx::QUAD, { 2, 2, 0 }, 0.2, { 1 } },
		{ hx::TET, { 1, 1, 1 }, 0.0, T ? std::vector<int>{ 1, 2 } : std::vector<int>{ 1 } }, { hx::TET, { 2, 1, 1 }, 0.2, { 1 } }, { hx::HEX, { 2, 1, 1 }, 0.0, { 1 } } };
	const std::vector<BdrCond> bcs{ BdrCond::PEC, BdrCond::PMC, BdrCond::SMA };
	struct MatCase { std::string name; std::map<int, Material> mats; };
	std::vector<MatCase> mats{
		{ "vacuum", {} },
		{ "two", { { 1, Material(1.4, 1.0, 0.0) }, { 2, Material(3.0, 1.7, 0.0) } } },
		{ "lossy", { { 1, Material(2.0, 1.3, 0.6) }, { 2, Material(1.0, 2.0, 0.0) } } } };
	for (auto& mc : meshes) for (int p : mc.orders) {
		const int dim = hx::kindDim(mc.k);
		const bool full = dim == 1 || (dim == 2 && p == 1 && mc.n[1] == 1);
		std::vector<std::map<int, BdrCond>> sets;
		std::vector<int> dig(full ? 2 * dim : dim, 0);
		for (;;) {
			std::map<int, BdrCond> o;
			for (int t = 1; t <= 2 * dim; t++) { o[t] = bcs[dig[full ? t - 1 : (t - 1) / 2]]; }
			sets.push_back(o);
			size_t i = 0;
			while (i < dig.size() && ++dig[i] == 3) { dig[i++] = 0; }
			if (i == dig.size()) { break; }
		}
		for (auto& o : sets) for (int sheet = 0; sheet < 5; sheet++) for (auto& mt : mats) for (double al : { 0.0, 0.4, 1.0 }) {
			if (dim == 3 && al == 0.4) { continue; }
			if (dim > 1 && al == 0.4 && !full) { continue; }
			if (full && dim == 2 && !T && mt.name == "two" && al != 1.0) { continue; }
			if (mc.k == hx::TET && mc.n[0] == 2 && (o.at(1) != o.at(3) || o.at(3) != o.at(5))) { continue; }
			std::string key = vh::str(hx::kindName(mc.k), mc.n[0], mc.n[1], " p=", p, " ", mt.name, " alpha=", al, " sheet=", sheet == 4 ? "mix" : (sheet ? ox::bcName(bcs[sheet - 1]) : "no"));
			for (auto& x : o) { key += vh::str(" ", x.first, ox::bcName(x.second)); }
			if (!ex.begin(key)) { continue; }
			ex.guarded([&] {
				hx::MuteAll mute;
				hx::Scratch scratch;
				auto def = hx::box(mc.k, mc.n, HI, mc.warp, nullptr, [&](const V3& q) { return mt.mats.size() == 2 && q[0] > 0.5 ? 2 : 1; });
				const double cut = mc.n[0] > 1 ? 0.5 : 0.45;
				auto fe = def.faceElems();
				def.tagFaces([&](const V3& c, bool in) {
					if (!in) { return hx::outerSide(c, HI, dim); }
					for (auto& f : fe) {
						if (f.second.size() == 2 && hx::norm(def.centre(f.first) - c) < 1e-12) {
							const bool a = def.centre(def.elems[f.second[0]])[0] > cut, b = def.centre(def.elems[f.second[1]])[0] > cut;
							if (a != b) { return 2 * dim + 1; }
							return 2 * dim + 2 + (c[0] > cut);   // other interior faces: tagged, without condition unless "mix"
						}
					}
					return 0;
				});
				auto mesh = def.build();
				ox::Cfg c;
				c.order = p; c.alpha = al; c.mats = mt.mats; c.outer = o;
				if (sheet && sheet < 4) { c.inner[2 * dim + 1] = bcs[sheet - 1]; }
				if (sheet == 4) { for (int i = 0; i < 3; i++) { c.inner[2 * dim + 1 + i] = bcs[i]; } }
				c.op = Global;
				auto g = ox::solver(mesh, c);
				const Mat A = ox::matrix(*g);
				c.op = Maxwell;
				auto m = ox::solver(mesh, c);
				same(A, ox::matrix(*m), "separate operators");
				if (ex.failed()) { return; }
				if (dim > 1 && p > 0 && mt.mats.empty() && !(mc.k == hx::QUAD && mc.warp > 0)) {
					c.op = Hesthaven;
					std::unique_ptr<maxwell::Solver> h;
					if (mc.k == hx::HEX) {
						try { h = ox::solver(mesh, c); }
						catch (const std::runtime_error&) { ex.note("nodal formulation refuses the element"); }
					}
					else { h = ox::solver(mesh, c); }
					if (h) {
						same(A, ox::matrix(*h), "nodal evaluation");
						if (ex.failed()) { return; }
						ex.note("nodal formulation compared");
					}
				}
				// block-by-block route
				if (p <= 2) {
					auto model = hx::model(mesh, c.outer, c.inner, c.mats);
					Probes probes;
					Sources sources;
					EvolutionOptions eo = ox::options(c).evolution;
					ProblemDescription pd(model, probes, sources, eo);
					mfem::DG_FECollection fec(p, dim, mfem::BasisType::GaussLobatto);
					mfem::ParFiniteElementSpace fes(&model.getMesh(), &fec);
					fes.ExchangeFaceNbrData();
					DGOperatorFactory<mfem::ParFiniteElementSpace> dg(pd, fes);
					mfem::SparseMatrix S(6 * fes.GetNDofs(), 6 * fes.GetNDofs());
					if (blocks(dg, S, !c.inner.empty())) { same(A, dense(S), "block-by-block assembly"); }
					if (ex.failed()) { return; }
				}
				// what the exporter writes
				if (p <= 2 && al == 1.0) {
					c.op = Global;
					auto model = hx::model(mesh, c.outer, c.inner, c.mats, "kase");
					auto oe = ox::options(c);
					oe.setExportEO(true);
					maxwell::Solver s(model, Probes(), Sources(), oe);
					const auto text = hx::slurp("Exports/Operators/kase/kase_global.csr");
					if (ex.check(!text.empty(), "the operator is not exported")) {
						Mat E = readCSR(text);
						const double scale = std::max(1.0, A.cwiseAbs().maxCoeff());
						ex.check(E.rows() == A.rows() && E.cols() == A.cols() && (E - A).cwiseAbs().maxCoeff() < 1e-4 * scale, "the exported operator is another one");
						ex.note("exported operators compared");
					}
				}
			});
		}
	}
	// one edge bent: the elements around it are curved (the nodal formulation tells them by its
	// nodes, so it needs at least the order of the geometry)
	struct Bent { hx::Kind k; std::array<int, 3> n; int p; };
	for (auto& b : std::vector<Bent>{ { hx::TRI, { 2, 1, 0 }, 2 }, { hx::TRI, { 2, 1, 0 }, 3 }, { hx::TRI, { 2, 2, 0 }, 2 }, { hx::TET, { 1, 1, 1 }, 2 } }) {
		const int dim = hx::kindDim(b.k);
		auto def = hx::box(b.k, b.n, HI, 0.0);
		std::set<std::pair<int, int>> edges;
		for (auto& e : def.elems) for (size_t i = 0; i < e.size(); i++) for (size_t j = 0; j < e.size(); j++) { if (e[i] < e[j]) { edges.insert({ e[i], e[j] }); } }
		tagged(def, dim, 0.45);
		for (auto& ed : edges) for (auto bc : bcs) for (double al : { 0.0, 1.0 }) for (int sheet = 0; sheet < 2; sheet++) {
			if (!ex.begin(vh::str("bent ", hx::kindName(b.k), b.n[0], b.n[1], " p=", b.p, " edge ", ed.first, "-", ed.second, " ", ox::bcName(bc), sheet ? " around a sheet" : "", " alpha=", al))) { continue; }
			ex.guarded([&] {
				hx::MuteAll mute;
				hx::Scratch scratch;
				auto mesh = def.build();
				mesh.SetCurvature(2);
				auto nodes = mesh.geometryNodes();
				const V3 mid = hx::operator*(0.5, hx::operator+(def.verts[ed.first], def.verts[ed.second]));
				const V3 along = def.verts[ed.second] - def.verts[ed.first];
				const V3 off = dim == 2 ? hx::operator*(0.09, V3{ -along[1], along[0], 0 }) : hx::operator*(0.06, hx::cross(along, V3{ 0.3, 1.0, 0.7 }));
				int moved = 0;
				for (auto& m : nodes) for (int j = 0; j < m.Width(); j++) {
					V3 q{ 0, 0, 0 };
					for (int d = 0; d < dim; d++) { q[d] = m(d, j); }
					if (hx::norm(q - mid) < 1e-9) { for (int d = 0; d < dim; d++) { m(d, j) += off[d]; } moved++; }
				}
				if (!moved) { return; }
				mesh.setGeometryNodes(2, nodes);
				ox::Cfg c;
				c.order = b.p; c.alpha = al;
				for (int t = 1; t <= 2 * dim; t++) { c.outer[t] = sheet ? bcs[(int(bc == BdrCond::PMC) + 2 * int(bc == BdrCond::SMA) + t) % 3] : bc; }
				if (sheet) { c.inner[2 * dim + 1] = bc; }
				auto g = ox::solver(mesh, c);
				const Mat A = ox::matrix(*g);
				c.op = Maxwell;
				auto m = ox::solver(mesh, c);
				same(A, ox::matrix(*m), "separate operators");
				if (ex.failed()) { return; }
				c.op = Hesthaven;
				auto h = ox::solver(mesh, c);
				same(A, ox::matrix(*h), "nodal evaluation");
				ex.note("curved meshes compared");
			});
		}
	}
	// the same mesh in other units of length: every rate changes by the same factor
	struct Unit { hx::Kind k; std::array<int, 3> n; int p; };
	for (auto& b : std::vector<Unit>{ { hx::SEG, { 3, 0, 0 }, 2 }, { hx::TRI, { 2, 1, 0 }, 1 }, { hx::TRI, { 2, 1, 0 }, 3 }, { hx::QUAD, { 2, 1, 0 }, 2 }, { hx::TET, { 1, 1, 1 }, 1 }, { hx::TET, { 1, 1, 1 }, 2 } }) for (double L : T ? std::vector<double>{ 1e-6, 1e-3, 1e-2, 1e2, 1e3, 1e6 } : std::vector<double>{ 1e-6, 1e-3, 1e3 }) for (auto bc : bcs) for (int sheet = 0; sheet < 3; sheet++) for (auto op : { Global, Maxwell, Hesthaven }) {
		if (sheet == 2 && (b.p < 2 || !(b.k == hx::TRI || b.k == hx::TET))) { continue; }   // one edge bent
		const int dim = hx::kindDim(b.k);
		if (op == Hesthaven && dim == 1) { continue; }
		if (!ex.begin(vh::str("unit ", L, " ", hx::kindName(b.k), b.n[0], b.n[1], " p=", b.p, " ", op == Global ? "global" : (op == Maxwell ? "separate" : "nodal"), " ", ox::bcName(bc), sheet == 2 ? " bent" : (sheet ? " sheet" : "")))) { continue; }
		ex.guarded([&] {
			hx::MuteAll mute;
			hx::Scratch scratch;
			auto def = hx::box(b.k, b.n, HI, b.k == hx::QUAD ? 0.0 : 0.2);
			tagged(def, dim, b.n[0] > 1 ? 0.5 : 0.45);
			ox::Cfg c;
			c.order = b.p; c.alpha = 1.0; c.op = op;
			for (int t = 1; t <= 2 * dim; t++) { c.outer[t] = bcs[(int(bc == BdrCond::PMC) + 2 * int(bc == BdrCond::SMA) + t) % 3]; }
			if (sheet == 1) { c.inner[2 * dim + 1] = bc; }
			auto scaled = def;
			for (auto& v : scaled.verts) for (auto& x : v) { x *= L; }
			auto mesh = def.build(), other = scaled.build();
			if (sheet == 2) {
				const auto &va = def.verts[def.elems[0][0]], &vb = def.verts[def.elems[0][1]];
				for (double l : { 1.0, L }) {
					auto& m = l == 1.0 ? mesh : other;
					m.SetCurvature(2);
					auto nodes = m.geometryNodes();
					const V3 mid = hx::operator*(0.5 * l, hx::operator+(va, vb));
					for (auto& a : nodes) for (int j = 0; j < a.Width(); j++) {
						double r = 0;
						for (int d = 0; d < dim; d++) { r += std::abs(a(d, j) - mid[d]); }
						if (r < 1e-9 * l) { a(0, j) += 0.03 * l; a(1, j) -= 0.04 * l; }
					}
					m.setGeometryNodes(2, nodes);
				}
			}
			auto a = ox::solver(mesh, c);
			auto o = ox::solver(other, c);
			same(ox::matrix(*a), L * ox::matrix(*o), "in other units");
			ex.note("units compared");
		});
	}
	return ex.finish();
}
