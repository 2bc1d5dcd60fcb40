// C30: the complete quadratic form of the energy rate, for every configuration in the bound.
#include "ox.hpp"

using namespace maxwell;
using hx::V3;
using ox::Mat;
using ox::Vec;

static const V3 HI{ 1.0, 0.8, 0.6 };

// Basis functions of one element at physical points (affine cells).
struct Basis {
	std::vector<int> dofs;
	std::vector<std::array<int, 3>> ms;
	V3 x0;
	Mat C;
	Vec at(const V3& p) const { Vec m(int(ms.size())); for (size_t j = 0; j < ms.size(); j++) { m[int(j)] = hx::mono(ms[j], p - x0); } return C.transpose() * m; }
};

// What must be dissipated: tangential jumps between elements (penalised fluxes), waves leaving
// through absorbing sides, E inside conductors. Positive weights only; magnitude is not judged.
static Mat losses(const hx::MeshDef& def, mfem::FiniteElementSpace& fes, const ox::Cfg& c)
{
	const int N = fes.GetNDofs(), dim = def.dim();
	const bool tensor = def.kind == hx::QUAD || def.kind == hx::HEX || def.kind == hx::SEG;
	auto X = hx::nodes(fes);
	std::vector<Basis> bs;
	for (int e = 0; e < fes.GetNE(); e++) {
		Basis b;
		mfem::Array<int> d;
		fes.GetElementDofs(e, d);
		for (int i = 0; i < d.Size(); i++) { b.dofs.push_back(d[i]); }
		b.ms = hx::monomials(dim, c.order, tensor);
		b.x0 = X[d[0]];
		Mat V(d.Size(), d.Size());
		for (int i = 0; i < d.Size(); i++) for (int j = 0; j < d.Size(); j++) { V(i, j) = hx::mono(b.ms[j], X[d[i]] - b.x0); }
		b.C = V.inverse();
		bs.push_back(b);
	}
	Mat D = Mat::Zero(6 * N, 6 * N);
	std::map<std::vector<int>, int> tag;
	for (auto& b : def.bdr) { auto v = b.v; std::sort(v.begin(), v.end()); tag[v] = b.tag; }
	std::vector<double> gx, gw;
	ox::gauss(c.order + 2, gx, gw);
	for (auto& fe : def.faceElems()) {
		const auto& v = fe.first;
		// outward normal of the first element and sample points
		V3 n{ 1, 0, 0 };
		std::vector<V3> pts;
		const auto& P = def.verts;
		if (dim == 1) { pts.push_back(P[v[0]]); }
		else if (dim == 2) { const V3 t = P[v[1]] - P[v[0]]; n = hx::unit({ t[1], -t[0], 0 }); for (double g : gx) { pts.push_back(P[v[0]] + g * t); } }
		else { const V3 t = P[v[1]] - P[v[0]], u = P[v[2]] - P[v[0]]; n = hx::unit(hx::cross(t, u)); const double k = v.size() == 4 ? 1.0 : 0.5; for (double g : gx) for (double h : gx) { pts.push_back(P[v[0]] + (v.size() == 4 ? g : g * k) * t + (v.size() == 4 ? h : h * k) * u); } }
		if (hx::dot(n, def.centre(v) - def.centre(def.elems[fe.second[0]])) < 0) { n = -1.0 * n; }
		auto it = tag.find(v);
		BdrCond bc = BdrCond::TotalFieldIn;
		bool has = false;
		if (it != tag.end()) {
			auto& map = fe.second.size() == 2 ? c.inner : c.outer;
			auto k = map.find(it->second);
			if (k != map.end()) { bc = k->second; has = true; }
		}
		for (auto& p : pts) {
			std::vector<Mat> rows;   // each: 3 x 6N, squared and added
			auto field = [&](int e, int f) { Mat R = Mat::Zero(3, 6 * N); Vec phi = bs[e].at(p); for (int d = 0; d < 3; d++) for (size_t i = 0; i < bs[e].dofs.size(); i++) { R(d, (3 * f + d) * N + bs[e].dofs[i]) = phi[int(i)]; } return R; };
			Mat nn(3, 3), nx(3, 3);
			for (int a = 0; a < 3; a++) for (int b = 0; b < 3; b++) { nn(a, b) = (a == b) - n[a] * n[b]; }
			nx << 0, -n[2], n[1], n[2], 0, -n[0], -n[1], n[0], 0;
			const int e0 = fe.second[0];
			if (fe.second.size() == 2 && !has) {
				if (c.alpha > 0) { for (int f = 0; f < 2; f++) { rows.push_back(nn * (field(e0, f) - field(fe.second[1], f))); } }
			}
			else if (has && bc == BdrCond::SMA) {
				rows.push_back(nn * field(e0, 0) - nx * field(e0, 1));
				if (fe.second.size() == 2) { rows.push_back(nn * field(fe.second[1], 0) + nx * field(fe.second[1], 1)); }
			}
			for (auto& R : rows) { D += R.transpose() * R; }
		}
	}
	auto el = ox::dofElem(fes);
	for (int i = 0; i < N; i++) {
		auto m = c.mats.find(fes.GetMesh()->GetAttribute(el[i]));
		if (m != c.mats.end() && m->second.getConductivity() > 0) { for (int d = 0; d < 3; d++) { D(d * N + i, d * N + i) += 1; } }
	}
	return D;
}

static bool tensor(hx::Kind k) { return k == hx::QUAD || k == hx::HEX || k == hx::SEG; }

int main()
{
	vh::Explorer ex;
	const bool T = ex.thorough();
	struct MeshCase { hx::Kind k; std::array<int, 3> n; double warp; std::vector<int> orders; };
	std::vector<MeshCase> meshes{
		{ hx::SEG, { 4, 0, 0 }, 0.2, { 0, 1, 2, 3, 4 } }, { hx::TRI, { 2, 1, 0 }, 0.2, { 0, 1, 2, 3 } }, { hx::TRI, { 2, 2, 0 }, 0.2, { 1 } }, { hx::QUAD, { 2, 1, 0 }, 0.0, { 0, 1, 2 } }, { hx::QUAD, { 2, 2, 0 }, 0.2, { 1, 2 } },
		{ hx::TET, { 1, 1, 1 }, 0.0, T ? std::vector<int>{ 1, 2 } : std::vector<int>{ 1 } }, { hx::HEX, { 2, 1, 1 }, 0.0, T ? std::vector<int>{ 1, 2 } : std::vector<int>{ 1 } } };
	const std::vector<BdrCond> bcs{ BdrCond::PEC, BdrCond::PMC, BdrCond::SMA };
	struct MatCase { std::string name; std::map<int, Material> mats; bool lossy; };
	std::vector<MatCase> mats{
		{ "vacuum", {}, false },
		{ "two", { { 1, Material(1.0, 1.0, 0.0) }, { 2, Material(3.0, 1.7, 0.0) } }, false },
		{ "lossy", { { 1, Material(2.0, 1.3, 0.6) }, { 2, Material(1.0, 2.0, 0.0) } }, true } };
	const std::map<EvolutionOperatorType, std::string> ops{ { Global, "global" }, { Maxwell, "maxwell" }, { Hesthaven, "hesthaven" } };
	for (auto& mc : meshes) for (int p : mc.orders) {
		const int dim = hx::kindDim(mc.k);
		const bool full = dim == 1 || p == 1 && dim == 2 && (mc.n[1] == 1 || T);
		std::vector<std::map<int, BdrCond>> sets;
		std::vector<int> dig(full ? 2 * dim : dim, 0);
		for (;;) {
			std::map<int, BdrCond> o;
			for (int t = 1; t <= 2 * dim; t++) { o[t] = bcs[dig[full ? t - 1 : (t - 1) / 2]]; }
			sets.push_back(o);
			size_t i = 0;
			while (i < dig.size() && ++dig[i] == 3) { dig[i++] = 0; }
			if (i == dig.size()) { break; }
		}
		for (auto& o : sets) for (int sheet = 0; sheet < 4; sheet++) for (auto& mt : mats) for (double al : { 0.0, 0.3, 1.0 }) for (auto& op : ops) {
			if (mc.k == hx::TET && sheet && mc.n[0] < 2 && !T) { continue; }
			const bool sma = sheet == 3 || std::any_of(o.begin(), o.end(), [](auto& x) { return x.second == BdrCond::SMA; });
			if (op.first == Hesthaven && (mt.name != "vacuum" || dim == 1 || p == 0 || tensor(mc.k))) { continue; }
			if (dim > 1 && al == 0.3 && (p != 1 || op.first == Maxwell)) { continue; }
			if (dim == 3 && op.first == Maxwell && al != 1.0) { continue; }
			if (dim == 2 && op.first == Maxwell && full && (o.at(1) != o.at(2))) { continue; }
			std::string key = vh::str(hx::kindName(mc.k), mc.n[0], mc.n[1], " p=", p, " ", mt.name, " alpha=", al, " sheet=", sheet ? ox::bcName(bcs[sheet - 1]) : "no", " ", op.second);
			for (auto& x : o) { key += vh::str(" ", x.first, ox::bcName(x.second)); }
			if (!ex.begin(key)) { continue; }
			ex.guarded([&] {
				hx::MuteAll mute;
				hx::Scratch scratch;
				const int nx = mc.n[0];
				auto def = hx::box(mc.k, mc.n, HI, mc.warp, nullptr, [&](const V3& q) { return mt.mats.size() == 2 && q[0] > 0.5 ? 2 : 1; });
				// the sheet: every interior face between the two halves (or, in one cell, one diagonal)
				auto fe = def.faceElems();
				def.bdr.clear();
				const double cut = nx > 1 ? 0.5 : 0.45;
				for (auto& f : fe) {
					const V3 cen = def.centre(f.first);
					std::vector<int> v;   // face as listed by its first element
					for (auto& lf : hx::localFaces(mc.k)) { std::vector<int> w; for (int i : lf) { w.push_back(def.elems[f.second[0]][i]); } auto sw = w; std::sort(sw.begin(), sw.end()); if (sw == f.first) { v = w; } }
					if (f.second.size() == 1) { def.bdr.push_back({ v, hx::outerSide(cen, HI, dim) }); continue; }
					const bool a = def.centre(def.elems[f.second[0]])[0] > cut, b = def.centre(def.elems[f.second[1]])[0] > cut;
					if (a != b) { def.bdr.push_back({ v, 2 * dim + 1 }); }
				}
				auto mesh = def.build();
				ox::Cfg c;
				c.order = p; c.alpha = al; c.op = op.first; c.mats = mt.mats; c.outer = o;
				if (sheet) { c.inner[2 * dim + 1] = bcs[sheet - 1]; }
				auto s = ox::solver(mesh, c);
				Mat A = ox::matrix(*s), W = ox::energy(def, *s, c);
				ex.step(A.cols());
				Mat R = W * A;
				Mat Q = 0.5 * (R + R.transpose());
				const double scale = std::max(1e-3, R.cwiseAbs().maxCoeff());
				const bool closed = al == 0.0 && !sma && !mt.lossy;
				if (closed) {
					ex.check(Q.cwiseAbs().maxCoeff() < 1e-9 * scale, "energy is not conserved: rate ", Q.cwiseAbs().maxCoeff(), " for some state (scale ", scale, ")");
					ex.note("conserving configurations");
				}
				else {
					Eigen::SelfAdjointEigenSolver<Mat> es(Q);
					const double top = es.eigenvalues().maxCoeff();
					ex.check(top < 1e-9 * scale, "energy grows at rate ", top, " for some state (scale ", scale, ")");
					if (tensor(mc.k) && mc.warp != 0.0 && dim > 1) { ex.trace(); return; }
					Mat D = losses(def, s->getFES(), c);
					std::vector<int> null;
					for (int i = 0; i < Q.rows(); i++) { if (es.eigenvalues()[i] > -1e-8 * scale) { null.push_back(i); } }
					Mat Nn(Q.rows(), int(null.size()));
					for (size_t i = 0; i < null.size(); i++) { Nn.col(int(i)) = es.eigenvectors().col(null[i]); }
					if (!null.empty()) {
						const double keep = (Nn.transpose() * D * Nn).cwiseAbs().maxCoeff();
						ex.check(keep < 1e-6, "a state with jumps, leaving waves or E in conductors keeps its energy (", keep, ")");
					}
					ex.check(int(null.size()) < Q.rows(), "nothing is dissipated");
					ex.note("dissipating configurations");
				}
				ex.trace(A.cols());
			});
		}
	}
	// curved cells: every single edge (tensor cells: the middle node of every edge, side and cell) bent in turn
	struct Bent { hx::Kind k; std::array<int, 3> n; int p, g; };
	std::vector<Bent> bents{ { hx::TRI, { 1, 1, 0 }, 1, 2 }, { hx::TRI, { 2, 1, 0 }, 2, 2 }, { hx::TRI, { 1, 1, 0 }, 3, 2 }, { hx::TRI, { 1, 1, 0 }, 2, 3 }, { hx::QUAD, { 2, 1, 0 }, 1, 2 }, { hx::QUAD, { 2, 1, 0 }, 2, 2 }, { hx::QUAD, { 1, 1, 0 }, 3, 2 }, { hx::QUAD, { 2, 1, 0 }, 1, 3 }, { hx::QUAD, { 1, 1, 0 }, 2, 3 },
		{ hx::TET, { 1, 1, 1 }, 1, 2 }, { hx::TET, { 1, 1, 1 }, 2, 2 }, { hx::HEX, { 2, 1, 1 }, 1, 2 }, { hx::HEX, { 1, 1, 1 }, 2, 2 } };
	for (auto& b : bents) for (auto bc : bcs) for (double al : { 0.0, 1.0 }) for (auto& op : ops) for (int flat = 0; flat < 2; flat++) {
		const int dim = hx::kindDim(b.k);
		if (op.first == Hesthaven && (tensor(b.k) || b.p < b.g)) { continue; }
		if (op.first == Maxwell && (dim == 3 || b.n[0] == 1)) { continue; }
		auto def = hx::box(b.k, b.n, HI, 0.0);
		auto mesh0 = def.build();
		mesh0.SetCurvature(b.g);
		// the positions that can move
		std::vector<V3> spots;
		for (auto& m : mesh0.geometryNodes()) for (int j = 0; j < m.Width(); j++) {
			V3 q{ 0, 0, 0 };
			for (int d = 0; d < dim; d++) { q[d] = m(d, j); }
			bool have = false;
			for (auto& x : spots) { have = have || hx::norm(x - q) < 1e-9; }
			for (auto& x : def.verts) { have = have || hx::norm(x - q) < 1e-9; }
			if (!have) { spots.push_back(q); }
		}
		if (flat && bc != BdrCond::PEC) { continue; }
		for (int which = flat ? -1 : 0; which < (flat ? 0 : int(spots.size())); which++) {
			if (dim == 3 && !T && which >= 0 && (bc != BdrCond::PEC || (b.p > 1 && which % 3))) { continue; }
			if (!ex.begin(vh::str("bent ", hx::kindName(b.k), b.n[0], " p=", b.p, " geometry ", b.g, " node ", which, " ", ox::bcName(bc), " alpha=", al, " ", op.second))) { continue; }
			ex.guarded([&] {
				hx::MuteAll mute;
				hx::Scratch scratch;
				auto mesh = def.build();
				mesh.SetCurvature(b.g);
				auto nodes = mesh.geometryNodes();
				for (size_t k = 0; k < spots.size(); k++) {
					if (which >= 0 && int(k) != which) { continue; }   // -1: all of them
					V3 off{ 0, 0, 0 };
					for (int d = 0; d < dim; d++) { off[d] = (which < 0 ? 0.03 : 0.06) * std::sin(1.0 + 2.1 * d + 1.7 * double(k)); }
					for (auto& m : nodes) for (int j = 0; j < m.Width(); j++) {
						V3 q{ 0, 0, 0 };
						for (int d = 0; d < dim; d++) { q[d] = m(d, j); }
						if (hx::norm(q - spots[k]) < 1e-9) { for (int d = 0; d < dim; d++) { m(d, j) += off[d]; } }
					}
				}
				mesh.setGeometryNodes(b.g, nodes);
				ox::Cfg c;
				c.order = b.p; c.alpha = al; c.op = op.first;
				for (int t = 1; t <= 2 * dim; t++) { c.outer[t] = bc; }
				auto s = ox::solver(mesh, c);
				Mat A = ox::matrix(*s), W = ox::energy(def, *s, c);
				ex.step(A.cols());
				Mat R = W * A, Q = 0.5 * (R + R.transpose());
				const double scale = std::max(1e-3, R.cwiseAbs().maxCoeff());
				if (al == 0.0 && bc != BdrCond::SMA) { ex.check(Q.cwiseAbs().maxCoeff() < 1e-9 * scale, "energy is not conserved: rate ", Q.cwiseAbs().maxCoeff(), " for some state (scale ", scale, ")"); }
				else { Eigen::SelfAdjointEigenSolver<Mat> es(Q); ex.check(es.eigenvalues().maxCoeff() < 1e-9 * scale, "energy grows at rate ", es.eigenvalues().maxCoeff(), " for some state (scale ", scale, ")"); }
				ex.note("curved configurations");
				ex.trace(A.cols());
			});
		}
	}
	return ex.finish();
}
