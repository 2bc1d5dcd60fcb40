// C37: the one-dimensional model inside a thin panel is the declared stack of layers, its surface
// values are those of the panel's two surfaces, and every advance covers the requested interval.
//
// The panel model is opaque: it is observed through the states it is given and gives back. For every
// stack the harness writes down its own mesh (ghost cells, layers in order, ghost cells), takes the
// spatial operator on it as a matrix, and advances every unit state with its own implicit
// Runge-Kutta step. The panel, advanced over the same interval, must give the same map.
#include "vh.hpp"
#include "hx.hpp"
#include "ox.hpp"
#include "solver/SolverExtension.h"

using namespace maxwell;
using ox::Mat; using ox::Vec; using hx::V3;

namespace {

struct L { double width; int cells; int order; int mat; double nd; };
using Stack = std::vector<L>;

Material material(int m)
{
	switch (m) {
	case 0: return Material(1.0, 1.0, 0.0);
	case 1: return Material(6.0, 1.0, 0.0);
	case 2: return Material(2.0, 3.0, 0.7);
	default: return Material(1.0, 1.0, 400.0);
	}
}
SGBCProperties props(const Stack& s, int left = 0, int right = 0)
{
	static const BdrCond bc[] = { BdrCond::SMA, BdrCond::PEC, BdrCond::PMC, BdrCond::SMA };
	SGBCProperties p;
	p.geom_tags = { 7 };
	for (auto& l : s) {
		SGBCLayer y(material(l.mat), l.width);
		y.num_of_segments = l.cells; y.order = l.order; y.n_skin_depths = l.nd;
		p.layers.push_back(y);
	}
	if (left) { p.sgbc_bdr_info.first.isOn = true; p.sgbc_bdr_info.first.bdrCond = bc[left]; }
	if (right) { p.sgbc_bdr_info.second.isOn = true; p.sgbc_bdr_info.second.bdrCond = bc[right]; }
	return p;
}
std::string show(const Stack& s)
{
	std::string r;
	for (auto& l : s) { r += vh::str("[w", l.width, " n", l.cells, " p", l.order, " m", l.mat, l.nd ? vh::str(" d", l.nd) : std::string(), "]"); }
	return r;
}
int maxOrder(const Stack& s) { int o = 1; for (auto& l : s) { o = std::max(o, l.order); } return o; }
int cells(const Stack& s) { int n = 0; for (auto& l : s) { n += l.cells; } return n; }
double width(const Stack& s) { double w = 0; for (auto& l : s) { w += l.width; } return w; }

// The declared stack, g ghost cells on each side, as a mesh of this harness.
hx::MeshDef declared(const Stack& s, int g)
{
	hx::MeshDef m;
	m.kind = hx::SEG;
	const double gw = width(s) / cells(s);
	std::vector<double> x{ 0.0 };
	std::vector<int> a;
	for (int i = 0; i < g; i++) { x.push_back(gw * (i + 1)); a.push_back(int(s.size()) + 1); }
	double x0 = x.back();
	for (size_t l = 0; l < s.size(); l++) {
		for (int i = 1; i <= s[l].cells; i++) { x.push_back(x0 + s[l].width * i / s[l].cells); a.push_back(int(l) + 1); }
		x0 = x.back();
	}
	for (int i = 0; i < g; i++) { x.push_back(x0 + gw * (i + 1)); a.push_back(int(s.size()) + 1); }
	for (double v : x) { m.verts.push_back({ v, 0, 0 }); }
	for (size_t i = 0; i + 1 < x.size(); i++) { m.elems.push_back({ int(i), int(i) + 1 }); }
	m.attrs = a;
	m.bdr = { { { 0 }, 1 }, { { int(x.size()) - 1 }, 2 }, { { g }, 3 }, { { g + cells(s) }, 4 } };
	return m;
}
Mat spatial(const Stack& s, int g, int left, int right)
{
	static const BdrCond bc[] = { BdrCond::SMA, BdrCond::PEC, BdrCond::PMC, BdrCond::SMA };
	ox::Cfg c;
	c.order = maxOrder(s);
	c.outer = { { 1, BdrCond::SMA }, { 2, BdrCond::SMA } };
	if (left) { c.inner[3] = bc[left]; }
	if (right) { c.inner[4] = bc[right]; }
	for (size_t l = 0; l < s.size(); l++) { c.mats.insert({ int(l) + 1, material(s[l].mat) }); }
	c.mats.insert({ int(s.size()) + 1, Material(1.0, 1.0, 0.0) });
	auto mesh = declared(s, g).build();
	auto sol = ox::solver(mesh, c);
	return ox::matrix(*sol);
}
// Third-order, L-stable, singly diagonal implicit Runge-Kutta step (Alexander 1977).
struct Advance {
	const Mat& A;
	double dt, g = 0.435866521508458999416019, tau = 0.5 * (1 + g), b1 = -0.25 * (6 * g * g - 16 * g + 1), b2 = 0.25 * (6 * g * g - 20 * g + 5);
	Eigen::PartialPivLU<Mat> lu;
	Advance(const Mat& A_, double dt_) : A(A_), dt(dt_), lu(Mat::Identity(A_.rows(), A_.rows()) - dt_ * g * A_) {}
	Vec operator*(const Vec& x) const
	{
		const Vec k1 = lu.solve(A * x);
		const Vec k2 = lu.solve(A * (x + dt * (tau - g) * k1));
		const Vec k3 = lu.solve(A * (x + dt * b1 * k1 + dt * b2 * k2));
		return x + dt * (b1 * k1 + b2 * k2 + g * k3);
	}
};
Vec advance(SGBCWrapper& w, SGBCState& st, const Vec& x, double t, double dt)
{
	for (int i = 0; i < x.size(); i++) { st.fields_state[i] = x[i]; }
	w.loadState(st);
	w.solve(t, dt);
	st.fields_state = std::nan("");
	w.saveState(st);
	Vec r(x.size());
	for (int i = 0; i < x.size(); i++) { r[i] = st.fields_state[i]; }
	return r;
}
double mix(int i) { return std::sin(1.0 + 0.7310585 * i) + 0.25 * std::cos(2.1 * i * i); }
Vec generic(int n, int salt = 0) { Vec v(n); for (int i = 0; i < n; i++) { v[i] = mix(i + 1000 * salt); } return v; }

struct Panel {
	SGBCProperties p;
	std::unique_ptr<SGBCWrapper> w;
	SGBCState st;
	int N = 0, g = 0, n = 0;
};
std::unique_ptr<Panel> panel(vh::Explorer& ex, const Stack& s, int left = 0, int right = 0)
{
	auto r = std::make_unique<Panel>();
	hx::MuteAll mute;
	r->p = props(s, left, right);
	r->w = SGBCWrapper::buildSGBCWrapper(r->p);
	const int q = maxOrder(s) + 1;
	r->n = r->w->getStateSize();
	r->N = r->w->getLocalFieldSize();
	r->st.global_pair = { 0, 1 };
	r->st.element_pair = { 0, 1 };
	r->st.init(r->n);
	if (!ex.check(r->n == 6 * r->N, "state of ", r->n, " values for fields of ", r->N)) { return nullptr; }
	const int ghost = r->N - q * cells(s);
	if (!ex.check(ghost > 0 && ghost % (2 * q) == 0, r->N, " nodes are not the ", cells(s), " declared cells of ", q, " nodes with as many ghost cells on both sides")) { return nullptr; }
	r->g = ghost / (2 * q);
	ex.check(r->w->getLeftInterfaceIndex() == r->g * q, "left surface read at node ", r->w->getLeftInterfaceIndex(), ", first node of the panel is ", r->g * q);
	ex.check(r->w->getRightInterfaceIndex() == r->N - 1 - r->g * q, "right surface read at node ", r->w->getRightInterfaceIndex(), ", last node of the panel is ", r->N - 1 - r->g * q);
	return r;
}
void stepBound(vh::Explorer& ex, const Stack& s, double rec)
{
	double lim = 1e300, strict = 1e300;
	for (auto& l : s) {
		const auto m = material(l.mat);
		const double c = 0.5 * l.width / l.cells * std::sqrt(m.getPermittivity() * m.getPermeability());
		strict = std::min(strict, c);
		lim = std::min(lim, c * (l.nd > 3 ? 50.0 : 1.0));
	}
	ex.check(rec > 0 && rec <= lim * (1 + 1e-9), "recommended step ", rec, " above the limit ", lim);
	(void)strict;
}

// Every unit state (or, in large stacks, generic ones) advanced over every interval.
void dynamics(vh::Explorer& ex, const Stack& s, int left, int right, bool all)
{
	auto pn = panel(ex, s, left, right);
	if (!pn) { return; }
	auto& w = *pn->w;
	const double rec = w.getRecommendedDt();
	stepBound(ex, s, rec);
	hx::MuteAll mute;
	const Mat A = spatial(s, pn->g, left, right);
	if (!ex.check(A.rows() == pn->n, "state of ", pn->n, " values, ", A.rows(), " expected")) { return; }
	const double h = width(s) / cells(s);
	for (double k : { 0.02, 0.5, 7.0 }) {
		const double dt = k * h;
		const Advance S(A, dt);
		for (double t : { 0.0, 1000.0 * dt }) {
			auto one = [&](const Vec& x, const std::string& what) {
				const Vec y = advance(w, pn->st, x, t, dt), z = S * x;
				const double err = (y - z).cwiseAbs().maxCoeff();
				ex.step(); ex.trace();
				ex.state(vh::str(dt, "@", t, what));
				return ex.check(err <= 1e-8 * (1 + z.cwiseAbs().maxCoeff()), "advanced by ", dt, " at ", t, " from ", what, ": off by ", err);
			};
			if (all && t == 0) { for (int j = 0; j < pn->n; j++) { if (!one(Vec::Unit(pn->n, j), vh::str("e", j))) { return; } } }
			else { for (int k2 = 0; k2 < 2; k2++) { if (!one(generic(pn->n, k2), vh::str("g", k2))) { return; } } }
		}
	}
	// nothing to cover, nothing changes
	const Vec x = generic(pn->n, 3);
	ex.check((advance(w, pn->st, x, 0.3, 0.0) - x).norm() == 0, "an empty interval changed the state");
	ex.step();
}

// Interleaved use of one panel model by several faces and interval lengths.
void histories(vh::Explorer& ex, const Stack& s, int depth)
{
	auto pn = panel(ex, s);
	if (!pn) { return; }
	hx::MuteAll mute;
	auto& w = *pn->w;
	const Mat A = spatial(s, pn->g, 0, 0);
	const double h = width(s) / cells(s);
	const double dts[] = { 0.3 * h, 1.1 * h };
	const Advance S[2] = { Advance(A, dts[0]), Advance(A, dts[1]) };
	std::function<void(std::vector<int>)> go = [&](std::vector<int> word) {
		if (ex.failed()) { return; }
		if (!word.empty()) {
			SGBCState st[2];
			Vec ref[2];
			for (int f = 0; f < 2; f++) {
				st[f].global_pair = { 2 * f, 2 * f + 1 };
				st[f].init(pn->n);
				ref[f] = generic(pn->n, 5 + f);
				for (int i = 0; i < pn->n; i++) { st[f].fields_state[i] = ref[f][i]; }
			}
			double t[2] = { 0, 0 };
			std::string sig;
			for (int o : word) {
				const int f = o / 2, d = o % 2;
				w.loadState(st[f]);
				w.solve(t[f], dts[d]);
				w.saveState(st[f]);
				t[f] += dts[d];
				ref[f] = S[d] * ref[f];
				sig += char('0' + o);
				ex.step();
			}
			ex.state("h" + sig);
			ex.trace();
			for (int f = 0; f < 2; f++) {
				double e = 0;
				for (int i = 0; i < pn->n; i++) { e = std::max(e, std::abs(st[f].fields_state[i] - ref[f][i])); if (std::isnan(st[f].fields_state[i])) { e = 1e300; } }
				ex.check(e <= 1e-8 * (1 + ref[f].cwiseAbs().maxCoeff()), "after the advances ", sig, " face ", f, " is off by ", e);
			}
		}
		if (int(word.size()) < depth) { for (int o = 0; o < 4; o++) { auto n = word; n.push_back(o); go(n); } }
	};
	go({});
}

// Surface values read and written, through every rotation of the face.
std::vector<std::array<double, 9>> rotations()
{
	std::vector<std::array<double, 9>> r;
	std::vector<int> p{ 0, 1, 2 };
	do {
		for (int sg = 0; sg < 8; sg++) {
			std::array<double, 9> m{};
			for (int i = 0; i < 3; i++) { m[3 * i + p[i]] = (sg >> i & 1) ? -1 : 1; }
			const double det = m[0] * (m[4] * m[8] - m[5] * m[7]) - m[1] * (m[3] * m[8] - m[5] * m[6]) + m[2] * (m[3] * m[7] - m[4] * m[6]);
			if (det > 0) { r.push_back(m); }
		}
	} while (std::next_permutation(p.begin(), p.end()));
	for (V3 nrm : { V3{ 1, 2, 2 }, V3{ -2, 1, 0.5 }, V3{ 0, 3, -4 } }) for (int dim : { 2, 3 }) {
		if (dim == 2) { nrm[2] = 0; }
		mfem::Vector v(dim);
		for (int d = 0; d < dim; d++) { v[d] = nrm[d]; }
		std::array<double, 9> m{};
		buildFaceRotationMatrix(v, dim, m.data());
		r.push_back(m);
	}
	return r;
}
void surfaces(vh::Explorer& ex, const Stack& s)
{
	auto pn = panel(ex, s);
	if (!pn) { return; }
	hx::MuteAll mute;
	auto& w = *pn->w;
	const int N = pn->N, q = maxOrder(s) + 1, gd = pn->g * q, n = pn->n;
	// outer fields of a small vacuum domain, for the variants that read a fields object
	ox::Cfg c;
	c.order = 1;
	c.outer = { { 1, BdrCond::SMA }, { 2, BdrCond::SMA } };
	auto mesh = hx::box(hx::SEG, { 3, 0, 0 }).build();
	auto outer = ox::solver(mesh, c);
	const int M = outer->getFES().GetNDofs();
	for (int f = 0; f < 2; f++) for (int d = 0; d < 3; d++) for (int i = 0; i < M; i++) { outer->getFields().get(f ? H : E, Direction(d))[i] = mix(7 * i + 3 * f + d); }
	mfem::Vector in(6 * M);
	for (int i = 0; i < 6 * M; i++) { in[i] = outer->getFields().allDOFs()[i]; }
	const Vec x = generic(n, 9);
	const auto rots = rotations();
	for (size_t ri = 0; ri < rots.size(); ri++) for (int a = 0; a < M; a++) for (int b = -1; b < M; b++) {
		if (a == b) { continue; }
		SGBCState st;
		st.init(n);
		st.global_pair = { a, b };
		st.element_pair = { a / 2, b < 0 ? -1 : b / 2 };
		std::memcpy(st.rot, rots[ri].data(), sizeof st.rot);
		for (int i = 0; i < n; i++) { st.fields_state[i] = x[i]; }
		const double* R = st.rot;
		// writing: three routes
		for (int route = 0; route < 3; route++) {
			double gl[12];
			for (int side = 0; side < 2; side++) for (int f = 0; f < 2; f++) for (int d = 0; d < 3; d++) {
				double v = 0;
				const int dof = side ? b : a;
				if (dof >= 0) { for (int k = 0; k < 3; k++) { v += R[3 * d + k] * in[(3 * f + k) * M + dof]; } }
				gl[6 * side + 3 * f + d] = v;
			}
			const double al = 0.375;
			for (int i = 0; i < 12; i++) { st.ghost_old[i] = mix(50 + i); st.ghost_new[i] = mix(90 + i); if (route == 2) { gl[i] = (1 - al) * st.ghost_old[i] + al * st.ghost_new[i]; } }
			w.loadState(st);
			if (route == 0) { w.updateFieldsWithGlobal(outer->getFields(), st); }
			else if (route == 1) { w.updateFieldsWithGlobalVector(in, M, st); }
			else { w.updateFieldsWithInterpolatedGhost(al, st); }
			SGBCState o;
			o.init(n);
			w.saveState(o);
			ex.step();
			for (int k = 0; k < 6; k++) for (int i = 0; i < N; i++) {
				const double v = o.fields_state[k * N + i];
				double e = x[k * N + i];
				if (i < gd) { e = gl[k]; }
				else if (i >= N - gd && b >= 0) { e = gl[6 + k]; }
				if (!ex.check(std::abs(v - e) <= 1e-12, "route ", route, " rotation ", ri, " nodes ", a, ",", b, ": component ", k, " node ", i, " is ", v, ", expected ", e)) { return; }
			}
		}
		// reading
		auto surface = [&](int side, int k) {
			const int idx = side ? N - 1 - gd : gd, f = k / 3, d = k % 3;
			double v = 0;
			for (int j = 0; j < 3; j++) { v += R[3 * j + d] * x[(3 * f + j) * N + idx]; }
			return v;
		};
		mfem::Vector vec(6 * M);
		vec = -77.0;
		w.fillGlobalSGBCVec(st, vec, M);
		ex.step();
		for (int k = 0; k < 6; k++) for (int i = 0; i < M; i++) {
			const double e = i == a ? surface(0, k) : i == b ? surface(1, k) : -77.0;
			if (!ex.check(std::abs(vec[k * M + i] - e) <= 1e-12, "rotation ", ri, " nodes ", a, ",", b, ": outer component ", k, " node ", i, " is ", vec[k * M + i], ", expected ", e)) { return; }
		}
		// the same through a list of sub-domain nodes in which either may be missing
		for (int cut = 0; cut < 4; cut++) {
			mfem::Array<int> list;
			for (int i = M - 1; i >= 0; i--) { if (!((cut & 1) && i == a) && !((cut & 2) && i == b)) { list.Append(i); } }
			SGBCHelperFields out;
			for (int f = 0; f < 2; f++) for (int d = 0; d < 3; d++) { out[f][d].SetSize(M); out[f][d] = -77.0; }
			w.getSGBCFields(list, st, out);
			ex.step();
			if (cut & 1) { continue; }
			for (int k = 0; k < 6; k++) for (int i = 0; i < list.Size(); i++) {
				const double v = out[k / 3][k % 3][i];
				const double e = list[i] == a ? surface(0, k) : list[i] == b ? surface(1, k) : -77.0;
				if (!ex.check(std::abs(v - e) <= 1e-12, "rotation ", ri, " nodes ", a, ",", b, " list ", cut, ": component ", k, " at ", list[i], " is ", v, ", expected ", e)) { return; }
			}
		}
		ex.state(vh::str("r", ri, ":", a, ",", b));
		ex.trace();
	}
	// rotations are proper and take the normal to the first axis
	for (auto& m : rots) { for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { double d = 0; for (int k = 0; k < 3; k++) { d += m[3 * i + k] * m[3 * j + k]; } ex.check(std::abs(d - (i == j)) < 1e-12, "rotation rows ", i, ",", j); } }
}

} // namespace

int main()
{
	vh::Explorer ex;
	const bool deep = ex.thorough();

	// one layer: full grid, every unit state
	std::vector<L> grid;
	for (double w : { 1e-7, 2e-3, 0.8 }) for (int n : { 1, 2, 5 }) for (int o : { 1, 2, 3 }) for (int m = 0; m < 4; m++) { grid.push_back({ w, n, o, m, 0 }); }
	for (auto& l : grid) { if (ex.begin("one " + show({ l }))) { ex.guarded([&] { dynamics(ex, { l }, 0, 0, deep || l.cells * l.order <= 5); }); } }
	// very thin panels
	for (double w : { 1e-8, 1e-9, 1e-10, 1e-12 }) for (int n : { 1, 10 }) { const Stack s{ { w, n, 1, 2, 0 } }; if (ex.begin("thin " + show(s))) { ex.guarded([&] { dynamics(ex, s, 0, 0, false); }); } }
	// two layers: every pair of a coarser grid
	std::vector<L> g2;
	for (double w : { 2e-3, 0.8 }) for (int n : { 1, 3 }) for (int o : { 1, 2 }) for (int m : { 0, 1, 2 }) { g2.push_back({ w, n, o, m, 0 }); }
	for (auto& a : g2) for (auto& b : g2) { if (ex.begin("two " + show({ a, b }))) { ex.guarded([&] { dynamics(ex, { a, b }, 0, 0, false); }); } }
	// three layers
	std::vector<L> g3;
	for (double w : { 0.3, 1.1 }) for (int n : { 1, 2 }) for (int m : { 1, 2 }) { g3.push_back({ w, n, 1, m, 0 }); }
	g3.push_back({ 0.5, 3, 2, 0, 0 });
	for (auto& a : g3) for (auto& b : g3) for (auto& c : g3) { if (ex.begin("three " + show({ a, b, c }))) { ex.guarded([&] { dynamics(ex, { a, b, c }, 0, 0, deep); }); } }
	// surface conditions of the panel itself
	for (int l = 0; l < 3; l++) for (int r = 0; r < 3; r++) for (int o : { 1, 2 }) for (int m : { 1, 2 }) {
		const Stack s{ { 0.4, 2, o, m, 0 }, { 0.9, 1, 1, 0, 0 } };
		if (ex.begin(vh::str("conditions ", l, r, " ", show(s)))) { ex.guarded([&] { dynamics(ex, s, l, r, true); }); }
	}
	// recommended step over layers many skin depths thick: all pairs and triples
	std::vector<L> gs;
	for (double nd : { 0.0, 2.0, 3.0, 3.5, 6.0, 7.5, 40.0 }) for (int m : { 0, 1, 3 }) for (int n : { 1, 4 }) { gs.push_back({ 1e-3 * (1 + n), n, 1, m, nd }); }
	for (auto& a : gs) {
		if (ex.begin("step " + show({ a }))) { ex.guarded([&] { auto p = panel(ex, { a }); if (p) { stepBound(ex, { a }, p->w->getRecommendedDt()); ex.step(); } }); }
		for (auto& b : gs) { const Stack s{ a, b }; if (ex.begin("step " + show(s))) { ex.guarded([&] { auto p = panel(ex, s); if (p) { stepBound(ex, s, p->w->getRecommendedDt()); ex.step(); } }); } }
	}
	// histories
	for (int o : { 1, 2 }) for (int m = 0; m < 4; m++) {
		const Stack s{ { 0.7, 2, o, m, 0 }, { 0.2, 1, 1, 1, 0 } };
		if (ex.begin("history " + show(s))) { ex.guarded([&] { histories(ex, s, deep ? 6 : 4); }); }
	}
	// surfaces
	for (int o : { 1, 2, 4 }) for (int n : { 1, 2 }) for (int layers : { 1, 2, 3 }) {
		Stack s;
		for (int l = 0; l < layers; l++) { s.push_back({ 0.3 + l, n, o, l, 0 }); }
		if (ex.begin("surfaces " + show(s))) { ex.guarded([&] { surfaces(ex, s); }); }
	}
	return ex.finish();
}
