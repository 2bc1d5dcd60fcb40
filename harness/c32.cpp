// C32: duality, locality and isolation of boundary conditions and interior sheets.
#include "ox.hpp"

using namespace maxwell;
using hx::V3;
using ox::Mat;
using BCs = std::map<int, BdrCond>;

static const V3 HI{ 1.0, 0.8, 0.6 };
static vh::Explorer ex;
static const std::vector<BdrCond> bcs{ BdrCond::PEC, BdrCond::PMC, BdrCond::SMA };

static BdrCond dual(BdrCond c) { return c == BdrCond::PEC ? BdrCond::PMC : (c == BdrCond::PMC ? BdrCond::PEC : c); }
static BCs dual(BCs m) { for (auto& x : m) { x.second = dual(x.second); } return m; }
static std::string show(const BCs& m) { std::string s; for (auto& x : m) { s += vh::str(" ", x.first, ox::bcName(x.second)); } return s; }

struct Op { Mat A; std::vector<int> elem; std::vector<V3> pos; };
static Op op(const hx::MeshDef& def, const ox::Cfg& c)
{
	auto mesh = def.build();
	auto s = ox::solver(mesh, c);
	Op r{ ox::matrix(*s), ox::dofElem(s->getFES()), hx::nodes(s->getFES()) };
	ex.step(r.A.cols());
	return r;
}
static double scale(const Mat& A) { return std::max(1.0, A.cwiseAbs().maxCoeff()); }
static bool equal(const Mat& a, const Mat& b, const std::string& what)
{
	if (!ex.check(a.rows() == b.rows() && a.cols() == b.cols(), what, ": sizes differ")) { return false; }
	Eigen::Index i = 0, j = 0;
	Mat d = (a - b).cwiseAbs();
	const double m = d.maxCoeff(&i, &j);
	if (!ex.check(std::isfinite(a.sum()) && std::isfinite(b.sum()) && m < 1e-9 * scale(a), what, ": unit state ", j, " acts on unknown ", i, " as ", b(i, j), " instead of ", a(i, j))) { return false; }
	ex.trace(a.cols());
	return true;
}

struct Part { hx::MeshDef def; std::vector<int> elems; };
// The chosen elements alone, cut faces tagged `cut`.
static Part side(const hx::MeshDef& def, unsigned set, bool in, int cut)
{
	Part p;
	p.def.kind = def.kind;
	std::map<int, int> vid;
	for (size_t e = 0; e < def.elems.size(); e++) {
		if (bool(set >> e & 1) != in) { continue; }
		p.elems.push_back(int(e));
		std::vector<int> v;
		for (int i : def.elems[e]) { if (!vid.count(i)) { vid[i] = int(p.def.verts.size()); p.def.verts.push_back(def.verts[i]); } v.push_back(vid[i]); }
		p.def.elems.push_back(v);
		p.def.attrs.push_back(def.attrs[e]);
	}
	const int dim = def.dim();
	p.def.tagFaces([&](const V3& c, bool inner) { if (inner) { return 0; } const int t = hx::outerSide(c, HI, dim); return t ? t : cut; });
	return p;
}

int main()
{
	const bool T = ex.thorough();
	struct Case { hx::Kind k; std::array<int, 3> n; double warp; int p; };
	std::vector<Case> meshes{ { hx::SEG, { 4, 0, 0 }, 0.2, 2 }, { hx::TRI, { 2, 1, 0 }, 0.0, 2 }, { hx::TRI, { 2, 2, 0 }, 0.2, 1 }, { hx::QUAD, { 2, 2, 0 }, 0.2, 1 }, { hx::TET, { 1, 1, 1 }, 0.0, 1 }, { hx::HEX, { 2, 2, 1 }, 0.0, 1 } };
	if (T) { meshes.push_back({ hx::SEG, { 6, 0, 0 }, 0.2, 3 }); meshes.push_back({ hx::TRI, { 2, 1, 0 }, 0.0, 3 }); }
	const std::vector<EvolutionOperatorType> forms{ Global, Maxwell, Hesthaven };
	auto fname = [](EvolutionOperatorType o) { return o == Global ? "global" : (o == Maxwell ? "separate" : "nodal"); };
	for (auto& mc : meshes) for (auto form : forms) {
		const int dim = hx::kindDim(mc.k);
		if (form == Hesthaven && !(mc.k == hx::TRI || mc.k == hx::TET)) { continue; }
		const auto base = hx::box(mc.k, mc.n, HI, mc.warp);
		const auto fe = base.faceElems();
		const int n = int(base.elems.size());
		const std::string pre = vh::str(hx::kindName(mc.k), mc.n[0], mc.n[1], " p=", mc.p, " ", fname(form), " ");
		std::vector<std::vector<int>> inner, outer;
		for (auto& f : fe) { (f.second.size() == 2 ? inner : outer).push_back(f.first); }

		// Duality: every assignment of the sides, sheet through the middle, two materials exchanged.
		std::vector<int> dig(dim == 3 ? 3 : 2 * dim, 0);
		for (;;) {
			BCs o;
			for (int t = 1; t <= 2 * dim; t++) { o[t] = bcs[dig[dim == 3 ? (t - 1) / 2 : t - 1]]; }
			for (int sheet = 0; sheet < 4; sheet++) for (double al : { 0.0, 0.5, 1.0 }) for (bool mat : { false, true }) {
				if (mat && form == Hesthaven) { continue; }
				if (dim > 1 && al == 0.5 && sheet) { continue; }
				if (ex.begin(vh::str(pre, "dual alpha=", al, " sheet=", sheet ? ox::bcName(bcs[sheet - 1]) : "no", mat ? " materials" : "", show(o)))) {
					ex.guarded([&] {
						hx::MuteAll mute;
						hx::Scratch scratch;
						auto def = hx::box(mc.k, mc.n, HI, mc.warp, nullptr, [](const V3& c) { return c[0] > 0.5 ? 2 : 1; });
						def.tagFaces([&](const V3& c, bool in) {
							if (!in) { return hx::outerSide(c, HI, dim); }
							for (auto& f : fe) { if (f.second.size() == 2 && hx::norm(base.centre(f.first) - c) < 1e-12) { return (base.centre(base.elems[f.second[0]])[0] > 0.5) != (base.centre(base.elems[f.second[1]])[0] > 0.5) ? 2 * dim + 1 : 0; } }
							return 0;
						});
						bool any = false;
						for (auto& b : def.bdr) { any |= b.tag == 2 * dim + 1; }
						ox::Cfg c;
						c.op = form; c.order = mc.p; c.alpha = al; c.outer = o;
						if (mat) { c.mats = { { 1, Material(2.0, 1.0, 0.0) }, { 2, Material(1.5, 3.0, 0.0) } }; }
						if (sheet && any) { c.inner[2 * dim + 1] = bcs[sheet - 1]; }
						auto d = c;
						d.outer = dual(c.outer); d.inner = dual(c.inner);
						if (mat) { d.mats = { { 1, Material(1.0, 2.0, 0.0) }, { 2, Material(3.0, 1.5, 0.0) } }; }
						const Mat A = op(def, c).A, B = op(def, d).A;
						// (E,H) -> (H,-E)
						const int h = int(A.rows()) / 2;
						Mat C(2 * h, 2 * h);
						C.topLeftCorner(h, h) = B.bottomRightCorner(h, h);
						C.bottomRightCorner(h, h) = B.topLeftCorner(h, h);
						C.topRightCorner(h, h) = -B.bottomLeftCorner(h, h);
						C.bottomLeftCorner(h, h) = -B.topRightCorner(h, h);
						equal(A, C, "exchanged conductors and fields");
					});
				}
			}
			size_t i = 0;
			while (i < dig.size() && ++dig[i] == 3) { dig[i++] = 0; }
			if (i == dig.size()) { break; }
		}

		// Locality: every face has a tag of its own; one condition is set or changed at a time.
		for (double al : { 0.0, 1.0 }) for (auto bg : bcs) for (size_t f = 0; f < inner.size() + outer.size(); f++) {
			if (dim == 3 && bg == BdrCond::PMC) { continue; }
			const bool in = f < inner.size();
			const auto& face = in ? inner[f] : outer[f - inner.size()];
			for (int from = in ? -1 : 0; from < 1; from++) for (int to = 0; to < 3; to++) {
				if (!in && bcs[to] == bg) { continue; }
				if (in && from == 0) { continue; }
				if (!ex.begin(vh::str(pre, "local alpha=", al, " others ", ox::bcName(bg), " face ", f, " ", in ? "no" : ox::bcName(bg), "->", ox::bcName(bcs[to])))) { continue; }
				ex.guarded([&] {
					hx::MuteAll mute;
					hx::Scratch scratch;
					auto def = base;
					def.bdr.clear();
					int tag = 0;
					ox::Cfg c;
					c.op = form; c.order = mc.p; c.alpha = al;
					int mine = 0;
					for (auto& x : outer) { def.bdr.push_back({ x, ++tag }); c.outer[tag] = bg; if (x == face) { mine = tag; } }
					for (auto& x : inner) { def.bdr.push_back({ x, ++tag }); if (x == face) { mine = tag; } }
					const auto a = op(def, c);
					if (in) { c.inner[mine] = bcs[to]; } else { c.outer[mine] = bcs[to]; }
					const auto b = op(def, c);
					std::set<int> touch(fe.at(face).begin(), fe.at(face).end());
					const int N = int(a.elem.size());
					std::vector<char> act(N, 0);
					for (int i = 0; i < N; i++) { act[i] = touch.count(a.elem[i]) != 0; }
					double far = 0, near = 0;
					for (int i = 0; i < 6 * N; i++) for (int j = 0; j < 6 * N; j++) {
						const double d = std::abs(a.A(i, j) - b.A(i, j));
						(act[i % N] && act[j % N] ? near : far) = std::max(act[i % N] && act[j % N] ? near : far, std::isfinite(d) ? d : 1e300);
					}
					ex.check(far < 1e-9 * scale(a.A), "the condition of a face changes elements that do not touch it, by ", far);
					ex.check(near > 1e-6, "the condition of a face has no effect");
					ex.trace(6 * N);
				});
			}
		}

		// Isolation: every way of separating the elements by a closed sheet.
		// (two: of both conductors, face by face in turn)
		for (unsigned set = 1; set < (1u << (n - 1)); set++) for (auto bc : bcs) for (int two = 0; two < 2; two++) for (double al : { 0.0, 1.0 }) {
			const auto obc = bcs[(set + (al > 0)) % 3];
			if (two && bc == BdrCond::SMA) { continue; }
			const auto other = bc == BdrCond::PEC ? BdrCond::PMC : BdrCond::PEC;
			if (!ex.begin(vh::str(pre, "split ", set, " ", ox::bcName(bc), two ? vh::str(" and ", ox::bcName(other)) : std::string(), " alpha=", al, " outer ", ox::bcName(obc)))) { continue; }
			ex.guarded([&] {
				hx::MuteAll mute;
				hx::Scratch scratch;
				const int cut = 2 * dim + 1;
				auto def = base;
				std::vector<V3> cuts;
				for (auto& f : inner) { auto& e = fe.at(f); if ((set >> e[0] & 1) != (set >> e[1] & 1)) { def.bdr.push_back({ f, cut + (two ? int(cuts.size()) % 2 : 0) }); cuts.push_back(def.centre(f)); } }
				if (two && cuts.size() < 2) { return; }
				auto second = [&](const V3& c) { for (size_t i = 0; i < cuts.size(); i++) { if (hx::norm(c - cuts[i]) < 1e-9) { return two && i % 2 == 1; } } return false; };
				ox::Cfg c;
				c.op = form; c.order = mc.p; c.alpha = al;
				for (int t = 1; t <= 2 * dim; t++) { c.outer[t] = obc; }
				auto whole = c;
				whole.inner[cut] = bc;
				if (two) { whole.inner[cut + 1] = other; }
				const auto w = op(def, whole);
				const int N = int(w.elem.size());
				double leak = 0;
				for (int i = 0; i < 6 * N; i++) for (int j = 0; j < 6 * N; j++) { if ((set >> w.elem[i % N] & 1) != (set >> w.elem[j % N] & 1)) { leak = std::max(leak, std::abs(w.A(i, j))); } }
				if (bc != BdrCond::SMA && !ex.check(leak < 1e-9 * scale(w.A), "the sheet lets ", leak, " through")) { return; }
				if (bc == BdrCond::SMA) { return; }
				for (bool in : { false, true }) {
					auto p = side(base, set, in, cut);
					auto alone = c;
					std::set<int> used;
					for (auto& b : p.def.bdr) { if (b.tag == cut && second(p.def.centre(b.v))) { b.tag = cut + 1; } used.insert(b.tag); }
					alone.outer.clear();
					for (int t : used) { alone.outer[t] = t == cut ? bc : (t == cut + 1 ? other : obc); }
					const auto s = op(p.def, alone);
					const int M = int(s.elem.size());
					std::vector<int> map(M, -1);
					for (int i = 0; i < M; i++) for (int j = 0; j < N; j++) { if (w.elem[j] == p.elems[s.elem[i]] && hx::norm(w.pos[j] - s.pos[i]) < 1e-9) { map[i] = j; } }
					Mat R(6 * M, 6 * M);
					for (int i = 0; i < 6 * M; i++) for (int j = 0; j < 6 * M; j++) { R(i, j) = w.A(i / M * N + map[i % M], j / M * N + map[j % M]); }
					if (!equal(s.A, R, in ? "one side of the sheet" : "the other side of the sheet")) { return; }
				}
			});
		}

		// Tags without condition: every set of interior faces of a small mesh, alone and beside a sheet.
		if (inner.size() <= 6) for (unsigned set = 1; set < (1u << inner.size()); set++) for (double al : { 0.0, 1.0 }) for (int sh = -1; sh < 3; sh++) {
			if (sh >= 0 && dim == 3) { continue; }
			if (!ex.begin(vh::str(pre, "bare tags ", set, " alpha=", al, sh >= 0 ? vh::str(" beside ", ox::bcName(bcs[sh])) : ""))) { continue; }
			ex.guarded([&] {
				hx::MuteAll mute;
				hx::Scratch scratch;
				auto a = base, b = base;
				ox::Cfg c;
				c.op = form; c.order = mc.p; c.alpha = al;
				for (int t = 1; t <= 2 * dim; t++) { c.outer[t] = bcs[t % 3]; }
				for (size_t f = 0; f < inner.size(); f++) {
					if (set >> f & 1) { b.bdr.push_back({ inner[f], 2 * dim + 2 + int(f % 2) }); }
					else if (sh >= 0) { a.bdr.push_back({ inner[f], 2 * dim + 1 }); b.bdr.push_back({ inner[f], 2 * dim + 1 }); c.inner[2 * dim + 1] = bcs[sh]; }
				}
				equal(op(a, c).A, op(b, c).A, "tagged faces without condition");
			});
		}
	}
	return ex.finish();
}
