// C34: what a total-field surface adds to the time derivative, for every wave, time, mesh and formulation.
#include "ox.hpp"

using namespace maxwell;
using hx::V3;
using ox::Mat;
using ox::Vec;

static vh::Explorer ex;
static mfem::Vector mv(const V3& v) { return mfem::Vector({ v[0], v[1], v[2] }); }

struct MeshCase { std::string name; hx::Kind k; std::array<int, 3> n; V3 hi; double warp; int p; std::function<bool(const V3&)> in, core; double L = 1; };   // L: unit of length

int main()
{
	const bool T = ex.thorough();
	auto slab = [](double a, double b) { return [=](const V3& c) { return c[0] > a && c[0] < b; }; };
	auto block = [](V3 a, V3 b, int dim) { return [=](const V3& c) { for (int d = 0; d < dim; d++) { if (c[d] < a[d] || c[d] > b[d]) { return false; } } return true; }; };
	std::vector<MeshCase> meshes{
		{ "seg6", hx::SEG, { 6, 0, 0 }, { 1.2, 1, 1 }, 0.15, 1, slab(0.38, 0.82) },
		{ "seg7 p3", hx::SEG, { 7, 0, 0 }, { 1.4, 1, 1 }, 0.15, 3, slab(0.17, 1.22) },
		{ "quad33", hx::QUAD, { 3, 3, 0 }, { 0.9, 0.9, 1 }, 0.1, 1, block({ 0.3, 0.3, 0 }, { 0.6, 0.6, 0 }, 2) },
		{ "quad44 L", hx::QUAD, { 4, 4, 0 }, { 1.2, 1.2, 1 }, 0.0, 1, [](const V3& c) { return c[0] > 0.3 && c[0] < 0.9 && c[1] > 0.3 && c[1] < 0.9 && !(c[0] > 0.6 && c[1] > 0.6); } },
		{ "quad42 strip p2", hx::QUAD, { 4, 2, 0 }, { 1.2, 0.6, 1 }, 0.0, 2, slab(0.3, 0.9) },
		{ "tri33", hx::TRI, { 3, 3, 0 }, { 0.9, 0.9, 1 }, 0.1, 1, block({ 0.3, 0.3, 0 }, { 0.6, 0.6, 0 }, 2) },
		{ "tri33 p2", hx::TRI, { 3, 3, 0 }, { 0.9, 0.9, 1 }, 0.1, 2, block({ 0.3, 0.3, 0 }, { 0.6, 0.6, 0 }, 2) },
		{ "tri41 strip", hx::TRI, { 4, 1, 0 }, { 1.2, 0.4, 1 }, 0.0, 2, slab(0.3, 0.9) },
		{ "quad55 core", hx::QUAD, { 5, 5, 0 }, { 1.5, 1.5, 1 }, 0.0, 1, block({ 0.3, 0.3, 0 }, { 1.2, 1.2, 0 }, 2), block({ 0.6, 0.6, 0 }, { 0.9, 0.9, 0 }, 2) },
		{ "tri55 core", hx::TRI, { 5, 5, 0 }, { 1.5, 1.5, 1 }, 0.0, 1, block({ 0.3, 0.3, 0 }, { 1.2, 1.2, 0 }, 2), block({ 0.6, 0.6, 0 }, { 0.9, 0.9, 0 }, 2) },
		{ "seg8 core p2", hx::SEG, { 8, 0, 0 }, { 1.6, 1, 1 }, 0.0, 2, slab(0.38, 1.22), slab(0.6, 1.0) },
		{ "hex333", hx::HEX, { 3, 3, 3 }, { 0.9, 0.9, 0.9 }, 0.0, 1, block({ 0.3, 0.3, 0.3 }, { 0.6, 0.6, 0.6 }, 3) },
		{ "tet333", hx::TET, { 3, 3, 3 }, { 0.9, 0.9, 0.9 }, 0.08, 1, block({ 0.28, 0.28, 0.28 }, { 0.62, 0.62, 0.62 }, 3) } };
	for (auto& m : std::vector<MeshCase>(meshes)) {
		if (m.name != "seg6" && m.name != "quad33" && m.name != "tri33 p2" && m.name != "hex333" && m.name != "tet333") { continue; }
		for (double L : { 1e-6, 1e4 }) { m.L = L; meshes.push_back(m); meshes.back().name += L < 1 ? " micro" : " macro"; }
	}
	// directions and polarisations
	struct Wave { std::string name; V3 dir, pol; FieldType f; double spread, mean; };
	std::vector<Wave> waves;
	for (int i = -1; i <= 1; i++) for (int j = -1; j <= 1; j++) for (int k = -1; k <= 1; k++) {
		if (!i && !j && !k) { continue; }
		const V3 d = hx::unit({ double(i), double(j), double(k) });
		const V3 a = hx::unit(hx::cross(d, std::abs(d[0]) < 0.9 ? V3{ 1, 0, 0 } : V3{ 0, 1, 0 })), b = hx::cross(d, a);
		for (int q = 0; q < 3; q++) waves.push_back({ vh::str("k(", i, j, k, ") pol", q), d, q == 0 ? a : (q == 1 ? b : hx::unit(a + 0.5 * b)), q == 2 ? H : E, 0.2 + 0.05 * q, -0.3 });
	}
	for (auto& mc : meshes) for (auto form : { Global, Maxwell, Hesthaven }) for (double al : { 0.0, 1.0 }) {
		const int dim = hx::kindDim(mc.k);
		if (form == Hesthaven && !(mc.k == hx::TRI || mc.k == hx::TET || (mc.k == hx::QUAD && mc.warp == 0.0))) { continue; }
		if (mc.k == hx::TET && !T && al == 0.0) { continue; }
		auto def = hx::box(mc.k, mc.n, mc.hi, mc.warp);
		if (dim > 1) def.putFirst([&](const V3& c) { return !mc.in(c); });
		auto plain = def;
		std::vector<char> elemIn;
		for (auto& e : def.elems) { elemIn.push_back(mc.in(def.centre(e))); }
		auto fe = def.faceElems();
		{
			const auto base = def;
			def.tagFaces([&](const V3& c, bool in) {
				if (!in) { return hx::outerSide(c, mc.hi, dim); }
				for (auto& f : fe) { if (f.second.size() == 2 && hx::norm(base.centre(f.first) - c) < 1e-12) { return mc.in(base.centre(base.elems[f.second[0]])) != mc.in(base.centre(base.elems[f.second[1]])) ? 2 * dim + 1 : 0; } }
				return 0;
			});
			if (dim == 1) { std::sort(def.bdr.begin(), def.bdr.end(), [&](auto& a, auto& b) { return def.verts[a.v[0]][0] < def.verts[b.v[0]][0]; }); }
		}
		// Off the origin, where a dipole is singular.
		if (dim == 3) { for (auto* d : { &def, &plain }) for (auto& v : d->verts) { v = hx::operator+(v, V3{ 0.21, 0.13, 0.17 }); } }
		if (mc.core) { for (auto* d : { &def, &plain }) { d->attrs.assign(d->elems.size(), 1); for (size_t e = 0; e < d->elems.size(); e++) { if (mc.core(d->centre(d->elems[e]))) { d->attrs[e] = 2; } } } }
		for (auto* d : { &def, &plain }) for (auto& v : d->verts) for (auto& x : v) { x *= mc.L; }
		ox::Cfg cfg;
		if (mc.core) { if (form == Hesthaven) { continue; } cfg.mats.emplace(1, Material(1, 1, 0)); cfg.mats.emplace(2, Material(2.5, 1.5, 0.4)); }
		cfg.op = form; cfg.order = mc.p; cfg.alpha = al;
		cfg.outer = hx::allOuter(dim, BdrCond::SMA);
		if (al == 0.0) { cfg.outer = hx::allOuter(dim, BdrCond::PEC); cfg.outer[1] = BdrCond::PMC; }
		auto tf = cfg;
		tf.tfsf = { 2 * dim + 1 };
		const std::string pre = vh::str(mc.name, form == Global ? " global" : (form == Maxwell ? " separate" : " nodal"), " alpha=", al, " ");

		std::unique_ptr<maxwell::Solver> bare;
		std::vector<V3> pos;
		std::vector<char> inside;
		auto setup = [&] {
			if (bare) { return; }
			auto mesh = plain.build();
			bare = ox::solver(mesh, cfg);
			pos = hx::nodes(bare->getFES());
			auto e = ox::dofElem(bare->getFES());
			for (int i : e) { inside.push_back(elemIn[i]); }
		};
		auto sample = [&](const std::vector<std::unique_ptr<Source>>& ws, double t) {
			const int N = int(pos.size());
			Vec w = Vec::Zero(6 * N);
			for (auto& s : ws) for (int f = 0; f < 2; f++) for (int d = 0; d < 3; d++) for (int i = 0; i < N; i++) {
				mfem::Vector x(dim);
				for (int q = 0; q < dim; q++) { x[q] = pos[i][q]; }
				w[(3 * f + d) * N + i] += s->eval(x, t, FieldType(f), Direction(d));
			}
			return w;
		};
		auto cut = [&](Vec w) { const int N = int(pos.size()); for (int i = 0; i < 6 * N; i++) { if (!inside[i % N]) { w[i] = 0; } } return w; };
		auto judge = [&](const std::vector<std::unique_ptr<Source>>& ws, const std::vector<double>& times, const std::string& what) {
			Sources src;
			for (auto& w : ws) { src.add(w->clone()); }
			auto mesh = def.build();
			auto s = ox::solver(mesh, tf, src);
			const int N = int(pos.size());
			auto p2 = hx::nodes(s->getFES());
			for (int i = 0; i < N; i++) { if (!ex.check(hx::norm(p2[i] - pos[i]) < 1e-12, "unexpected unknowns")) { return; } }
			for (double t : times) {
				const Vec w = sample(ws, t);
				const Vec want = cut(ox::apply(*bare, w));
				const Vec got = ox::apply(*s, cut(w), t);
				ex.step();
				const double sc = std::max(1.0 / mc.L, want.cwiseAbs().maxCoeff());
				Eigen::Index i = 0;
				const double m = (got - want).cwiseAbs().maxCoeff(&i);
				if (!ex.check(std::isfinite(got.sum()) && m < 1e-6 * sc, what, ", t=", t, ": unknown ", i, inside[i % N] ? " inside" : " outside", " changes at ", got[i], " instead of ", want[i])) { return; }
				ex.trace();
			}
			if (form != Global) { return; }
			// implicit stages: the derivative k for which k is the derivative of x + h k, the same waves entering
			auto* op = s->getEvolTDO();
			for (double h : { 0.01 * mc.L, 0.04 * mc.L }) for (double t : times) {
				const Vec x = cut(sample(ws, t));
				mfem::Vector a(int(x.size())), k(int(x.size()));
				for (int i = 0; i < x.size(); i++) { a[i] = x[i]; }
				k = 0.0;
				op->SetTime(t);
				op->ImplicitSolve(h, a, k);
				Vec K(x.size());
				for (int i = 0; i < x.size(); i++) { K[i] = k[i]; }
				ex.step();
				const Vec want = ox::apply(*s, x + h * K, t);
				const double sc = std::max(1.0 / mc.L, want.cwiseAbs().maxCoeff());
				Eigen::Index i = 0;
				const double m = (K - want).cwiseAbs().maxCoeff(&i);
				if (!ex.check(std::isfinite(K.sum()) && m < 1e-6 * sc, what, ", implicit stage of ", h, " at t=", t, ": unknown ", i, " changes at ", K[i], " instead of ", want[i])) { return; }
				ex.trace();
			}
		};
		auto planewave = [&](const Wave& w) { return std::make_unique<TotalField>(Planewave(Gaussian(w.spread * mc.L, mfem::Vector({ w.mean * mc.L })), mv(w.pol), mv(w.dir), w.f)); };
		std::vector<double> times{ 0.0, 0.25, 0.6, 1.1 };
		for (auto& t : times) { t *= mc.L; }
		for (size_t i = 0; i < waves.size(); i++) {
			if (mc.L != 1 && i % 5 != 0) { continue; }
			if (dim == 1 && (waves[i].dir[1] || waves[i].dir[2])) { continue; }
			if (dim == 2 && waves[i].dir[2]) { continue; }
			if (dim == 3 && !T && i % 4 != size_t(form) % 4 && mc.k == hx::TET) { continue; }
			if (!ex.begin(pre + waves[i].name)) { continue; }
			ex.guarded([&] {
				hx::MuteAll mute;
				hx::Scratch scratch;
				setup();
				std::vector<std::unique_ptr<Source>> ws;
				ws.push_back(planewave(waves[i]));
				judge(ws, times, "one wave");
			});
		}
		if (mc.L != 1) { continue; }
		// two and three waves, other sources beside them, and no wave at all
		for (int set = 0; set < (dim == 3 ? 32 : 16); set++) for (int extra = 0; extra < 3; extra++) {
			if (!ex.begin(vh::str(pre, "set ", set, extra == 1 ? " after an initial field" : (extra == 2 ? " before an initial field" : "")))) { continue; }
			ex.guarded([&] {
				hx::MuteAll mute;
				hx::Scratch scratch;
				setup();
				std::vector<std::unique_ptr<Source>> ws;
				const Wave cand[3]{ { "", { 1, 0, 0 }, { 0, 1, 0 }, E, 0.2, -0.3 }, { "", { -1, 0, 0 }, hx::unit({ 0, 1, 1 }), E, 0.3, -0.1 }, { "", dim > 1 ? V3{ 0, 1, 0 } : V3{ 1, 0, 0 }, { 0, 0, 1 }, H, 0.25, 0.1 } };
				Sources src;
				mfem::Vector zero(dim);
				zero = 0.0;
				mfem::Vector centre(dim);
				centre = 0.4;
				auto initial = [&] { return InitialField(Gaussian(0.3, zero, dim), E, mfem::Vector({ 0.0, 1.0, 0.0 }), centre); };
				if (extra == 1) { src.add(initial()); }
				for (int i = 0; i < 3; i++) { if (set >> i & 1) { ws.push_back(planewave(cand[i])); src.add(*planewave(cand[i])); } }
				if (set >> 3 & 1) { auto tfm = [&] { return TotalField(Planewave(ModulatedGaussian(0.4, mfem::Vector({ -0.2 }), 1.7), mv({ 0, 1, 0 }), mv({ 1, 0, 0 }), E)); }; ws.push_back(tfm().clone()); src.add(tfm()); }
				if (set >> 4 & 1) { auto tfd = [&] { return TotalField(DerivGaussDipole(0.1, 0.3, 0.5)); }; ws.push_back(tfd().clone()); src.add(tfd()); }
				if (extra == 2) { src.add(initial()); }
				auto mesh = def.build();
				auto s = ox::solver(mesh, tf, src);
				for (double t : times) {
					const Vec w = sample(ws, t);
					const Vec want = cut(ox::apply(*bare, w)), got = ox::apply(*s, cut(w), t);
					ex.step();
					const double sc = std::max(1.0 / mc.L, want.cwiseAbs().maxCoeff());
					Eigen::Index i = 0;
					const double m = (got - want).cwiseAbs().maxCoeff(&i);
					if (!ex.check(std::isfinite(got.sum()) && m < 1e-6 * sc, ws.size(), " waves, t=", t, ": unknown ", i, inside[i % pos.size()] ? " inside" : " outside", " changes at ", got[i], " instead of ", want[i])) { return; }
					ex.trace();
				}
				if (ws.empty() && pos.size() < 60) {
					const Mat A = ox::matrix(*bare), B = ox::matrix(*s);
					ex.check((A - B).cwiseAbs().maxCoeff() < 1e-9 * std::max(1.0, A.cwiseAbs().maxCoeff()), "a surface without wave is not invisible");
				}
			});
		}
	}
	// One edge bent: the cells around it are curved. The nodal formulation may refuse them at the surface, and only there.
	{
		const V3 hi{ 1.5, 1.5, 1 };
		auto in = block({ 0.5, 0.5, 0 }, { 1.0, 1.0, 0 }, 2);
		auto def = hx::box(hx::TRI, { 3, 3, 0 }, hi, 0.0);
		def.putFirst([&](const V3& c) { return !in(c); });
		auto plain = def;
		auto fe = def.faceElems();
		const auto base = def;
		def.tagFaces([&](const V3& c, bool inner) {
			if (!inner) { return hx::outerSide(c, hi, 2); }
			for (auto& f : fe) { if (f.second.size() == 2 && hx::norm(base.centre(f.first) - c) < 1e-12) { return in(base.centre(base.elems[f.second[0]])) != in(base.centre(base.elems[f.second[1]])) ? 5 : 0; } }
			return 0;
		});
		for (auto& edge : fe) for (auto form : { Global, Maxwell, Hesthaven }) for (double al : { 0.0, 1.0 }) for (int q = 0; q < 2; q++) {
			const auto& ed = edge.first;
			if (!ex.begin(vh::str("bent edge ", ed[0], "-", ed[1], form == Global ? " global" : (form == Maxwell ? " separate" : " nodal"), " alpha=", al, " wave ", q))) { continue; }
			ex.guarded([&] {
				hx::MuteAll mute;
				hx::Scratch scratch;
				bool touches = false;
				for (int e : edge.second) for (auto& f : fe) { if (f.second.size() == 2 && (f.second[0] == e || f.second[1] == e) && in(base.centre(base.elems[f.second[0]])) != in(base.centre(base.elems[f.second[1]]))) { touches = true; } }
				const V3 mid = hx::operator*(0.5, hx::operator+(base.verts[ed[0]], base.verts[ed[1]])), along = base.verts[ed[1]] - base.verts[ed[0]];
				auto bend = [&](mfem::Mesh m) {
					m.SetCurvature(2);
					auto nodes = m.geometryNodes();
					for (auto& a : nodes) for (int j = 0; j < a.Width(); j++) { if (std::abs(a(0, j) - mid[0]) < 1e-9 && std::abs(a(1, j) - mid[1]) < 1e-9) { a(0, j) -= 0.08 * along[1]; a(1, j) += 0.08 * along[0]; } }
					m.setGeometryNodes(2, nodes);
					return m;
				};
				auto whole = bend(plain.build()), cutMesh = bend(def.build());
				ox::Cfg cfg;
				cfg.op = form; cfg.order = 2; cfg.alpha = al;
				cfg.outer = hx::allOuter(2, BdrCond::SMA);
				auto bare = ox::solver(whole, cfg);
				auto pos = hx::nodes(bare->getFES());
				const auto owner = ox::dofElem(bare->getFES());
				const int N = int(pos.size());
				Sources src;
				TotalField tfw(Planewave(Gaussian(0.3, mfem::Vector({ -0.2 })), mv(q ? V3{ 0, 0, 1 } : hx::unit({ -0.8, 0.6, 0.5 })), mv({ 0.6, 0.8, 0 }), E));
				src.add(tfw);
				auto tf = cfg;
				tf.tfsf = { 5 };
				std::unique_ptr<maxwell::Solver> s;
				try { s = ox::solver(cutMesh, tf, src); }
				catch (const std::runtime_error& e) {
					ex.check(form == Hesthaven && touches, "a curved cell away from the surface is refused: ", e.what());
					ex.note("curved surfaces refused");
					return;
				}
				for (double t : { 0.0, 0.7 }) {
					Vec w = Vec::Zero(6 * N);
					for (int f = 0; f < 2; f++) for (int d = 0; d < 3; d++) for (int i = 0; i < N; i++) { w[(3 * f + d) * N + i] = tfw.eval(mfem::Vector({ pos[i][0], pos[i][1] }), t, FieldType(f), Direction(d)); }
					auto cut = [&](Vec v) { for (int i = 0; i < 6 * N; i++) { if (!in(base.centre(base.elems[owner[i % N]]))) { v[i] = 0; } } return v; };
					const Vec want = cut(ox::apply(*bare, w)), got = ox::apply(*s, cut(w), t);
					ex.step();
					Eigen::Index i = 0;
					const double m = (got - want).cwiseAbs().maxCoeff(&i);
					if (!ex.check(std::isfinite(got.sum()) && m < 1e-6 * std::max(1.0, want.cwiseAbs().maxCoeff()), "t=", t, ": unknown ", i, " changes at ", got[i], " instead of ", want[i])) { return; }
					ex.trace();
				}
				ex.note("curved meshes judged");
			});
		}
	}
	return ex.finish();
}
