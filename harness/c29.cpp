// C29: the spatial operator is exact on polynomial fields.
#include "ox.hpp"
#include "px.hpp"

using namespace maxwell;
using hx::V3;
using px::Poly;

static const V3 HI{ 1.0, 0.8, 0.6 };
static vh::Explorer ex;

struct MatCase { std::string name; std::map<int, Material> mats; bool lossy; };

// Largest deviation from the exact derivative over the checked elements.
static void judge(maxwell::Solver& s, const ox::Cfg& c, const px::Field& f, const std::vector<char>& elemOk, const std::string& what)
{
	auto& fes = s.getFES();
	const int N = fes.GetNDofs();
	auto X = hx::nodes(fes);
	auto el = ox::dofElem(fes);
	ox::Vec x(6 * N);
	for (int k = 0; k < 6; k++) for (int i = 0; i < N; i++) { x[k * N + i] = f[k](X[i]); }
	auto y = ox::apply(s, x);
	auto cH = px::curl(f, 3), cE = px::curl(f, 0);
	ex.step();
	ex.state(what);
	double scale = 1e-3;
	for (int k = 0; k < 6; k++) for (auto& a : f[k].c) { scale = std::max(scale, std::abs(a.second)); }
	for (int i = 0; i < N; i++) {
		if (!elemOk[el[i]]) { continue; }
		double eps = 1, mu = 1, sig = 0;
		auto it = c.mats.find(fes.GetMesh()->GetAttribute(el[i]));
		if (it != c.mats.end()) { eps = it->second.getPermittivity(); mu = it->second.getPermeability(); sig = it->second.getConductivity(); }
		for (int k = 0; k < 6; k++) {
			const int d = k % 3;
			const double want = k < 3 ? (cH[d](X[i]) - sig * f[d](X[i])) / eps : -cE[d](X[i]) / mu;
			if (!ex.check(vh::close(y[k * N + i], want, 1e-7, 2e-8 * scale), what, ": d/dt ", k < 3 ? "E" : "H", d, " at (", X[i][0], ",", X[i][1], ",", X[i][2], ") is ", y[k * N + i], " instead of ", want)) { return; }
		}
	}
	ex.trace();
}

int main()
{
	struct MeshCase { hx::Kind k; std::array<int, 3> n; double warp; std::vector<int> orders; };
	const bool T = ex.thorough();
	std::vector<MeshCase> big{
		{ hx::SEG, { 5, 0, 0 }, 0.2, { 0, 1, 2, 3, 4, 5 } },
		{ hx::TRI, { 3, 3, 0 }, 0.0, { 0, 1, 2, 3 } }, { hx::TRI, { 3, 3, 0 }, 0.2, { 1, 2, 3, 4 } },
		{ hx::QUAD, { 3, 3, 0 }, 0.0, { 0, 1, 2, 3 } }, { hx::QUAD, { 3, 3, 0 }, 0.2, { 1, 2, 3 } },
		{ hx::TET, { 2, 2, 2 }, 0.15, T ? std::vector<int>{ 1, 2, 3 } : std::vector<int>{ 1, 2 } },
		{ hx::HEX, { 3, 3, 3 }, 0.0, T ? std::vector<int>{ 1, 2 } : std::vector<int>{ 1 } } };
	std::vector<MatCase> mats{
		{ "vacuum", {}, false },
		{ "one", { { 1, Material(2.5, 1.5, 0.0) } }, false },
		{ "two", { { 1, Material(1.0, 1.0, 0.0) }, { 2, Material(3.0, 1.7, 0.0) } }, false },
		{ "lossy", { { 1, Material(2.0, 1.3, 0.6) }, { 2, Material(1.0, 2.0, 0.0) } }, true } };
	const std::vector<double> alphas{ 0.0, 0.5, 1.0 };
	const std::map<EvolutionOperatorType, std::string> ops{ { Global, "global" }, { Maxwell, "maxwell" }, { Hesthaven, "hesthaven" } };

	// any monomial: elements without a face on the outside are judged
	for (auto& mc : big) for (int p : mc.orders) for (auto& mt : mats) for (double al : alphas) for (auto& op : ops) {
		const int dim = hx::kindDim(mc.k);
		if (op.first == Hesthaven && (mt.name != "vacuum" || dim == 1 || p == 0 || mc.k == hx::QUAD || mc.k == hx::HEX)) { continue; }
		if (dim == 3 && al == 0.5) { continue; }
		if (!ex.begin(vh::str("inside ", hx::kindName(mc.k), " warp=", mc.warp, " p=", p, " ", mt.name, " alpha=", al, " ", op.second))) { continue; }
		ex.guarded([&] {
			hx::MuteAll mute;
			hx::Scratch scratch;
			auto def = hx::box(mc.k, mc.n, HI, mc.warp, nullptr, [&](const V3& q) { return mt.mats.size() == 2 && q[0] + 0.7 * q[1] > 0.7 ? 2 : 1; });
			auto mesh = def.build();
			ox::Cfg c;
			c.order = p; c.alpha = al; c.op = op.first; c.mats = mt.mats;
			c.outer = hx::allOuter(dim, BdrCond::SMA);
			auto s = ox::solver(mesh, c);
			std::vector<char> ok(def.elems.size(), 1);
			for (auto& fe : def.faceElems()) { if (fe.second.size() == 1) { ok[fe.second[0]] = 0; } }
			int inside = 0;
			for (char o : ok) { inside += o; }
			ex.check(inside > 0, "no interior element");
			const bool tensor = (mc.k == hx::QUAD || mc.k == hx::HEX) && mc.warp == 0.0;
			for (auto& m : hx::monomials(dim, p, tensor)) for (int k = 0; k < 6; k++) {
				px::Field f;
				f[k] = Poly::mono(m);
				judge(*s, c, f, ok, vh::str("monomial ", m[0], m[1], m[2], " in component ", k));
				if (ex.failed()) { return; }
			}
		});
	}

	// fields meeting the boundary conditions: every element is judged
	const std::vector<BdrCond> bcs{ BdrCond::PEC, BdrCond::PMC, BdrCond::SMA };
	std::vector<MeshCase> small{
		{ hx::SEG, { 3, 0, 0 }, 0.2, { 1, 2, 3, 4 } }, { hx::TRI, { 2, 2, 0 }, 0.2, { 1, 2, 3, 4 } }, { hx::QUAD, { 2, 2, 0 }, 0.0, { 1, 2, 3 } },
		{ hx::TET, { 1, 1, 1 }, 0.0, T ? std::vector<int>{ 1, 2, 3, 4 } : std::vector<int>{ 1, 2, 3 } }, { hx::HEX, { 1, 1, 2 }, 0.0, { 1, 2 } } };
	for (auto& mc : small) for (int p : mc.orders) {
		const int dim = hx::kindDim(mc.k);
		const bool tensor = mc.k == hx::QUAD || mc.k == hx::HEX || mc.k == hx::SEG;
		std::vector<std::map<int, BdrCond>> sets;
		std::vector<int> dig(dim < 3 ? 2 * dim : 3, 0);
		for (;;) {
			std::map<int, BdrCond> o;
			for (int t = 1; t <= 2 * dim; t++) { o[t] = bcs[dig[dim < 3 ? t - 1 : (t - 1) / 2]]; }
			sets.push_back(o);
			size_t i = 0;
			while (i < dig.size() && ++dig[i] == 3) { dig[i++] = 0; }
			if (i == dig.size()) { break; }
		}
		if (dim == 3) { for (int t = 1; t <= 6; t++) for (auto b : bcs) { auto o = hx::allOuter(3, BdrCond::PEC); o[t] = b; if (b != BdrCond::PEC) { sets.push_back(o); } } }
		for (auto& o : sets) for (double al : alphas) for (auto& op : ops) {
			if (al == 0.5 && dim > 1) { continue; }
			if (op.first == Hesthaven && (dim == 1 || mc.k == hx::QUAD || mc.k == hx::HEX)) { continue; }
			if (op.first == Maxwell && dim == 3 && p > 1) { continue; }
			if (dim == 3 && p > 2 && (o.at(1) != o.at(2) || o.at(1) != o.at(3) || o.at(3) != o.at(5))) { continue; }
			std::string key = vh::str("whole ", hx::kindName(mc.k), " p=", p, " alpha=", al, " ", op.second);
			for (auto& x : o) { key += vh::str(" ", x.first, ox::bcName(x.second)); }
			if (!ex.begin(key)) { continue; }
			ex.guarded([&] {
				hx::MuteAll mute;
				hx::Scratch scratch;
				const bool two = op.first != Hesthaven && p != 2;
				auto def = hx::box(mc.k, mc.n, HI, mc.warp, nullptr, [&](const V3& q) { return two && q[0] + 0.3 * q[1] + 0.2 * q[2] > 0.6 ? 2 : 1; });
				auto mesh = def.build();
				ox::Cfg c;
				c.order = p; c.alpha = al; c.op = op.first; c.outer = o;
				if (two) { c.mats = { { 1, Material(1.5, 1.0, 0.0) }, { 2, Material(2.0, 3.0, 0.4) } }; }
				auto s = ox::solver(mesh, c);
				std::vector<char> ok(def.elems.size(), 1);
				int tried = 0;
				for (int k = 0; k < 6; k++) {
					Poly fac = Poly::mono({ 0, 0, 0 });
					for (auto& x : o) {
						const int axis = (x.first - 1) / 2;
						const bool tang = axis != k % 3;
						const bool vanish = x.second == BdrCond::SMA || (x.second == BdrCond::PEC) == (k < 3);
						if (tang && vanish) { fac = fac * Poly::affine(axis, x.first % 2 ? 0.0 : HI[axis]); }
					}
					for (auto& m : hx::monomials(dim, p, tensor)) {
						auto q = fac * Poly::mono(m);
						if ((tensor ? q.maxDegree() : q.degree()) > p) { continue; }
						px::Field f;
						f[k] = q;
						tried++;
						judge(*s, c, f, ok, vh::str("monomial ", m[0], m[1], m[2], " in component ", k));
						if (ex.failed()) { return; }
					}
				}
				ex.note("boundary-compatible fields", tried);
			});
		}
	}

	// waves leaving through an absorbing side without reflection
	for (auto& mc : small) for (int p : mc.orders) {
		const int dim = hx::kindDim(mc.k);
		for (int a = 0; a < dim; a++) for (int side = 0; side < 2; side++) for (int pol = 0; pol < 2; pol++) for (double al : alphas) for (auto& op : ops) {
			if (op.first == Hesthaven && (dim == 1 || mc.k == hx::QUAD || mc.k == hx::HEX)) { continue; }
			if (!ex.begin(vh::str("leaving ", hx::kindName(mc.k), " p=", p, " axis=", a, side ? "+" : "-", " pol=", pol, " alpha=", al, " ", op.second))) { continue; }
			ex.guarded([&] {
				hx::MuteAll mute;
				hx::Scratch scratch;
				auto def = hx::box(mc.k, mc.n, HI, mc.warp);
				auto mesh = def.build();
				const int b = (a + 1) % 3, cc = (a + 2) % 3;
				const int e = pol ? cc : b, h = pol ? b : cc;
				ox::Cfg c;
				c.order = p; c.alpha = al; c.op = op.first;
				for (int t = 1; t <= 2 * dim; t++) { const int ax = (t - 1) / 2; c.outer[t] = ax == a ? BdrCond::SMA : (ax == e ? BdrCond::PEC : BdrCond::PMC); }
				auto s = ox::solver(mesh, c);
				std::vector<char> ok(def.elems.size(), 1);
				for (int k = 1; k <= p; k++) {
					Poly q = Poly::affine(a, side ? 0.0 : HI[a]), g = q;
					for (int i = 1; i < k; i++) { g = g * Poly::mono({ a == 0, a == 1, a == 2 }); }
					px::Field f;
					f[e] = g;
					f[3 + h] = g.scaled((pol ? -1.0 : 1.0) * (side ? 1.0 : -1.0));
					judge(*s, c, f, ok, vh::str("leaving wave of degree ", k));
					if (ex.failed()) { return; }
				}
			});
		}
	}
	return ex.finish();
}
