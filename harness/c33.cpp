// C33: the operator under every renumbering of a mesh and every distribution over ranks.
#include "ox.hpp"
namespace mfem { extern const std::vector<int>* forcedPartitioning; }

using namespace maxwell;
using hx::V3;
using ox::Mat;
using ox::Vec;

static const V3 HI{ 1.0, 0.8, 0.6 };
static vh::Explorer ex;
static const std::vector<BdrCond> bcs{ BdrCond::PEC, BdrCond::PMC, BdrCond::SMA };

static ox::Cfg config(int dim, int p, double al, EvolutionOperatorType op, bool mats, bool sheet)
{
	ox::Cfg c;
	c.order = p; c.alpha = al; c.op = op;
	for (int t = 1; t <= 2 * dim; t++) { c.outer[t] = bcs[t % 3]; }
	if (sheet) { c.inner[2 * dim + 1] = BdrCond::PEC; c.inner[2 * dim + 2] = BdrCond::SMA; }
	if (mats) { c.mats = { { 1, Material(2.0, 1.0, 0.3) }, { 2, Material(1.5, 3.0, 0.0) } }; }
	return c;
}
// Unknowns identified by where they are: element (by centre) and node position.
struct Id { V3 centre, pos; };
static std::vector<Id> ids(const hx::MeshDef& def, mfem::FiniteElementSpace& fes)
{
	auto e = ox::dofElem(fes);
	auto x = hx::nodes(fes);
	std::vector<Id> r;
	for (size_t i = 0; i < e.size(); i++) {
		V3 c{ 0, 0, 0 };
		mfem::Vector q;
		fes.GetMesh()->GetElementCenter(e[i], q);
		for (int d = 0; d < q.Size(); d++) { c[d] = q[d]; }
		r.push_back({ c, x[i] });
	}
	return r;
}
static bool mapping(const std::vector<Id>& from, const std::vector<Id>& to, std::vector<int>& m)
{
	m.assign(from.size(), -1);
	for (size_t i = 0; i < from.size(); i++) {
		for (size_t j = 0; j < to.size(); j++) { if (hx::norm(from[i].centre - to[j].centre) < 1e-9 && hx::norm(from[i].pos - to[j].pos) < 1e-9) { m[i] = int(j); } }
		if (m[i] < 0) { return false; }
	}
	return true;
}
struct Ref { Mat A; std::vector<Id> id; };
static Ref reference(const hx::MeshDef& def, const ox::Cfg& c)
{
	auto mesh = def.build();
	auto s = ox::solver(mesh, c);
	ex.step(6 * s->getFES().GetNDofs());
	return { ox::matrix(*s), ids(def, s->getFES()) };
}
static void compare(const Ref& r, const hx::MeshDef& def, const ox::Cfg& c)
{
	auto o = reference(def, c);
	std::vector<int> m;
	if (!ex.check(o.id.size() == r.id.size() && mapping(o.id, r.id, m), "the renumbered mesh has other unknowns")) { return; }
	const int N = int(m.size());
	const double sc = std::max(1.0, r.A.cwiseAbs().maxCoeff());
	for (int i = 0; i < 6 * N; i++) for (int j = 0; j < 6 * N; j++) {
		const double want = r.A(i / N * N + m[i % N], j / N * N + m[j % N]);
		if (!ex.check(std::abs(o.A(i, j) - want) < 1e-9 * sc, "unit state ", j, " acts on unknown ", i, " as ", o.A(i, j), ", in the original numbering as ", want)) { return; }
	}
	ex.trace(6 * N);
}

// Orientation-preserving local numberings of each element type.
static std::vector<std::vector<int>> rotations(hx::Kind k)
{
	switch (k) {
	case hx::SEG: return { { 0, 1 } };
	case hx::TRI: return { { 0, 1, 2 }, { 1, 2, 0 }, { 2, 0, 1 } };
	case hx::QUAD: return { { 0, 1, 2, 3 }, { 1, 2, 3, 0 }, { 2, 3, 0, 1 }, { 3, 0, 1, 2 } };
	case hx::TET: {
		std::vector<std::vector<int>> r;
		for (auto& p : hx::perms(4)) { int inv = 0; for (int i = 0; i < 4; i++) for (int j = i + 1; j < 4; j++) { inv += p[i] > p[j]; } if (inv % 2 == 0) { r.push_back(p); } }
		return r;
	}
	default: {
		// generated by two rotations of the cube
		const std::vector<int> a{ 1, 2, 3, 0, 5, 6, 7, 4 }, b{ 4, 5, 1, 0, 7, 6, 2, 3 };
		std::set<std::vector<int>> seen{ { 0, 1, 2, 3, 4, 5, 6, 7 } };
		for (bool more = true; more;) {
			more = false;
			for (auto s : std::vector<std::vector<int>>(seen.begin(), seen.end())) for (auto& g : { a, b }) {
				std::vector<int> t(8);
				for (int i = 0; i < 8; i++) { t[i] = s[g[i]]; }
				more |= seen.insert(t).second;
			}
		}
		return { seen.begin(), seen.end() };
	}
	}
}

int main()
{
	const bool T = ex.thorough();
	struct Case { hx::Kind k; std::array<int, 3> n; double warp; int p; };
	std::vector<Case> meshes{ { hx::SEG, { 4, 0, 0 }, 0.2, 2 }, { hx::TRI, { 2, 1, 0 }, 0.0, 2 }, { hx::TRI, { 2, 1, 0 }, 0.0, 1 }, { hx::QUAD, { 2, 2, 0 }, 0.2, 1 }, { hx::TET, { 1, 1, 1 }, 0.0, 1 }, { hx::HEX, { 2, 1, 1 }, 0.0, 1 } };
	if (T) { meshes.push_back({ hx::TRI, { 2, 1, 0 }, 0.0, 3 }); meshes.push_back({ hx::TET, { 1, 1, 1 }, 0.0, 2 }); }
	auto make = [&](const Case& mc) {
		const int dim = hx::kindDim(mc.k);
		auto def = hx::box(mc.k, mc.n, HI, mc.warp, nullptr, [&](const V3& c) { return c[0] + 0.1 * c[1] > 0.5 ? 2 : 1; });
		auto b0 = def;
		auto fe = b0.faceElems();
		int count = 0;
		def.tagFaces([&](const V3& c, bool in) {
			if (!in) { return hx::outerSide(c, HI, dim); }
			for (auto& f : fe) { if (f.second.size() == 2 && hx::norm(b0.centre(f.first) - c) < 1e-12) {
				const bool a = b0.centre(b0.elems[f.second[0]])[0] > 0.5, b = b0.centre(b0.elems[f.second[1]])[0] > 0.5;
				if (a != b) { return 2 * dim + 1 + (count++ % 2); }
			} }
			return 0;
		});
		return def;
	};
	for (auto& mc : meshes) for (auto form : { Global, Maxwell, Hesthaven }) {
		const int dim = hx::kindDim(mc.k);
		if (form == Hesthaven && !(mc.k == hx::TRI || mc.k == hx::TET)) { continue; }
		const std::string fname = form == Global ? "global" : (form == Maxwell ? "separate" : "nodal");
		const std::string pre = vh::str(hx::kindName(mc.k), mc.n[0], mc.n[1], " p=", mc.p, " ", fname, " ");
		const auto def = make(mc);
		std::set<int> tags;
		for (auto& b : def.bdr) { tags.insert(b.tag); }
		for (double al : { 0.0, 1.0 }) for (bool sheet : { false, true }) {
			if (mc.p > 1 && (al == 0.0) != sheet) { continue; }
			if (form != Global && (al == 0.0) != sheet) { continue; }
			if (dim == 3 && (al == 0.0 || form == Maxwell)) { continue; }
			auto cfg = config(dim, mc.p, al, form, form != Hesthaven, sheet);
			for (auto it = cfg.inner.begin(); it != cfg.inner.end();) { if (!tags.count(it->first)) { it = cfg.inner.erase(it); } else { ++it; } }
			if (sheet && cfg.inner.empty()) { continue; }
			const std::string var = vh::str(pre, "alpha=", al, sheet ? " sheet " : " ");
			std::unique_ptr<Ref> ref;
			auto run = [&](const std::string& key, const std::function<hx::MeshDef()>& mk) {
				if (!ex.begin(key)) { return; }
				ex.guarded([&] {
					hx::MuteAll mute;
					hx::Scratch scratch;
					if (!ref) { ref = std::make_unique<Ref>(reference(def, cfg)); }
					compare(*ref, mk(), cfg);
				});
			};
			const int n = int(def.elems.size());
			// element orders
			auto all = hx::perms(n <= 4 ? n : 4);
			if (n > 4) {   // every order of every four consecutive elements
				std::vector<std::vector<int>> more;
				for (int s = 0; s + 4 <= n; s++) for (auto& q : all) { std::vector<int> v(n); for (int i = 0; i < n; i++) { v[i] = i >= s && i < s + 4 ? s + q[i - s] : i; } more.push_back(v); }
				all = more;
			}
			for (auto& q : all) {
				std::string k;
				for (int i : q) { k += std::to_string(i); }
				run(var + "elements " + k, [&] { auto d = def; for (int i = 0; i < n; i++) { d.elems[i] = def.elems[q[i]]; d.attrs[i] = def.attrs[q[i]]; } return d; });
			}
			// local rotations: every combination (few elements) or every one of every element
			const auto rot = rotations(mc.k);
			const double combos = std::pow(double(rot.size()), n);
			if (combos < 700) {
				for (int code = 1; code < int(combos); code++) {
					run(vh::str(var, "rotations ", code), [&] {
						auto d = def;
						int c = code;
						for (int e = 0; e < n; e++, c /= int(rot.size())) { for (size_t i = 0; i < rot[0].size(); i++) { d.elems[e][i] = def.elems[e][rot[c % rot.size()][i]]; } }
						return d;
					});
				}
			}
			else {
				for (int e = 0; e <= n; e++) for (size_t r = 1; r < rot.size(); r++) {
					run(vh::str(var, "rotation ", r, " of ", e == n ? -1 : e), [&] { auto d = def; for (int f = 0; f < n; f++) { if (e == n || f == e) { for (size_t i = 0; i < rot[0].size(); i++) { d.elems[f][i] = def.elems[f][rot[r][i]]; } } } return d; });
				}
			}
			// vertex numbers: all permutations of the first five/six, and the full reversal
			const int nv = int(def.verts.size());
			const int pv = std::min(nv, T ? 6 : 5);
			for (auto& q : hx::perms(pv)) {
				std::string k;
				for (int i : q) { k += std::to_string(i); }
				run(var + "vertices " + k, [&] {
					auto d = def;
					std::vector<int> to(nv);
					for (int i = 0; i < nv; i++) { to[i] = i < pv ? nv - 1 - q[i] : nv - 1 - i; }
					for (int i = 0; i < nv; i++) { d.verts[to[i]] = def.verts[i]; }
					for (auto& e : d.elems) { for (auto& i : e) { i = to[i]; } }
					for (auto& b : d.bdr) { for (auto& i : b.v) { i = to[i]; } }
					return d;
				});
			}
			// tagged faces: listed in every rotation of the list, forwards and backwards, turned over
			for (size_t s = 0; s < def.bdr.size(); s++) for (int rev = 0; rev < 2; rev++) for (int turn = 0; turn < 2; turn++) {
				run(vh::str(var, "faces from ", s, rev ? " backwards" : "", turn ? " turned" : ""), [&] {
					auto d = def;
					for (size_t i = 0; i < def.bdr.size(); i++) { d.bdr[i] = def.bdr[(rev ? def.bdr.size() - i + s : i + s) % def.bdr.size()]; if (turn && mc.k != hx::HEX) { std::reverse(d.bdr[i].v.begin(), d.bdr[i].v.end()); } }
					return d;
				});
			}
		}
	}

	// Every distribution of the elements over two and three ranks.
	std::vector<Case> par{ { hx::SEG, { 4, 0, 0 }, 0.2, 2 }, { hx::TRI, { 2, 1, 0 }, 0.0, 1 }, { hx::QUAD, { 2, 2, 0 }, 0.2, 1 }, { hx::TET, { 1, 1, 1 }, 0.0, 1 }, { hx::HEX, { 2, 2, 1 }, 0.0, 1 } };
	for (auto& mc : par) for (auto form : { Global, Maxwell }) for (double al : { 0.0, 1.0 }) for (int nr = 2; nr <= 3; nr++) {
		const int dim = hx::kindDim(mc.k);
		if (mc.k == hx::TET && !T && (al == 0.0 || form == Maxwell)) { continue; }
		const auto def = make(mc);
		const int n = int(def.elems.size());
		auto cfg = config(dim, mc.p, al, form, true, false);
		int total = 1;
		for (int i = 0; i < n; i++) { total *= nr; }
		std::unique_ptr<Ref> ref;
		for (int code = 0; code < total; code++) {
			std::vector<int> owner(n);
			std::set<int> used;
			std::string k;
			for (int i = 0, c = code; i < n; i++, c /= nr) { owner[i] = c % nr; used.insert(owner[i]); k += std::to_string(owner[i]); }
			if (int(used.size()) != nr) { continue; }
			if (mc.k == hx::TET && nr == 3 && !T && owner[0] != 0) { continue; }
			if (!ex.begin(vh::str("ranks ", hx::kindName(mc.k), " ", form == Global ? "global" : "separate", " alpha=", al, " ", k))) { continue; }
			ex.guarded([&] {
				hx::MuteAll mute;
				hx::Scratch scratch;
				if (!ref) { ref = std::make_unique<Ref>(reference(def, cfg)); }
				const int N = int(ref->id.size());
				std::mutex lock;
				std::string err;
				Mat got = Mat::Constant(6 * N, 6 * N, NAN);
				mfem::forcedPartitioning = &owner;
				try {
					mpisim::runWorld(nr, [&](int) {
						auto mesh = def.build();
						auto s = ox::solver(mesh, cfg);
						auto id = ids(def, s->getFES());
						std::vector<int> m;
						if (!mapping(id, ref->id, m)) { std::lock_guard<std::mutex> g(lock); err = "a rank has unknowns the whole mesh does not have"; }
						const int M = int(id.size());
						for (int j = 0; j < 6 * N; j++) {
							Vec x = Vec::Zero(6 * M);
							for (int i = 0; i < 6 * M; i++) { if (m[i % M] >= 0 && i / M * N + m[i % M] == j) { x[i] = 1.0; } }
							Vec y = ox::apply(*s, x);
							std::lock_guard<std::mutex> g(lock);
							for (int i = 0; i < 6 * M; i++) {
								if (m[i % M] < 0) { continue; }
								double& v = got(i / M * N + m[i % M], j);
								if (!std::isnan(v)) { err = "an unknown belongs to two ranks"; }
								v = y[i];
							}
						}
					});
				}
				catch (...) { mfem::forcedPartitioning = nullptr; throw; }
				mfem::forcedPartitioning = nullptr;
				ex.step(6 * N);
				if (!ex.check(err.empty(), err)) { return; }
				const double sc = std::max(1.0, ref->A.cwiseAbs().maxCoeff());
				for (int i = 0; i < 6 * N; i++) for (int j = 0; j < 6 * N; j++) { if (!ex.check(std::abs(got(i, j) - ref->A(i, j)) < 1e-9 * sc, "unit state ", j, " acts on unknown ", i, " as ", got(i, j), ", on one rank as ", ref->A(i, j))) { return; } }
				ex.trace(6 * N);
				ex.note("distributions over ranks");
			});
		}
	}
	return ex.finish();
}
