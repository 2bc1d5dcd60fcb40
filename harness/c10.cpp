// C10: source entries of a case file. Every kind, magnitude, field type, polarisation,
// propagation and vector length, singly and in ordered pairs, evaluated against closed forms;
// automatic delays over meshes, propagation directions, tag choices and rank splits.
#include "hx.hpp"
#include "driver/driver.h"
#include <cmath>

using namespace maxwell;
using hx::V3;

static const double C_SI = 299792458.0;
static mfem::Vector vec(const V3& a, int n = 3) { mfem::Vector v(n); for (int i = 0; i < n; i++) { v[i] = a[i]; } return v; }
using Eval = std::function<double(const V3&, int n, double t, int ft, int d)>;
struct Item { std::string name; json j; Eval want; int minDim = 1; };

static json jv(const V3& a, int n) { json r = json::array(); for (int i = 0; i < n; i++) { r.push_back(a[i]); } return r; }
// spherical Bessel j6 and |Y66| normalisation
static double j6s(double x)
{
	long double X = x;
	if (X > 6) {
		long double a = std::sin(X) / X, b = std::sin(X) / (X * X) - std::cos(X) / X;
		for (int l = 1; l < 6; l++) { const long double c = (2 * l + 1) / X * b - a; a = b; b = c; }
		return double(b);
	}
	long double term = std::pow(X, 6) / 135135.0L, sum = 0;
	for (int k = 0; k < 100; k++) { sum += term; term *= -(X * X / 2) / ((k + 1.0L) * (15.0L + 2 * k)); }
	return double(sum);
}

int main()
{
	vh::Explorer ex;
	std::vector<Item> items;
	const std::vector<V3> pols{ { 1, 0, 0 }, { 0, 1, 0 }, { 0, 0, 1 }, { 0, 0.6, 0.8 }, { -0.6, 0, 0.8 } };
	const char* fts[] = { "electric", "magnetic" };
	auto polLen = [](const V3& p) { return p[2] != 0 ? 3 : (p[1] != 0 ? 2 : 1); };
	// initial fields
	for (int ft = 0; ft < 2; ft++) for (size_t p = 0; p < pols.size(); p++) {
		for (int shortV = 0; shortV < 2; shortV++) {
			const V3 pol = pols[p];
			const int pl = shortV ? polLen(pol) : 3;
			if (shortV && pl == 3) { continue; }
			auto add = [&](const std::string& n, json mag, json extra, std::function<double(const V3&)> f, int minDim) {
				json j = extra;
				j["type"] = "initial";
				j["field_type"] = fts[ft];
				j["polarization"] = jv(pol, pl);
				j["magnitude"] = mag;
				items.push_back({ vh::str(n, " ", fts[ft], " p", p, shortV ? "s" : ""), j, [=](const V3& x, int, double, int f2, int d) { return f2 == ft ? f(x) * pol[d] : 0.0; }, minDim });
			};
			for (int dim = 1; dim <= 3; dim++) for (int cn = dim; cn <= 3; cn++) for (double s : { 0.2, 0.9 }) {
				const V3 c{ 0.3, -0.4, 0.7 };
				add(vh::str("gaussian", dim, " c", cn, " s", s), { { "type", "gaussian" }, { "spread", s } }, { { "center", jv(c, cn) }, { "dimension", dim } },
					[=](const V3& x) { double q = 0; for (int d = 0; d < dim; d++) { q += (x[d] - c[d]) * (x[d] - c[d]); } return std::exp(-q / (2 * s * s)); }, dim);
			}
			for (auto& m : std::vector<std::vector<int>>{ { 1 }, { 3 }, { 1, 2 }, { 2, 1 }, { 1, 1, 2 }, { 3, 2, 1 } }) {
				std::string n = "resonant";
				for (int i : m) { n += char('0' + i); }
				add(n, { { "type", "resonant" }, { "modes", m } }, json::object(), [=](const V3& x) { double r = 1; for (size_t d = 0; d < m.size(); d++) { r *= std::sin(m[d] * M_PI * x[d]); } return r; }, int(m.size()));
			}
			const double a6 = 13.589290170541217;
			add("bessel2", { { "type", "besselj6_2D" } }, json::object(), [=](const V3& x) { return ::jn(6, a6 * std::hypot(x[0], x[1])) * std::cos(6 * std::atan2(x[1], x[0])); }, 2);
			add("bessel3", { { "type", "besselj6_3D" } }, json::object(), [=](const V3& x) {
				const double rho2 = x[0] * x[0] + x[1] * x[1], r = std::sqrt(rho2 + x[2] * x[2]);
				if (r == 0) { return 0.0; }
				return j6s(a6 * r) * 10395.0 * std::sqrt(13.0 / (4 * M_PI * 479001600.0)) * std::pow(rho2 / r / r, 3) * std::cos(6 * std::atan2(x[1], x[0]));
			}, 3);
		}
	}
	const size_t nInitial = items.size();
	// plane waves
	const std::vector<std::pair<V3, V3>> dirs{ { { 1, 0, 0 }, { 0, 1, 0 } }, { { 1, 0, 0 }, { 0, 0, 1 } }, { { 0, 1, 0 }, { 1, 0, 0 } }, { { 0, 0, 1 }, { 0, 1, 0 } }, { { -1, 0, 0 }, { 0, 1, 0 } }, { { 0, -1, 0 }, { 0, 0, 1 } }, { { 1, 1, 0 }, { 0, 0, 1 } }, { { 3, -4, 0 }, { 4, 3, 0 } }, { { 1, 1, 1 }, { 1, -1, 0 } }, { { 0.1, 0.2, -0.2 }, { 2, 1, 2 } } };
	for (size_t k = 0; k < dirs.size(); k++) for (double s : { 0.25, 1.5 }) for (int mean = 0; mean < 5; mean++) for (double f : { 0.0, 0.0 * C_SI + 1.5e8, 6e8 }) for (int shortV = 0; shortV < 2; shortV++) {
		const V3 kk = hx::unit(dirs[k].first), pp = hx::unit(dirs[k].second), hh = hx::cross(kk, pp);
		const std::vector<V3> means{ { 0, 0, 0 }, { -0.7, 0, 0 }, { 0.4, -0.3, 0 }, { -0.2, 0.5, 0.9 }, { 0, 0, 0 } };
		json j;
		j["type"] = "planewave";
		j["tags"] = { 2 };
		j["polarization"] = jv(dirs[k].second, shortV ? polLen(dirs[k].second) : 3);
		j["propagation"] = jv(dirs[k].first, shortV ? polLen(dirs[k].first) : 3);
		j["magnitude"]["type"] = "gaussian";
		j["magnitude"]["spread"] = s;
		if (mean) { j["magnitude"]["mean"] = jv(means[mean], shortV ? std::max(1, polLen(means[mean])) : 3); }
		if (f > 0) { j["magnitude"]["frequency"] = f; }
		const double m = hx::dot(means[mean], kk);
		items.push_back({ vh::str("planewave d", k, " s", s, " m", mean, " f", f, shortV ? " short" : ""), j, [=](const V3& x, int, double t, int ft, int d) {
			const double a = hx::dot(x, kk) - t - m;
			return std::exp(-a * a / (2 * s * s)) * (f > 0 ? std::cos(2 * M_PI * f / C_SI * a) : 1.0) * (ft ? hh[d] : pp[d]);
		}, 1 });
	}
	const size_t nWave = items.size();
	for (double len : { 0.1, 2.0 }) for (double s : { 0.3, 1.2 }) for (int mean = 0; mean < 3; mean++) {
		json j;
		j["type"] = "dipole";
		j["tags"] = { 2 };
		j["magnitude"]["type"] = "gaussian";
		j["magnitude"]["length"] = len;
		j["magnitude"]["spread"] = s;
		const double m = mean == 0 ? 5 * s * std::sqrt(2.0) : (mean == 1 ? 0.5 : 3.0);
		if (mean) { j["magnitude"]["mean"] = m; }
		items.push_back({ vh::str("dipole l", len, " s", s, " m", mean), j, [=](const V3& x, int, double t, int ft, int d) {
			const double r = hx::norm(x), rho = std::hypot(x[0], x[1]);
			const double w = s * std::sqrt(2.0), u = (t - m - r) / w;
			const double I = w * std::exp(1.0) / 2 * std::exp(-u * u), I1 = -2 * u / w * I, I2 = (4 * u * u - 2) / (w * w) * I;
			const double ct = x[2] / r, st = rho / r, cp = rho > 0 ? x[0] / rho : 1, sp = rho > 0 ? x[1] / rho : 0, k = len / (4 * M_PI);
			const double er = 2 * k * ct * (I / (r * r * r) + I1 / (r * r)), et = k * st * (I / (r * r * r) + I1 / (r * r) + I2 / r), hp = k * st * (I2 / r + I1 / (r * r));
			const double v[2][3] = { { er * st * cp + et * ct * cp, er * st * sp + et * ct * sp, er * ct - et * st }, { -hp * sp, hp * cp, 0 } };
			return v[ft][d];
		}, 2 });
	}
	const std::vector<V3> pts{ { 0.3, -0.2, 0.55 }, { -1.1, 0.4, 0.1 }, { 0.05, 0.8, -0.6 }, { 2.0, 1.0, 0.0 } };
	const std::vector<double> times{ 0.0, 0.6, 2.5 };
	auto compare = [&](const Source& s, const Item& it, const std::string& what) {
		for (int n = it.minDim; n <= 3; n++) for (auto& x0 : pts) for (double t : times) for (int ft = 0; ft < 2; ft++) for (int d = 0; d < 3; d++) {
			V3 x = x0;
			for (int i = n; i < 3; i++) { x[i] = 0; }
			const double got = s.eval(vec(x, n), t, FieldType(ft), Direction(d)), want = it.want(x, n, t, ft, d);
			ex.step();
			if (!ex.check(vh::close(got, want, 1e-8, 1e-11), what, ft ? "H" : "E", d, " of ", it.name, " is ", got, " instead of ", want, " at ", x[0], ",", x[1], ",", x[2], " t=", t)) { return; }
		}
	};
	auto runList = [&](const std::vector<size_t>& l) {
		std::string key;
		for (size_t i : l) { key += (key.empty() ? "" : " + ") + items[i].name; }
		if (!ex.begin(key.empty() ? "none" : key)) { return; }
		ex.guarded([&] {
			hx::MuteAll mute;
			json j;
			j["sources"] = json::array();
			for (size_t i : l) { j["sources"].push_back(items[i].j); }
			auto s = driver::buildSources(j, nullptr);
			if (!ex.check(s.size() == l.size(), s.size(), " sources for ", l.size(), " entries")) { return; }
			size_t k = 0;
			for (auto& e : s) { compare(*e, items[l[k]], vh::str("entry ", k, ": ")); k++; }
			ex.trace();
		});
	};
	runList({});
	for (size_t i = 0; i < items.size(); i++) { runList({ i }); }
	// ordered pairs and triples of a thinner selection
	std::vector<size_t> sel;
	for (size_t i = 0; i < nInitial; i += 19) { sel.push_back(i); }
	for (size_t i = nInitial; i < nWave; i += 37) { sel.push_back(i); }
	for (size_t i = nWave; i < items.size(); i += 5) { sel.push_back(i); }
	for (size_t a : sel) for (size_t b : sel) { runList({ a, b }); }
	for (size_t a = 0; a < sel.size(); a += 2) for (size_t b = 0; b < sel.size(); b += 2) for (size_t c = 0; c < sel.size(); c += 2) { runList({ sel[a], sel[b], sel[c] }); }

	// automatic delay
	struct MeshCfg { hx::Kind k; std::array<int, 3> n; V3 lo, hi; };
	const std::vector<MeshCfg> mcs{ { hx::SEG, { 20, 0, 0 }, { -3, 0, 0 }, { 2, 0, 0 } }, { hx::TRI, { 10, 10, 0 }, { -2, 1, 0 }, { 3, 4, 0 } }, { hx::QUAD, { 10, 8, 0 }, { 5, -4, 0 }, { 8, 0, 0 } }, { hx::TET, { 6, 6, 6 }, { -1, -2, 3 }, { 2, 1, 6 } }, { hx::HEX, { 6, 6, 6 }, { -4, -4, -4 }, { -1, -1, 2 } } };
	for (size_t mi = 0; mi < mcs.size(); mi++) for (int ranks = 1; ranks <= 3; ranks++) for (size_t k = 0; k < dirs.size(); k++) for (double s : { 0.5, 1.5 }) for (double f : { 0.0, 3e8 }) for (int tags = 0; tags < 3; tags++) {
		const auto& mc = mcs[mi];
		const int dim = hx::kindDim(mc.k);
		bool inPlane = true;
		for (int d = dim; d < 3; d++) { if (dirs[k].first[d] != 0) { inPlane = false; } }
		if (!inPlane || (tags == 2 && dim == 1)) { continue; }
		if (!ex.begin(vh::str("delay ", hx::kindName(mc.k), " r", ranks, " d", k, " s", s, " f", f, " tags", tags))) { continue; }
		ex.guarded([&] {
			hx::MuteAll mute;
			// surface around the middle part of the box, its upstream side possibly with another tag
			V3 size = mc.hi - mc.lo, a{ 0, 0, 0 }, b{ 0, 0, 0 };
			for (int d = 0; d < dim; d++) { const double h = size[d] / mc.n[d]; a[d] = h * (mc.n[d] / 4 + (d == 1)); b[d] = size[d] - h * (mc.n[d] / 4); }
			auto inner = hx::around(dim, a, b, 9);
			auto tagOf = [&](const V3& c) { const int t = inner(c); return t && tags && std::abs(c[0] - a[0]) < 1e-9 ? 11 : (t && tags == 2 && std::abs(c[1] - b[1]) < 1e-9 ? 12 : t); };
			auto def = hx::box(mc.k, mc.n, size, 0.0, tagOf);
			for (auto& v : def.verts) { v = v + mc.lo; }
			json j;
			json e;
			e["type"] = "planewave";
			e["tags"] = tags == 0 ? json{ 9 } : (tags == 1 ? json{ 11, 9 } : json{ 9, 12, 11 });
			e["polarization"] = jv(dirs[k].second, 3);
			e["propagation"] = jv(dirs[k].first, 3);
			e["magnitude"]["type"] = "gaussian";
			e["magnitude"]["spread"] = s;
			if (f > 0) { e["magnitude"]["frequency"] = f; }
			j["sources"].push_back(e);
			// points of the surface and within
			std::vector<V3> in;
			for (auto& v : def.verts) { if (hx::inside(dim, v - mc.lo, a - V3{ 1e-9, 1e-9, 1e-9 }, b + V3{ 1e-9, 1e-9, 1e-9 })) { in.push_back(v); } }
			const V3 kk = hx::unit(dirs[k].first), pp = hx::unit(dirs[k].second);
			double up = 1e300;
			V3 first{};
			for (auto& v : in) { if (hx::dot(v, kk) < up) { up = hx::dot(v, kk); first = v; } }
			const int comp = std::abs(pp[0]) > 0.4 ? 0 : (std::abs(pp[1]) > 0.4 ? 1 : 2);
			std::vector<std::string> errs(ranks);
			std::vector<double> ref(ranks, 0);
			mpisim::runWorld(ranks, [&](int r) {
				// each rank holds every ranks-th element
				auto part = def;
				part.elems.clear(); part.attrs.clear();
				for (size_t i = 0; i < def.elems.size(); i++) { if (int(i * ranks / def.elems.size()) == r) { part.elems.push_back(def.elems[i]); part.attrs.push_back(1); } }
				if (ranks > 1) {
					auto fe = part.faceElems();
					std::vector<hx::MeshDef::Bdr> keep;
					for (auto& bd : def.bdr) { auto q = bd.v; std::sort(q.begin(), q.end()); if (fe.count(q)) { keep.push_back(bd); } }
					part.bdr = keep;
				}
				auto mesh = part.build();
				auto src = driver::buildSources(j, &mesh);
				auto err = [&](const std::string& w) { if (errs[r].empty()) { errs[r] = w; } };
				if (src.size() != 1) { err("no source"); return; }
				auto& q = **src.begin();
				for (auto& v : in) for (int ft = 0; ft < 2; ft++) for (int d = 0; d < 3; d++) { const double g = q.eval(vec(v), 0.0, FieldType(ft), Direction(d)); if (!(std::abs(g) < 1e-7)) { err(vh::str("field ", g, " at time zero at ", v[0], ",", v[1], ",", v[2])); } }
				// the pulse arrives, at its full height, not unreasonably late
				double best = 0, when = -1;
				for (double t = 0; t < 20 * s + 1; t += s / 50) { const double g = std::abs(q.eval(vec(first), t, E, Direction(comp)) / pp[comp]); if (g > best) { best = g; when = t; } }
				if (!(best > 0.99 && best < 1.01)) { err(vh::str("pulse peaks at ", best)); }
				ref[r] = when;
			});
			for (int r = 0; r < ranks; r++) { ex.check(errs[r].empty(), "rank ", r, ": ", errs[r]); ex.check(ref[r] == ref[0], "ranks disagree on the delay: ", ref[r], " and ", ref[0]); ex.step(long(in.size())); }
			ex.trace(ranks);
		});
	}
	// dipoles without a delay
	for (int m = 3; m < 5; m++) for (int ranks = 1; ranks <= 3; ranks++) for (int off = 0; off < 2; off++) for (double s : { 0.1, 0.4 }) for (double half : { 1.0, 3.0 }) {
		if (!ex.begin(vh::str("dipole delay ", m, " r", ranks, " off", off, " s", s, " half ", half))) { continue; }
		ex.guarded([&] {
			hx::MuteAll mute;
			auto def = hx::box(m == 3 ? hx::TET : hx::HEX, { 6, 6, 6 }, { 6 * half, 6 * half, 6 * half }, 0.0, hx::around(3, { 2 * half, 2 * half, 2 * half }, { 4 * half, 4 * half, 4 * half }, 9));
			// the box may sit off the origin, so that the parts of its surface lie at different distances
			const V3 shift = off ? V3{ 2.5 * half, 3 * half, 3.25 * half } : V3{ 3 * half, 3 * half, 3 * half };
			std::vector<V3> on;
			for (auto& v : def.verts) {
				const V3 q = v - V3{ 3 * half, 3 * half, 3 * half };
				v = v - shift;
				if (std::max({ std::abs(q[0]), std::abs(q[1]), std::abs(q[2]) }) == half) { on.push_back(v); }
			}
			json j, e;
			e["type"] = "dipole";
			e["tags"] = { 9 };
			e["magnitude"] = { { "type", "gaussian" }, { "length", 0.1 }, { "spread", s } };
			j["sources"].push_back(e);
			std::vector<std::string> errs(ranks);
			std::vector<std::vector<double>> seen(ranks);
			mpisim::runWorld(ranks, [&](int r) {
				auto part = def;
				part.elems.clear(); part.attrs.clear();
				for (size_t i = 0; i < def.elems.size(); i++) { if (int(i * ranks / def.elems.size()) == r) { part.elems.push_back(def.elems[i]); part.attrs.push_back(1); } }
				if (ranks > 1) {
					auto fe = part.faceElems();
					std::vector<hx::MeshDef::Bdr> keep;
					for (auto& bd : def.bdr) { auto q = bd.v; std::sort(q.begin(), q.end()); if (fe.count(q)) { keep.push_back(bd); } }
					part.bdr = keep;
				}
				auto mesh = part.build();
				auto src = driver::buildSources(j, &mesh);
				auto& q = **src.begin();
				for (auto& v : on) {
					double tall = 0;
					for (int ft = 0; ft < 2; ft++) for (int d = 0; d < 3; d++) {
						double peak = 0;
						for (double t = 0; t < 20 * s + 12; t += s / 10) { peak = std::max(peak, std::abs(q.eval(vec(v), t, FieldType(ft), Direction(d)))); }
						const double g = std::abs(q.eval(vec(v), 0.0, FieldType(ft), Direction(d)));
						if (!(g <= (off ? 2e-5 : 1e-6) * peak + 1e-12)) { errs[r] = vh::str("field ", g, " at time zero, peak ", peak); }
						tall = std::max(tall, peak);
						seen[r].push_back(peak);
					}
					if (!(tall > 0)) { errs[r] = "the pulse never arrives"; }
				}
			});
			for (int r = 1; r < ranks; r++) { ex.check(seen[r] == seen[0], "ranks 0 and ", r, " hold different dipoles"); }
			for (int r = 0; r < ranks; r++) { ex.check(errs[r].empty(), "rank ", r, ": ", errs[r]); }
			ex.step(); ex.trace();
		});
	}
	return ex.finish();
}
