// C03: excitation profiles against independent closed forms (long double series).
#include "vh.hpp"
#include "components/Sources.h"
#include <algorithm>

using namespace maxwell;
using LD = long double;
static const LD PI = 3.14159265358979323846264338327950288L;
static mfem::Vector vec(const std::vector<double>& a) { mfem::Vector v(int(a.size())); for (size_t i = 0; i < a.size(); i++) { v[int(i)] = a[i]; } return v; }

// J6(x) = 1/pi * integral of cos(6 t - x sin t) over [0, pi]: the trapezoidal rule
// converges spectrally for this periodic integrand.
static LD j6c(LD x)
{
	const int N = 200;
	LD sum = 0;
	for (int k = 0; k < 2 * N; k++) { const LD t = PI * k / N; sum += std::cos(6 * t - x * std::sin(t)); }
	return sum / (2 * N);
}
// j6: ascending series for small arguments, upward recurrence from sin(x)/x otherwise.
static LD j6s(LD x)
{
	if (x > 6) {
		LD a = std::sin(x) / x, b = std::sin(x) / (x * x) - std::cos(x) / x;
		for (int l = 1; l < 6; l++) { const LD c = (2 * l + 1) / x * b - a; a = b; b = c; }
		return b;
	}
	LD term = std::pow(x, 6) / 135135.0L, sum = 0;
	for (int k = 0; k < 100; k++) { sum += term; term *= -(x * x / 2) / ((k + 1.0L) * (15.0L + 2 * k)); }
	return sum;
}

int main()
{
	vh::Explorer ex;
	std::vector<double> g{ -1.7, -0.5, 0.0, 0.3, 1.0 };
	if (ex.thorough()) { g = { -1.7, -0.9, -0.5, -0.1, 0.0, 0.3, 0.77, 1.0, 2.2 }; }
	std::vector<std::vector<double>> pts[4];
	for (double x : g) { pts[1].push_back({ x }); for (double y : g) { pts[2].push_back({ x, y }); for (double z : g) { pts[3].push_back({ x, y, z }); } } }
	const std::vector<double> spreads{ 0.1, 0.5, 2.0 };
	const std::vector<double> means{ -0.4, 0.0, 0.9 };
	auto same = [&](const Function& f, const std::function<LD(const std::vector<double>&)>& ref, int mind, int dim, double tol) {
		auto c = f.clone();
		ex.check(f.dimension() == dim && c->dimension() == dim, "dimension() is ", f.dimension(), " instead of ", dim);
		for (int n = mind; n <= 3; n++) for (auto& p : pts[n]) {
			const auto x = vec(p);
			const double v = f.eval(x), w = double(ref(p));
			ex.step(3);
			ex.check(vh::close(v, w, tol, tol * 1e-1), "value ", v, " instead of ", w, " at ", p[0], n > 1 ? vh::str(",", p[1]) : "", n > 2 ? vh::str(",", p[2]) : "");
			ex.check(c->eval(x) == v && f.eval(x) == v, "clone or repeated evaluation differs");
			for (int i = 0; i < n; i++) { ex.check(x[i] == p[i], "position changed"); }
		}
		ex.trace();
	};
	for (double s : spreads) for (int dim = 1; dim <= 3; dim++) for (double m0 : means) for (double m1 : means) for (double m2 : means) {
		if ((dim < 2 && m1 != means[0]) || (dim < 3 && m2 != means[0])) { continue; }
		std::vector<double> m{ m0, m1, m2 };
		m.resize(dim);
		if (!ex.begin(vh::str("gauss dim=", dim, " s=", s, " m=", m0, ",", m1, ",", m2))) { continue; }
		ex.guarded([&] { same(Gaussian(s, vec(m), dim), [&](const std::vector<double>& p) {
			LD q = 0;
			for (int i = 0; i < dim; i++) { q += ((LD)p[i] - m[i]) * ((LD)p[i] - m[i]); }
			return std::exp(-q / (2 * (LD)s * s));
		}, dim, dim, 1e-11); });
	}
	for (double s : spreads) for (double m : means) for (double f : { 0.0, 0.3, 1.0, 4.0 }) {
		if (!ex.begin(vh::str("modgauss s=", s, " m=", m, " f=", f))) { continue; }
		ex.guarded([&] { same(ModulatedGaussian(s, vec({ m }), f), [&](const std::vector<double>& p) {
			const LD a = (LD)p[0] - m;
			return std::exp(-a * a / (2 * (LD)s * s)) * std::cos(2 * PI * f * a);
		}, 1, 1, 1e-11); });
	}
	for (int dim = 1; dim <= 3; dim++) for (size_t a = 0; a < 4; a++) for (size_t b = 0; b < 4; b++) for (size_t c = 0; c < 4; c++) {
		if ((dim < 2 && b) || (dim < 3 && c)) { continue; }
		std::vector<std::size_t> m{ a, b, c };
		m.resize(dim);
		if (!ex.begin(vh::str("mode dim=", dim, " ", a, b, c))) { continue; }
		ex.guarded([&] { same(SinusoidalMode(m), [&](const std::vector<double>& p) {
			LD r = 1;
			for (int i = 0; i < dim; i++) { r *= std::sin((LD)m[i] * PI * (LD)p[i]); }
			return r;
		}, dim, dim, 1e-11); });
	}
	if (ex.begin("besselj6_2D")) {
		ex.guarded([&] { same(BesselJ6(), [&](const std::vector<double>& p) {
			const LD r = std::sqrt((LD)p[0] * p[0] + (LD)p[1] * p[1]);
			return j6c(13.589290170541217L * r) * std::cos(6 * std::atan2((LD)p[1], (LD)p[0]));
		}, 2, 2, 1e-9); });
	}
	if (ex.begin("besselj6_3D")) {
		ex.guarded([&] { same(SphericalBesselJ6(), [&](const std::vector<double>& p) {
			const LD rho2 = (LD)p[0] * p[0] + (LD)p[1] * p[1], r = std::sqrt(rho2 + (LD)p[2] * p[2]);
			if (r == 0) { return (LD)0; }
			const LD st2 = rho2 / (r * r);
			const LD norm = 10395.0L * std::sqrt(13.0L / (4 * PI * 479001600.0L));
			return j6s(13.589290170541217L * r) * norm * st2 * st2 * st2 * std::cos(6 * std::atan2((LD)p[1], (LD)p[0]));
		}, 3, 3, 1e-8); });
	}
	// dipole
	for (double len : { 0.1, 2.0 }) for (double s : { 0.3, 1.2 }) for (double mean : { 0.5, 3.0 }) for (double t : { 0.0, 1.0, 4.0 }) {
		if (!ex.begin(vh::str("dipole l=", len, " s=", s, " m=", mean, " t=", t))) { continue; }
		ex.guarded([&] {
			DerivGaussDipole dip(len, s, mean);
			auto cl = dip.clone();
			for (int n = 2; n <= 3; n++) for (auto& p : pts[n]) {
				const LD x = p[0], y = p[1], z = n == 3 ? p[2] : 0.0;
				const LD r = std::sqrt(x * x + y * y + z * z);
				if (r == 0) { continue; }
				const LD w = s * std::sqrt(2.0L), u = (t - mean - r) / w;
				const LD I = w * std::exp(1.0L) / 2 * std::exp(-u * u), I1 = -2 * u / w * I, I2 = (4 * u * u - 2) / (w * w) * I;
				const LD rho = std::sqrt(x * x + y * y), ct = z / r, st = rho / r, cp = rho > 0 ? x / rho : 1, sp = rho > 0 ? y / rho : 0;
				const LD k = len / (4 * PI);
				const LD er = 2 * k * ct * (I / (r * r * r) + I1 / (r * r)), et = k * st * (I / (r * r * r) + I1 / (r * r) + I2 / r), hp = k * st * (I2 / r + I1 / (r * r));
				const LD want[2][3] = { { er * st * cp + et * ct * cp, er * st * sp + et * ct * sp, er * ct - et * st }, { -hp * sp, hp * cp, 0 } };
				LD scale = 0;
				for (auto& a : want) for (LD v : a) { scale = std::max(scale, std::abs(v)); }
				for (int f = 0; f < 2; f++) for (int d = 0; d < 3; d++) {
					const double v = cl->eval(vec(p), t, FieldType(f), Direction(d));
					ex.step();
					ex.check(std::abs(v - (double)want[f][d]) <= 1e-8 * (double)scale + 1e-13, f ? "H" : "E", d, " is ", v, " instead of ", (double)want[f][d]);
				}
			}
			ex.trace();
		});
	}
	for (size_t a = 1; a < 4; a++) for (size_t b = 1; b < 4; b++) for (double bx : { 1.0, 2.5 }) for (double by : { 1.0, 0.7 }) {
		if (!ex.begin(vh::str("tm2d ", a, b, " box ", bx, ",", by))) { continue; }
		ex.guarded([&] {
			const std::vector<std::size_t> m{ a, b };
			const std::vector<double> box{ bx, by };
			TM2DSinusoidalMode f(m, box);
			TM2D_Dx_SinusoidalMode fx(m, box);
			TM2D_Dy_SinusoidalMode fy(m, box);
			auto c = f.clone(), cx = fx.clone(), cy = fy.clone();
			const LD ka = a * PI / bx, kb = b * PI / by, w = std::sqrt(ka * ka + kb * kb);
			for (int n = 2; n <= 3; n++) for (auto& p : pts[n]) for (double t : { 0.0, 0.35, 2.0 }) {
				const LD T = std::cos(w * t);
				ex.check(vh::close(c->eval(vec(p), t), double(T * std::sin(ka * p[0]) * std::sin(kb * p[1])), 1e-10, 1e-11), "mode value wrong");
				ex.check(vh::close(cx->eval(vec(p), t), double(T * ka / w * std::cos(ka * p[0]) * std::sin(kb * p[1])), 1e-10, 1e-11), "x derivative wrong");
				ex.check(vh::close(cy->eval(vec(p), t), double(T * kb / w * std::sin(ka * p[0]) * std::cos(kb * p[1])), 1e-10, 1e-11), "y derivative wrong");
				ex.step(3);
			}
			ex.trace();
		});
	}
	return ex.finish();
}
