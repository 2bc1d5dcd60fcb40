// C40: spherical/Cartesian conversions over lattice vectors and angle grids.
#include "vh.hpp"
#include "components/Spherical.h"
#include "math/Geometry.h"

using namespace maxwell;

int main()
{
	vh::Explorer ex;
	const int R = ex.thorough() ? 8 : 5;
	auto near = [](double a, double b, double s) { return std::abs(a - b) <= 1e-7 * s; };
	for (double sc : { 1.0, 1e-9, 1e9, 0.1 }) for (int a = -R; a <= R; a++) for (int b = -R; b <= R; b++) for (int c = -R; c <= R; c++) {
		if (!a && !b && !c) { continue; }
		for (int n = 2; n <= 3; n++) {
			if (n == 2 && (c || (!a && !b))) { continue; }
			if (!ex.begin(vh::str("cart", n, " ", a, ",", b, ",", c, " x", sc))) { continue; }
			ex.guarded([&] {
				std::vector<double> p{ a * sc, b * sc, c * sc };
				const double L = std::sqrt(p[0] * p[0] + p[1] * p[1] + p[2] * p[2]);
				p.resize(n);
				mfem::Vector mv(n);
				for (int i = 0; i < n; i++) { mv[i] = p[i]; }
				const SphericalVector s1(p), s2(mv);
				ex.step(2);
				ex.check(s1.radius == s2.radius && s1.theta == s2.theta && s1.phi == s2.phi, "the two constructors disagree");
				ex.check(near(s1.radius, L, L) && s1.theta >= 0 && s1.theta <= M_PI + 1e-12, "radius or theta out of range");
				for (int i = 0; i < n; i++) { ex.check(mv[i] == p[i], "input changed"); }
				const auto q = s1.convertToCartesian();
				ex.step();
				p.resize(3, 0.0);
				for (int i = 0; i < 3; i++) { ex.check(near(q[i], p[i], L), "round trip changes coordinate ", i, " from ", p[i], " to ", q[i]); }
				const SphericalVector again(q);
				ex.check(near(again.radius, s1.radius, L) && std::abs(again.theta - s1.theta) < 1e-6, "not idempotent");
				// local basis is orthonormal, right handed and aligned with the position
				double B[3][3];
				for (int k = 0; k < 3; k++) {
					const auto f = s1.convertSphericalVectorFieldToCartesian(k == 0, k == 1, k == 2);
					for (int i = 0; i < 3; i++) { B[k][i] = f[i]; }
					ex.step();
				}
				for (int i = 0; i < 3; i++) { ex.check(near(B[0][i] * L, p[i], L), "radial basis vector not along the position"); }
				for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) {
					double d = 0;
					for (int k = 0; k < 3; k++) { d += B[i][k] * B[j][k]; }
					ex.check(std::abs(d - (i == j)) < 1e-12, "local basis not orthonormal");
				}
				const double cx = B[0][1] * B[1][2] - B[0][2] * B[1][1], cy = B[0][2] * B[1][0] - B[0][0] * B[1][2], cz = B[0][0] * B[1][1] - B[0][1] * B[1][0];
				ex.check(std::abs(cx - B[2][0]) + std::abs(cy - B[2][1]) + std::abs(cz - B[2][2]) < 1e-12, "local basis not right handed");
				for (auto& v : std::vector<std::array<double, 3>>{ {1, 2, -3}, {0.5, 0, 4}, {-2, 1e-3, 7} }) {
					const auto f = s1.convertSphericalVectorFieldToCartesian(v[0], v[1], v[2]);
					ex.step();
					for (int i = 0; i < 3; i++) { ex.check(std::abs(f[i] - (v[0] * B[0][i] + v[1] * B[1][i] + v[2] * B[2][i])) < 1e-10, "field conversion not linear"); }
					ex.check(vh::close(f[0] * f[0] + f[1] * f[1] + f[2] * f[2], v[0] * v[0] + v[1] * v[1] + v[2] * v[2], 1e-12), "length not preserved");
				}
				ex.trace();
			});
		}
	}
	const int N = ex.thorough() ? 48 : 24;
	for (double r : { 1e-6, 1.0, 42.0 }) for (int i = 0; i <= N; i++) for (int j = 0; j < 2 * N; j++) {
		if (!ex.begin(vh::str("sph r=", r, " th=", i, "/", N, " ph=", j, "/", N))) { continue; }
		ex.guarded([&] {
			const double th = M_PI * i / N, ph = M_PI * j / N - M_PI;
			const SphericalVector s(r, th, ph);
			ex.check(s.radius == r && s.theta == th && s.phi == ph, "parameters altered");
			const auto c = s.convertToCartesian();
			const double w[3] = { r * std::sin(th) * std::cos(ph), r * std::sin(th) * std::sin(ph), r * std::cos(th) };
			for (int d = 0; d < 3; d++) { ex.check(near(c[d], w[d], r), "coordinate ", d, " is ", c[d], " instead of ", w[d]); }
			const SphericalVector b(c);
			ex.check(near(b.radius, r, r) && std::abs(b.theta - th) < 1e-7, "radius or polar angle not recovered");
			if (i > 0 && i < N) { ex.check(std::abs(std::remainder(b.phi - ph, 2 * M_PI)) < 1e-9, "azimuth not recovered"); }
			ex.step(3);
			ex.trace();
		});
	}
	// listings of vertices: segments and triangles over up to five vertices
	const int V = 5;
	auto say = [](const std::vector<int>& v) { std::string r; for (int i : v) { r += char('0' + i); } return r; };
	for (int n = 2; n <= 3; n++) {
		std::vector<std::vector<int>> all;
		for (int a = 0; a < V; a++) for (int b = 0; b < V; b++) for (int c = 0; c < (n == 3 ? V : 1); c++) {
			if (a == b || (n == 3 && (a == c || b == c))) { continue; }
			all.push_back(n == 3 ? std::vector<int>{ a, b, c } : std::vector<int>{ a, b });
		}
		for (auto& x : all) for (auto& y : all) {
			if (!ex.begin(vh::str("listings ", say(x), " ", say(y)))) { continue; }
			ex.guarded([&] {
				bool want = false;
				auto r = y;
				for (int k = 0; k < (n == 3 ? 3 : 1); k++) { want = want || r == x; std::rotate(r.begin(), r.begin() + 1, r.end()); }
				bool got;
				if (n == 3) { mfem::Triangle a(x.data()), b(y.data()); got = elementsHaveSameOrientation(&a, &b); }
				else { mfem::Segment a(x.data()), b(y.data()); got = elementsHaveSameOrientation(&a, &b); }
				ex.check(got == want, got ? "said to be equally oriented" : "not said to be equally oriented");
				ex.step();
				ex.trace();
			});
		}
	}
	return ex.finish();
}
