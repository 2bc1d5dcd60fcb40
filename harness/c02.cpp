// C02: plane waves. All polarisation x propagation x field-type choices over an integer
// lattice and axis scalings, every lattice shift along and across the propagation.
#include "vh.hpp"
#include "components/Sources.h"

using namespace maxwell;
using V3 = std::array<double, 3>;
static V3 cross(const V3& a, const V3& b) { return { a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0] }; }
static double dot(const V3& a, const V3& b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
static V3 unit(V3 a) { const double n = std::sqrt(dot(a, a)); for (auto& x : a) { x /= n; } return a; }
static mfem::Vector vec(const V3& a, int n = 3) { mfem::Vector v(n); for (int i = 0; i < n; i++) { v[i] = a[i]; } return v; }

int main()
{
	vh::Explorer ex;
	const int R = ex.thorough() ? 3 : 2;
	std::vector<V3> lat;
	for (int a = -R; a <= R; a++) for (int b = -R; b <= R; b++) for (int c = -R; c <= R; c++) { if (a || b || c) { lat.push_back({ double(a), double(b), double(c) }); } }
	const std::vector<double> scales{ 1.0, 1e-3, 250.0 };
	const std::vector<V3> pts{ {0,0,0}, {0.3,-0.7,1.1}, {-2.0,0.25,0.5} };
	const std::vector<double> times{ 0.0, 0.4, 3.0 };
	const std::vector<double> shifts{ -1.5, 0.25, 2.0 };
	struct Prof { std::string n; std::unique_ptr<Function> f; std::function<double(double)> g; };
	std::vector<Prof> profs;
	profs.push_back({ "gauss", std::make_unique<Gaussian>(0.8, mfem::Vector({ -0.6 })), [](double x) { const double a = x + 0.6; return std::exp(-a * a / (2 * 0.64)); } });
	profs.push_back({ "mod", std::make_unique<ModulatedGaussian>(1.3, mfem::Vector({ 0.2 }), 0.7), [](double x) { const double a = x - 0.2; return std::exp(-a * a / (2 * 1.69)) * std::cos(2 * M_PI * 0.7 * a); } });
	for (size_t pi = 0; pi < profs.size(); pi++) for (auto& k0 : lat) for (auto& p0 : lat) {
		if (std::abs(dot(k0, p0)) > 1e-12) { continue; }
		for (FieldType given : { E, H }) {
			if (!ex.begin(vh::str("pw ", profs[pi].n, " k=", k0[0], ",", k0[1], ",", k0[2], " p=", p0[0], ",", p0[1], ",", p0[2], given == E ? " E" : " H"))) { continue; }
			ex.guarded([&] {
				const V3 k = unit(k0), p = unit(p0);
				const V3 e = given == E ? p : cross(p, k);
				const V3 h = given == E ? cross(k, p) : p;
				for (double s : scales) {
					V3 ks = k0, ps = p0;
					for (auto& x : ks) { x *= s; }
					for (auto& x : ps) { x *= 1.0 / s; }
					Planewave pw(*profs[pi].f, vec(ps), vec(ks), given);
					TotalField tf(pw);
					auto cl = tf.clone();
					for (auto& x : pts) for (double t : times) {
						const double amp = profs[pi].g(dot(x, k) - t);
						V3 ev, hv;
						for (int d = 0; d < 3; d++) { ev[d] = cl->eval(vec(x), t, E, d); hv[d] = cl->eval(vec(x), t, H, d); ex.step(2); }
						for (int d = 0; d < 3; d++) {
							ex.check(vh::close(ev[d], e[d] * amp, 1e-9, 1e-12), "E", d, " is ", ev[d], " instead of ", e[d] * amp);
							ex.check(vh::close(hv[d], h[d] * amp, 1e-9, 1e-12), "H", d, " is ", hv[d], " instead of ", h[d] * amp);
						}
						ex.check(std::abs(dot(ev, k)) < 1e-12 && std::abs(dot(hv, k)) < 1e-12 && std::abs(dot(ev, hv)) < 1e-12, "field not transverse");
						ex.check(dot(cross(ev, hv), k) >= -1e-15, "triad not right handed");
						ex.check(vh::close(dot(ev, ev), dot(hv, hv), 1e-9, 1e-14), "E and H amplitudes differ");
						for (double sh : shifts) {
							V3 y = x, z = x;
							for (int d = 0; d < 3; d++) { y[d] += sh * k[d]; z[d] += sh * e[d] - 0.5 * sh * h[d]; }
							for (int d = 0; d < 3; d++) {
								ex.check(vh::close(cl->eval(vec(y), t + sh, E, d), ev[d], 1e-8, 1e-11) && vh::close(cl->eval(vec(y), t + sh, H, d), hv[d], 1e-8, 1e-11), "not travelling at light speed");
								ex.check(vh::close(cl->eval(vec(z), t, E, d), ev[d], 1e-8, 1e-11) && vh::close(cl->eval(vec(z), t, H, d), hv[d], 1e-8, 1e-11), "varies across the propagation direction");
								ex.step(4);
							}
						}
						for (int n = 1; n <= 2; n++) {
							V3 y = x;
							for (int d = n; d < 3; d++) { y[d] = 0.0; }
							for (int d = 0; d < 3; d++) for (FieldType ft : { E, H }) { ex.check(cl->eval(vec(y, n), t, ft, d) == cl->eval(vec(y), t, ft, d), n, "-coordinate position differs from its zero-padded form"); ex.step(); }
						}
					}
				}
				ex.trace();
			});
		}
	}
	return ex.finish();
}
