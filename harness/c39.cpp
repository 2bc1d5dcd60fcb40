// C39: surface-impedance fits over a grid of panels, bands, pole counts and tolerances, and exact rational targets.
#include "hx.hpp"
#include "components/SIBCPoleResidueFitting.h"
#include "math/PhysicalConstants.h"

using namespace maxwell;
using C = std::complex<double>;

// The fit of given samples is not declared in a header; when it is not there the exact targets are left out.
namespace maxwell { __attribute__((weak)) FitResult calcPolesAndResidues(const std::vector<double>& freqs, const Eigen::VectorXcd& target, int order); }

static vh::Explorer ex;

static SGBCProperties panel(double width, double eps, double mu, double sigma, int layers)
{
	SGBCProperties p;
	for (int i = 0; i < layers; i++) { p.layers.push_back(SGBCLayer(Material(eps, mu, sigma), width / layers)); }
	return p;
}
static C impedance(double f, double width, double eps, double mu, double sigma)
{
	// transmission-line form, in long double
	using L = std::complex<long double>;
	const long double c = 299792458.0L, mu0 = physicalConstants::vacuumPermeability_SI, eps0 = physicalConstants::vacuumPermittivity_SI, w = 2 * acosl(-1.0L) * f;
	(void)c;
	const L jw(0, w), Y = jw * (long double)(eps0 * eps) + (long double)sigma, Z = jw * (long double)(mu0 * mu);
	const L eta = std::sqrt(Z / Y), g = std::sqrt(Z * Y);      // principal roots: both in the right half plane
	const L e = std::exp(-2.0L * g * (long double)width);
	const L z = eta * (1.0L + e) / (1.0L - e);
	return C(double(z.real()), double(z.imag()));
}
static bool same(const FitResult& a, const FitResult& b)
{
	auto bits = [](const Eigen::VectorXcd& x, const Eigen::VectorXcd& y) { return x.size() == y.size() && (x.size() == 0 || std::memcmp(x.data(), y.data(), sizeof(C) * x.size()) == 0); };
	return a.N == b.N && a.stable == b.stable && a.max_error == b.max_error && bits(a.poles, b.poles) && bits(a.residues, b.residues);
}
static C eval(const FitResult& r, double f)
{
	C s(0, 2 * M_PI * f), z = 0;
	for (int i = 0; i < r.poles.size(); i++) { z += r.residues[i] / (s - r.poles[i]); }
	return z;
}

int main()
{
	const bool T = ex.thorough();
	const std::vector<double> widths{ 1e-6, 1e-5, 1e-4, 1e-3, 1e-2 }, sigmas{ 0.01, 1, 1e2, 1e4, 1e6, 5.8e7 };
	const std::vector<std::pair<double, double>> mats{ { 1, 1 }, { 4, 1 }, { 1, 20 }, { 10, 3 } };
	const std::vector<std::pair<double, double>> bands{ { 1e3, 1e6 }, { 1e6, 1e9 }, { 1e8, 1e10 }, { 1e9, 1.2e9 }, { 1e4, 1e10 } };
	const std::vector<int> points = T ? std::vector<int>{ 1, 2, 3, 5, 20, 60, 200 } : std::vector<int>{ 1, 2, 5, 20, 60, 200 };
	const std::vector<double> tols = { 0.3, 1e-2, 1e-4, 1e-7 };
	const int maxPoles = T ? 12 : 10;
	for (double w : widths) for (double sg : sigmas) for (auto& m : mats) for (auto& b : bands) {
		if (!ex.begin(vh::str("panel w", w, " sigma", sg, " eps", m.first, " mu", m.second, " band ", b.first, "-", b.second))) { continue; }
		ex.guarded([&] {
			auto props = panel(w, m.first, m.second, sg, 1);
			for (int np : points) {
				std::vector<double> f(np);
				for (int i = 0; i < np; i++) { f[i] = np == 1 ? b.first : b.first * std::pow(b.second / b.first, double(i) / (np - 1)); }
				for (double tol : tols) {
					FitResult prev;
					bool done = false;
					for (int mp = 1; mp <= maxPoles; mp++) {
						const std::string at = vh::str(np, " points, tolerance ", tol, ", up to ", mp, " poles: ");
						ex.state(at); ex.step();
						auto r = findOptimalPoles(props, b.first, b.second, np, mp, tol);
						if (r.N < 0 || r.N > mp || r.poles.size() != r.N || r.residues.size() != r.N) { ex.fail(at + vh::str("N ", r.N, ", ", r.poles.size(), " poles, ", r.residues.size(), " residues")); return; }
						for (int i = 0; i < r.N; i++) {
							if (!std::isfinite(r.poles[i].real()) || !std::isfinite(r.poles[i].imag()) || !std::isfinite(r.residues[i].real()) || !std::isfinite(r.residues[i].imag())) { ex.fail(at + "a pole or residue is not finite"); return; }
							if (r.poles[i].real() > 1e-6) { ex.fail(at + vh::str("a pole grows: ", r.poles[i].real())); return; }
						}
						if (r.stable != (r.N > 0)) { ex.fail(at + vh::str("stable ", r.stable, " with ", r.N, " poles")); return; }
						if (r.N > 0) {
							// what it reports is what it does, at the fitted frequencies
							double err = 0, sens = 0;
							for (double x : f) {
								const C z = impedance(x, w, m.first, m.second, sg), s(0, 2 * M_PI * x);
								err = std::max(err, std::abs(eval(r, x) - z) / std::abs(z));
								double c = 0;
								for (int i = 0; i < r.N; i++) { c += std::abs(r.residues[i] / (s - r.poles[i])) * (1 + std::abs(s) / std::abs(s - r.poles[i])); }
								sens = std::max(sens, c / std::abs(z));
							}
							const double slack = 1e-9 + 1e-11 * sens;      // frequencies accumulate their rounding, sums cancel
							if (!(std::abs(err - r.max_error) <= 1e-5 * err + slack)) { ex.fail(at + vh::str("reports error ", r.max_error, ", has ", err)); return; }
							if (r.max_error < tol && !(err < tol * (1 + 1e-5) + slack)) { ex.fail(at + vh::str("reports success with error ", err)); return; }
						}
						if (mp > 1) {
							if (done && !same(r, prev)) { ex.fail(at + "a larger pole limit changed a successful fit"); return; }
							if (prev.N > 0 && !(r.N > 0 && r.max_error <= prev.max_error)) { ex.fail(at + vh::str("a larger pole limit went from error ", prev.max_error, " to ", r.max_error)); return; }
						}
						done = r.N > 0 && r.max_error < tol;
						prev = r;
						if (mp <= 2) { auto again = findOptimalPoles(props, b.first, b.second, np, mp, tol); ex.step(); if (!same(r, again)) { ex.fail(at + "a second call gives another result"); return; } }
						ex.trace();
					}
				}
			}
		});
	}
	// several layers of one material are the panel of their total width
	for (double w : widths) for (double sg : sigmas) for (int layers = 2; layers <= 3; layers++) {
		if (!ex.begin(vh::str("layers ", layers, " w", w, " sigma", sg))) { continue; }
		ex.guarded([&] {
			ex.step(2);
			auto one = panel(w, 2, 1, sg, 1), many = panel(w, 2, 1, sg, layers);
			auto a = findOptimalPoles(one, 1e6, 1e9, 40, 6, 1e-2), b = findOptimalPoles(many, 1e6, 1e9, 40, 6, 1e-2);
			ex.check(a.N == b.N && std::abs(a.max_error - b.max_error) <= 1e-6 * a.max_error + 1e-9, "one layer: ", a.N, " poles, error ", a.max_error, "; ", layers, " layers: ", b.N, ", ", b.max_error);
			ex.trace();
		});
	}
	// exact rational targets
	if (&calcPolesAndResidues) {
		const std::vector<std::vector<C>> groups{ { -2e6 }, { -1.5e7 }, { -9e7 }, { -6e8 }, { C(-3e6, 4e7), C(-3e6, -4e7) }, { C(-5e7, 3e8), C(-5e7, -3e8) } };
		const std::vector<C> res{ 1e8, -4e7, C(2e8, 0) };
		const int G = int(groups.size());
		for (int mask = 1; mask < (1 << G); mask++) {
			std::vector<C> poles;
			for (int g = 0; g < G; g++) { if (mask >> g & 1) { poles.insert(poles.end(), groups[g].begin(), groups[g].end()); } }
			if (poles.size() > (T ? 5u : 4u)) { continue; }
			const int n = int(poles.size());
			for (int np : { 2 * n + 1, 30, 120 }) {
				if (!ex.begin(vh::str("rational ", mask, " points ", np))) { continue; }
				ex.guarded([&] {
					hx::tuples(std::vector<int>(n, int(res.size())), [&](const std::vector<int>& t) {
						if (ex.failed()) { return; }
						std::string at = "residues ";
						for (int i : t) { at += std::to_string(i); }
						ex.state(at); ex.step();
						std::vector<double> f(np);
						Eigen::VectorXcd z(np);
						double zmin = 1e300, zmax = 0;
						for (int i = 0; i < np; i++) {
							f[i] = 1e5 * std::pow(1e9 / 1e5, double(i) / (np - 1));
							C s(0, 2 * M_PI * f[i]);
							z[i] = 0;
							// conjugate poles carry equal residues so the target is that of a real system
							for (int j = 0; j < n; j++) { const int k = poles[j].imag() < 0 ? j - 1 : j; z[i] += res[t[k]] / (s - poles[j]); }
							zmin = std::min(zmin, std::abs(z[i])); zmax = std::max(zmax, std::abs(z[i]));
						}
						if (zmin < 1e-4 * zmax && n > 2) { return; }
						auto r = calcPolesAndResidues(f, z, n);
						if (r.N != n || r.poles.size() != n) { ex.fail(at + vh::str(": order ", r.N)); return; }
						if (!r.stable) { ex.fail(at + ": reported as growing"); return; }
						if (!(r.max_error < 1e-3)) { ex.fail(at + vh::str(": error ", r.max_error)); return; }
						for (auto& p : poles) {
							double best = 1e300;
							for (int i = 0; i < n; i++) { best = std::min(best, std::abs(r.poles[i] - p)); }
							if (!(best < 1e-2 * std::abs(p))) { ex.fail(at + vh::str(": the pole ", p.real(), "+", p.imag(), "i is missed by ", best)); return; }
						}
						ex.trace();
					});
				});
			}
		}
		ex.note("exact rational targets", 1);
	}
	return ex.finish();
}
