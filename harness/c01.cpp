// C01: materials. Every triple over a grid of exact boundary neighbours, exercised
// through every ordering of queries, against the defining formulas.
#include "vh.hpp"
#include "components/Material.h"
#include "math/PhysicalConstants.h"
#include <limits>

using namespace maxwell;

int main()
{
	vh::Explorer ex;
	const double inf = std::numeric_limits<double>::infinity(), nan = std::numeric_limits<double>::quiet_NaN();
	const double den = std::numeric_limits<double>::denorm_min();
	std::vector<double> em{ -inf, -1e300, -2.0, -1.0, -den, -0.0, 0.0, den, 1e-12, 0.25, 0.5, 0.999, 1.0 - 1e-9, std::nextafter(1.0, 0.0), 1.0, std::nextafter(1.0, 2.0),
		1.0 + 1e-9, 1.001, 1.5, 2.0, 2.25, 3.0, 4.0, 5.5, 9.0, 10.0, 11.7, 80.0, 1e3, 1e6, 1e12, 1e150, nan };
	std::vector<double> sg{ -inf, -1e10, -1.0, -1e-12, -den, -0.0, 0.0, den, 1e-300, 1e-12, 1e-3, 0.5, 1.0, 377.0, 2.25e10, 1e300, nan };
	if (ex.thorough()) { for (int i = 1; i <= 60; i++) { em.push_back(0.5 + i * 0.0437); sg.push_back((i - 30) * 0.071); } }
	for (double e : em) for (double m : em) for (double s : sg) {
		if (!ex.begin(vh::str("mat e=", e, " m=", m, " s=", s))) { continue; }
		const bool ok = e >= 1.0 && m >= 1.0 && s >= 0.0;
		std::unique_ptr<Material> mat;
		bool threw = false;
		try { mat = std::make_unique<Material>(e, m, s); }
		catch (const std::exception&) { threw = true; }
		catch (...) { ex.fail("refused with something that is not a standard exception"); continue; }
		ex.step();
		ex.trace();
		if (!ex.check(threw != ok, ok ? "valid material refused" : "invalid material accepted")) { continue; }
		if (!ok) { ex.note("refused"); continue; }
		ex.note("accepted");
		auto query = [&](int q, double& out) -> bool {
			try {
				switch (q) {
				case 0: out = mat->getImpedance(); break;
				case 1: out = mat->getAdmittance(); break;
				case 2: out = mat->getSpeedOfWave(); break;
				}
				return true;
			}
			catch (const std::exception&) { return false; }
		};
		const long double L = (long double)e * (long double)m;
		const double want[3] = { double(std::sqrt((long double)m / (long double)e)), double(std::sqrt((long double)e / (long double)m)), double(1.0L / std::sqrt(L)) };
		static const int perms[6][3] = { {0,1,2},{0,2,1},{1,0,2},{1,2,0},{2,0,1},{2,1,0} };
		for (auto& p : perms) {
			for (int q : p) {
				double v = nan;
				const bool answered = query(q, v);
				ex.step();
				static const char* n[3] = { "impedance", "admittance", "wave speed" };
				if (!ex.check(answered == (s == 0.0), n[q], answered ? " answered for a lossy material" : " refused for a lossless material")) { break; }
				if (answered) { ex.check(std::isinf(double(L)) || vh::close(v, want[q], 1e-12, 1e-320), n[q], " is ", v, " instead of ", want[q]); }
				ex.check(mat->getPermittivity() == e && mat->getPermeability() == m && mat->getConductivity() == s, "constants changed to ", mat->getPermittivity(), " ", mat->getPermeability(), " ", mat->getConductivity());
			}
		}
		const Material copy(*mat);
		ex.check(copy.getPermittivity() == e && copy.getPermeability() == m && copy.getConductivity() == s, "copy differs");
	}
	if (ex.begin("vacuum")) {
		auto v = buildVacuumMaterial();
		ex.check(v.getPermittivity() == 1.0 && v.getPermeability() == 1.0 && v.getConductivity() == 0.0 && v.getImpedance() == 1.0 && v.getAdmittance() == 1.0 && v.getSpeedOfWave() == 1.0, "vacuum is not vacuum");
		ex.step();
		ex.trace();
	}
	if (ex.begin("constants")) {
		using namespace physicalConstants;
		const long double pi = 3.14159265358979323846264338327950288L;
		ex.check(speedOfLight == 1.0 && vacuumPermittivity == 1.0 && vacuumPermeability == 1.0 && freeSpaceImpedance == 1.0, "natural units are not unity");
		ex.check(speedOfLight_SI == 299792458.0, "light speed");
		ex.check(vh::close(speedOfLight_SI, 1.0 / std::sqrt(vacuumPermittivity_SI * vacuumPermeability_SI), 1e-8), "SI constants are not mutually consistent");
		ex.check(vh::close(freeSpaceImpedance_SI, std::sqrt(vacuumPermeability_SI / vacuumPermittivity_SI), 1e-8), "SI impedance is not sqrt(mu0/eps0)");
		ex.check(vh::close(vacuumPermeability_SI, double(4e-7L * pi), 1e-8), "SI permeability");
		ex.check(vh::close(invFourPi, double(1.0L / (4.0L * pi)), 1e-14) && vh::close(invFourPiEps0, double(1.0L / (4.0L * pi)), 1e-14), "1/(4 pi)");
		ex.check(vh::close(invFourPiEps0_SI * vacuumPermittivity_SI, invFourPi, 1e-12), "1/(4 pi eps0)");
		ex.step();
		ex.trace();
	}
	return ex.finish();
}
