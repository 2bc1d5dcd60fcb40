#pragma once
#include <cmath>
// GSL includes the Condon-Shortley phase in sphPlm; std::sph_legendre does as well.
inline double gsl_sf_legendre_sphPlm(int l, int m, double x) { return std::sph_legendre(l, m, std::acos(x)); }
