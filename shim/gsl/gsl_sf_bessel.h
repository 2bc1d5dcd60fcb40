#pragma once
#include <cmath>
inline double gsl_sf_bessel_jl(int l, double x) { return std::sph_bessel(l, x); }
inline double gsl_sf_bessel_Jn(int n, double x) { return n < 0 ? ((-n) % 2 ? -1 : 1) * std::cyl_bessel_j(-n, x) : std::cyl_bessel_j(n, x); }
