// Small polynomials in x,y,z.
#pragma once
#include "hx.hpp"

namespace px {

struct Poly {
	std::map<std::array<int, 3>, double> c;
	static Poly mono(std::array<int, 3> m, double k = 1) { Poly p; p.c[m] = k; return p; }
	static Poly affine(int d, double root) { Poly p; std::array<int, 3> m{ 0, 0, 0 }; p.c[m] = -root; m[d] = 1; p.c[m] += 1; return p; }
	Poly operator*(const Poly& o) const { Poly r; for (auto& a : c) for (auto& b : o.c) { r.c[{ a.first[0] + b.first[0], a.first[1] + b.first[1], a.first[2] + b.first[2] }] += a.second * b.second; } return r; }
	Poly scaled(double k) const { Poly r = *this; for (auto& a : r.c) { a.second *= k; } return r; }
	Poly plus(const Poly& o, double k = 1) const { Poly r = *this; for (auto& a : o.c) { r.c[a.first] += k * a.second; } return r; }
	Poly d(int x) const { Poly r; for (auto& a : c) { if (a.first[x] > 0) { auto m = a.first; m[x]--; r.c[m] += a.second * a.first[x]; } } return r; }
	double operator()(const hx::V3& p) const { double r = 0; for (auto& a : c) { r += a.second * hx::mono(a.first, p); } return r; }
	int degree() const { int r = 0; for (auto& a : c) { if (a.second != 0) { r = std::max(r, a.first[0] + a.first[1] + a.first[2]); } } return r; }
	int maxDegree() const { int r = 0; for (auto& a : c) { if (a.second != 0) { for (int x : a.first) { r = std::max(r, x); } } } return r; }
};
using Field = std::array<Poly, 6>;   // Ex,Ey,Ez,Hx,Hy,Hz
inline std::array<Poly, 3> curl(const Field& f, int o)
{
	std::array<Poly, 3> r;
	for (int x = 0; x < 3; x++) { const int y = (x + 1) % 3, z = (x + 2) % 3; r[x] = f[o + z].d(y).plus(f[o + y].d(z), -1); }
	return r;
}

} // namespace px
