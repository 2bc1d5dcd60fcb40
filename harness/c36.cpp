// C36: panel face frames over all lattice normals, lengths and mesh dimensions.
#include "vh.hpp"
#include "solver/SolverExtension.h"

using namespace maxwell;

int main()
{
	vh::Explorer ex;
	const int R = ex.thorough() ? 12 : 7;
	// Scalings are powers of two so that the direction is exactly the same.
	std::vector<std::array<double, 3>> ns;
	for (int a = -R; a <= R; a++) for (int b = -R; b <= R; b++) for (int c = -R; c <= R; c++) { if (a || b || c) { ns.push_back({ double(a), double(b), double(c) }); } }
	// Directions around the thresholds where a frame construction may switch branch.
	for (double t : { 0.5, 0.57735026918962576, 0.70710678118654752, 0.8, 0.9, 0.95, 0.99, 0.999, 0.999999, 0.999999999 }) {
		for (double d : { -1e-3, -1e-9, 0.0, 1e-9, 1e-3 }) for (int ax = 0; ax < 3; ax++) for (int sg : { -1, 1 }) for (int ot : { 0, 1 }) {
			const double c = std::min(1.0, t + d), s = std::sqrt(std::max(0.0, 1 - c * c));
			std::array<double, 3> n{ 0, 0, 0 };
			n[ax] = sg * c;
			n[(ax + 1) % 3] = ot ? s : s * 0.6;
			n[(ax + 2) % 3] = ot ? 0.0 : -s * 0.8;
			ns.push_back(n);
		}
	}
	for (int dim = 1; dim <= 3; dim++) for (auto& n : ns) {
		if (dim == 1 && (n[1] || n[2] || !n[0])) { continue; }
		if (dim == 2 && (n[2] || (!n[0] && !n[1]))) { continue; }
		if (!ex.begin(vh::str("dim=", dim, " n=", n[0], ",", n[1], ",", n[2]))) { continue; }
		ex.guarded([&] {
			const double len = std::sqrt(n[0] * n[0] + n[1] * n[1] + n[2] * n[2]);
			double first[9] = {};
			int k = 0;
			for (double sc : { 1.0, std::ldexp(1.0, -20), 0.25, std::ldexp(1.0, 17) }) {
				mfem::Vector v(dim);
				for (int i = 0; i < dim; i++) { v[i] = n[i] * sc; }
				double r[9];
				for (auto& x : r) { x = std::nan(""); }
				buildFaceRotationMatrix(v, dim, r);
				ex.step();
				for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) {
					double d = 0, e = 0;
					for (int q = 0; q < 3; q++) { d += r[3 * i + q] * r[3 * j + q]; e += r[3 * q + i] * r[3 * q + j]; }
					ex.check(std::abs(d - (i == j)) < 1e-12 && std::abs(e - (i == j)) < 1e-12, "frame is not orthonormal: row product ", i, j, " = ", d);
				}
				const double det = r[0] * (r[4] * r[8] - r[5] * r[7]) - r[1] * (r[3] * r[8] - r[5] * r[6]) + r[2] * (r[3] * r[7] - r[4] * r[6]);
				ex.check(std::abs(det - 1) < 1e-12, "frame is not right handed: det ", det);
				if (dim > 1) { for (int i = 0; i < 3; i++) { ex.check(std::abs(r[i] - n[i] / len) < 1e-12, "first axis is not the unit normal"); } }
				else { for (int i = 0; i < 9; i++) { ex.check(r[i] == (i % 4 == 0), "one-dimensional frame is not the identity"); } }
				if (k++ == 0) { std::copy(r, r + 9, first); }
				for (int i = 0; i < 9; i++) { ex.check(std::abs(r[i] - first[i]) < 1e-12, "frame depends on the length of the normal"); }
			}
			ex.trace();
		});
	}
	return ex.finish();
}
