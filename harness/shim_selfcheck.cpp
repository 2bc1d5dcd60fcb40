// Conformance run of the finite element stand-in: every element kind, order and basis in the
// bound against closed forms. Knows nothing of the repository.
#include "hx.hpp"

static long checks = 0, bad = 0;
static void want(bool ok, const std::string& what) { checks++; if (!ok) { bad++; if (bad < 20) { std::printf("  %s\n", what.c_str()); } } }
static bool near(double a, double b, double tol = 1e-10) { return std::abs(a - b) <= tol * std::max({ 1.0, std::abs(a), std::abs(b) }); }
static double fact(int n) { double r = 1; for (int i = 2; i <= n; i++) { r *= i; } return r; }

// integral of x^a y^b z^c over the reference cell
static double exact(hx::Kind k, int a, int b, int c)
{
	switch (k) {
	case hx::SEG: return 1.0 / (a + 1);
	case hx::QUAD: return 1.0 / ((a + 1) * (b + 1));
	case hx::HEX: return 1.0 / ((a + 1) * (b + 1) * (c + 1));
	case hx::TRI: return fact(a) * fact(b) / fact(a + b + 2);
	default: return fact(a) * fact(b) * fact(c) / fact(a + b + c + 3);
	}
}
static mfem::Geometry::Type geom(hx::Kind k)
{
	static const mfem::Geometry::Type g[] = { mfem::Geometry::SEGMENT, mfem::Geometry::TRIANGLE, mfem::Geometry::SQUARE, mfem::Geometry::TETRAHEDRON, mfem::Geometry::CUBE };
	return g[k];
}

int main()
{
	using namespace mfem;
	for (hx::Kind k : { hx::SEG, hx::TRI, hx::QUAD, hx::TET, hx::HEX }) {
		const int d = hx::kindDim(k);
		const std::string kn = hx::kindName(k);
		// quadrature: every monomial up to the stated degree
		for (int q = 0; q <= 12; q++) {
			const auto& ir = IntRules.Get(geom(k), q);
			for (int a = 0; a <= q; a++) for (int b = 0; a + b <= q && (d > 1 || b == 0); b++) for (int c = 0; a + b + c <= q && (d > 2 || c == 0); c++) {
				double s = 0;
				for (int i = 0; i < ir.GetNPoints(); i++) { const auto& p = ir.IntPoint(i); s += p.weight * std::pow(p.x, a) * (d > 1 ? std::pow(p.y, b) : 1) * (d > 2 ? std::pow(p.z, c) : 1); }
				want(std::abs(s - exact(k, a, b, c)) < 1e-12, vh::str(kn, " quadrature ", q, " of ", a, b, c));
			}
		}
		const std::array<int, 3> n{ 2, d > 1 ? 2 : 0, d > 2 ? 1 : 0 };
		auto def = hx::box(k, n, { 1.0, 0.8, 0.6 }, d > 1 ? 0.06 : 0.0);
		auto mesh = def.build();
		// volumes, closed surfaces, faces seen from both sides
		double vol = 0;
		for (int e = 0; e < mesh.GetNE(); e++) { vol += mesh.GetElementVolume(e); }
		want(near(vol, d == 1 ? 1.0 : (d == 2 ? 0.8 : 0.48)), kn + " volume of the box");
		std::vector<hx::V3> sum(mesh.GetNE(), hx::V3{ 0, 0, 0 });
		for (int f = 0; f < mesh.GetNumFaces(); f++) {
			auto* t = mesh.GetFaceElementTransformations(f);
			if (!t) { continue; }
			const auto& ir = IntRules.Get(t->GetGeometryType(), 4);
			for (int i = 0; i < ir.GetNPoints(); i++) {
				const auto& p = ir.IntPoint(i);
				t->SetAllIntPoints(&p);
				Vector nor(d);
				if (d == 1) { nor(0) = 2 * t->GetElement1IntPoint().x - 1; } else { CalcOrtho(t->Jacobian(), nor); }
				Vector x1(3), x2(3);
				x1 = 0.0; x2 = 0.0;
				t->Elem1->Transform(t->GetElement1IntPoint(), x1);
				for (int j = 0; j < d; j++) { sum[t->Elem1No][j] += p.weight * nor(j); }
				if (t->Elem2No >= 0) {
					t->Elem2->Transform(t->GetElement2IntPoint(), x2);
					for (int j = 0; j < d; j++) { sum[t->Elem2No][j] -= p.weight * nor(j); want(near(x1(j), x2(j)), kn + " face point seen from both sides"); }
				}
			}
		}
		for (auto& s : sum) { want(hx::norm(s) < 1e-12, kn + " outward normals of a cell add up to zero"); }
		for (int basis : { BasisType::GaussLegendre, BasisType::GaussLobatto }) for (int p = basis == BasisType::GaussLobatto ? 1 : 0; p <= 4; p++) {
			const std::string key = vh::str(kn, " basis ", basis, " order ", p);
			L2_FECollection fec(p, d, basis);
			FiniteElementSpace fes(&mesh, &fec);
			const int ndof = k == hx::TRI ? (p + 1) * (p + 2) / 2 : (k == hx::TET ? (p + 1) * (p + 2) * (p + 3) / 6 : int(std::lround(std::pow(p + 1, d))));
			want(fes.GetNDofs() == ndof * mesh.GetNE(), key + " number of unknowns");
			const auto* fe = fes.GetFE(0);
			Vector sh(fe->GetDof());
			// nodal: one at its own node, zero at the others
			for (int i = 0; i < fe->GetDof(); i++) {
				fe->CalcShape(fe->GetNodes().IntPoint(i), sh);
				for (int j = 0; j < fe->GetDof(); j++) { want(std::abs(sh(j) - (i == j)) < 1e-10, key + " nodal property"); }
			}
			// every monomial of the order is represented, integrated and differentiated exactly
			BilinearForm mass(&fes);
			mass.AddDomainIntegrator(new MassIntegrator);
			mass.Assemble();
			mass.Finalize();
			std::vector<std::unique_ptr<BilinearForm>> der;
			ConstantCoefficient one(1.0);
			for (int x = 0; x < d; x++) {
				der.push_back(std::make_unique<BilinearForm>(&fes));
				der.back()->AddDomainIntegrator(new DerivativeIntegrator(one, x));
				der.back()->Assemble();
				der.back()->Finalize();
			}
			for (int a = 0; a <= p; a++) for (int b = 0; a + b <= p && (d > 1 || b == 0); b++) for (int c = 0; a + b + c <= p && (d > 2 || c == 0); c++) {
				// monomials about the affine image: bent (bilinear) cells keep order <= 1 only
				if ((k == hx::QUAD || k == hx::HEX) && a + b + c > 1) { continue; }
				const std::array<int, 3> ex{ a, b, c };
				auto mono = [&](const std::array<int, 3>& e, const Vector& x) { double r = 1; for (int i = 0; i < d; i++) { r *= std::pow(x(i), e[i]); } return r; };
				FunctionCoefficient fc([&](const Vector& x) { return mono(ex, x); });
				GridFunction g(&fes);
				g.ProjectCoefficient(fc);
				want(g.ComputeL2Error(fc) < 1e-9, key + " projection");
				Vector mg(g.Size()), dg(g.Size()), md(g.Size());
				mass.Mult(g, mg);
				for (int x = 0; x < d; x++) {
					GridFunction h(&fes);
					auto e2 = ex;
					const double fac = e2[x];
					if (e2[x]) { e2[x]--; }
					FunctionCoefficient dc([&](const Vector& v) { return fac * mono(e2, v); });
					h.ProjectCoefficient(dc);
					der[x]->Mult(g, dg);
					mass.Mult(h, md);
					for (int i = 0; i < dg.Size(); i++) { want(std::abs(dg(i) - md(i)) < 1e-10, key + " derivative"); }
				}
			}
			GridFunction u(&fes);
			ConstantCoefficient uc(1.0);
			u.ProjectCoefficient(uc);
			Vector mu(u.Size());
			mass.Mult(u, mu);
			want(near(mu.Sum(), vol), key + " mass of one is the volume");
		}
	}
	// Runge-Kutta families: the stability polynomial of y' = ly, and its order
	struct Lin : TimeDependentOperator {
		double l;
		explicit Lin(double v) : TimeDependentOperator(1), l(v) {}
		void Mult(const Vector& x, Vector& y) const override { y(0) = l * x(0); }
		void ImplicitSolve(const double dt, const Vector& x, Vector& k) override { k(0) = l * x(0) / (1 - dt * l); }
	};
	for (double l : { -2.0, -0.5, 0.3, 1.0 }) for (double h : { 0.05, 0.1, 0.4 }) {
		const double z = l * h;
		std::vector<std::pair<std::shared_ptr<ODESolver>, double>> s{
			{ std::make_shared<ForwardEulerSolver>(), 1 + z },
			{ std::make_shared<RK4Solver>(), 1 + z + z * z / 2 + z * z * z / 6 + z * z * z * z / 24 },
			{ std::make_shared<RK3SSPSolver>(), 1 + z + z * z / 2 + z * z * z / 6 },
			{ std::make_shared<BackwardEulerSolver>(), 1 / (1 - z) },
			{ std::make_shared<ImplicitMidpointSolver>(), (1 + z / 2) / (1 - z / 2) },
			{ std::make_shared<TrapezoidalRuleSolver>(), (1 + z / 2) / (1 - z / 2) } };
		for (auto& c : s) {
			Lin op(l);
			c.first->Init(op);
			Vector y(1);
			y(0) = 1.0;
			double t = 0, dt = h;
			c.first->Step(y, t, dt);
			want(near(y(0), c.second, 1e-12) && near(t, h), vh::str("integrator at ", l, " ", h, ": ", y(0), " instead of ", c.second));
		}
	}
	std::printf("finite element stand-in: %ld checks, %ld failed\n", checks, bad);
	return bad ? 1 : 0;
}
