// Linear algebra, time integrators and small runtime pieces.
#include "mfem.hpp"
#include "mpi_sim.hpp"
#include <filesystem>

namespace mfem {

std::ostream& out = std::cout;
std::ostream& err = std::cerr;

ShimIndexError::ShimIndexError(const char* what, long i, long n)
	: std::runtime_error(std::string("index out of range: ") + what + " [" + std::to_string(i) + "] of " + std::to_string(n)) {}
void shimIndexFail(const char* what, long i, long n) { throw ShimIndexError(what, i, n); }
void mfem_error(const char* msg) { throw ErrorException(msg ? msg : "mfem_error"); }

std::string to_padded_string(int i, int digits)
{
	std::ostringstream o;
	o << std::setw(digits) << std::setfill('0') << i;
	return o.str();
}
std::string to_string(int i) { return std::to_string(i); }

int Mpi::WorldRank() { return mpisim::rank(); }
int Mpi::WorldSize() { return mpisim::size(); }

// ---------------------------------------------------------------- Vector
// Fresh storage is poisoned so that reads of never-written entries show up.
Vector::Vector(int n) : own_(n, std::numeric_limits<double>::quiet_NaN()), p_(own_.data()), n_(n) {}
Vector::Vector(const Vector& o) : own_(o.p_, o.p_ + o.n_), p_(own_.data()), n_(o.n_) {}
Vector::Vector(Vector&& o) noexcept : own_(std::move(o.own_)), p_(o.p_), n_(o.n_)
{
	o.own_.clear();
	o.p_ = nullptr;
	o.n_ = 0;
}
void Vector::SetSize(int n)
{
	if (n < 0) { shimIndexFail("Vector::SetSize", n, 0); }
	if (n == n_) { return; }
	if (n <= Capacity()) { n_ = n; return; }
	own_.assign(n, std::numeric_limits<double>::quiet_NaN());
	p_ = own_.data();
	n_ = n;
}
Vector& Vector::operator=(const Vector& o)
{
	if (this == &o) { return *this; }
	SetSize(o.n_);
	std::copy(o.p_, o.p_ + o.n_, p_);
	return *this;
}
Vector& Vector::operator=(Vector&& o)
{
	if (this == &o) { return *this; }
	own_ = std::move(o.own_);
	p_ = o.p_;
	n_ = o.n_;
	o.own_.clear();
	o.p_ = nullptr;
	o.n_ = 0;
	return *this;
}
Vector& Vector::operator=(double v) { std::fill(p_, p_ + n_, v); return *this; }

static void same(const char* w, int a, int b) { if (a != b) { throw ShimIndexError(w, a, b); } }

double Vector::operator*(const Vector& v) const { same("Vector dot sizes", n_, v.n_); return (*this) * v.p_; }
double Vector::operator*(const double* v) const { double s = 0; for (int i = 0; i < n_; i++) { s += p_[i] * v[i]; } return s; }
Vector& Vector::operator*=(double c) { for (int i = 0; i < n_; i++) { p_[i] *= c; } return *this; }
Vector& Vector::operator*=(const Vector& v) { same("Vector*=", n_, v.n_); for (int i = 0; i < n_; i++) { p_[i] *= v.p_[i]; } return *this; }
Vector& Vector::operator/=(double c) { const double m = 1.0 / c; for (int i = 0; i < n_; i++) { p_[i] *= m; } return *this; }
Vector& Vector::operator/=(const Vector& v) { same("Vector/=", n_, v.n_); for (int i = 0; i < n_; i++) { p_[i] /= v.p_[i]; } return *this; }
Vector& Vector::operator+=(const Vector& v) { same("Vector+=", n_, v.n_); for (int i = 0; i < n_; i++) { p_[i] += v.p_[i]; } return *this; }
Vector& Vector::operator-=(const Vector& v) { same("Vector-=", n_, v.n_); for (int i = 0; i < n_; i++) { p_[i] -= v.p_[i]; } return *this; }
Vector& Vector::operator+=(double c) { for (int i = 0; i < n_; i++) { p_[i] += c; } return *this; }
Vector& Vector::operator-=(double c) { for (int i = 0; i < n_; i++) { p_[i] -= c; } return *this; }
Vector& Vector::Add(double a, const Vector& v) { same("Vector::Add", n_, v.n_); if (a != 0.0) { for (int i = 0; i < n_; i++) { p_[i] += a * v.p_[i]; } } return *this; }
Vector& Vector::Set(double a, const Vector& v) { same("Vector::Set", n_, v.n_); for (int i = 0; i < n_; i++) { p_[i] = a * v.p_[i]; } return *this; }
void Vector::SetVector(const Vector& v, int off) { shimCheck("Vector::SetVector", off + v.n_, n_ + 1); shimCheck("Vector::SetVector", off, n_ + 1); std::copy(v.p_, v.p_ + v.n_, p_ + off); }
void Vector::AddSubVector(const Vector& v, int off) { shimCheck("Vector::AddSubVector", off + v.n_, n_ + 1); for (int i = 0; i < v.n_; i++) { p_[off + i] += v.p_[i]; } }
void Vector::Swap(Vector& o) { std::swap(own_, o.own_); std::swap(p_, o.p_); std::swap(n_, o.n_); }
double Vector::Norml2() const
{
	double m = Normlinf();
	if (n_ == 0 || m == 0) { return 0; }
	if (n_ == 1) { return std::abs(p_[0]); }
	double s = 0;
	for (int i = 0; i < n_; i++) { s += (p_[i] / m) * (p_[i] / m); }
	return m * std::sqrt(s);
}
double Vector::Norml1() const { double s = 0; for (int i = 0; i < n_; i++) { s += std::abs(p_[i]); } return s; }
double Vector::Normlinf() const { double s = 0; for (int i = 0; i < n_; i++) { if (!(std::abs(p_[i]) <= s)) { s = std::abs(p_[i]); } } return s; }
double Vector::DistanceTo(const double* q) const { double s = 0; for (int i = 0; i < n_; i++) { s += (p_[i] - q[i]) * (p_[i] - q[i]); } return std::sqrt(s); }
double Vector::Min() const { if (!n_) { return std::numeric_limits<double>::infinity(); } return *std::min_element(p_, p_ + n_); }
double Vector::Max() const { if (!n_) { return -std::numeric_limits<double>::infinity(); } return *std::max_element(p_, p_ + n_); }
double Vector::Sum() const { double s = 0; for (int i = 0; i < n_; i++) { s += p_[i]; } return s; }
int Vector::CheckFinite() const { int b = 0; for (int i = 0; i < n_; i++) { b += !std::isfinite(p_[i]); } return b; }

static inline int dof(int j) { return j >= 0 ? j : -1 - j; }
static inline double sgn(int j) { return j >= 0 ? 1.0 : -1.0; }
void Vector::GetSubVector(const Array<int>& d, Vector& v) const { v.SetSize(d.Size()); GetSubVector(d, v.GetData()); }
void Vector::GetSubVector(const Array<int>& d, double* v) const { for (int i = 0; i < d.Size(); i++) { v[i] = sgn(d[i]) * (*this)(dof(d[i])); } }
void Vector::SetSubVector(const Array<int>& d, double v) { for (int i = 0; i < d.Size(); i++) { (*this)(dof(d[i])) = sgn(d[i]) * v; } }
void Vector::SetSubVector(const Array<int>& d, const Vector& v) { shimCheck("Vector::SetSubVector", d.Size(), v.Size() + 1); SetSubVector(d, v.GetData()); }
void Vector::SetSubVector(const Array<int>& d, double* v) { for (int i = 0; i < d.Size(); i++) { (*this)(dof(d[i])) = sgn(d[i]) * v[i]; } }
void Vector::AddElementVector(const Array<int>& d, const Vector& v) { shimCheck("Vector::AddElementVector", d.Size(), v.Size() + 1); AddElementVector(d, v.GetData()); }
void Vector::AddElementVector(const Array<int>& d, double* v) { for (int i = 0; i < d.Size(); i++) { (*this)(dof(d[i])) += sgn(d[i]) * v[i]; } }
void Vector::AddElementVector(const Array<int>& d, double a, const Vector& v) { for (int i = 0; i < d.Size(); i++) { (*this)(dof(d[i])) += sgn(d[i]) * a * v(i); } }
void Vector::Print(std::ostream& os, int w) const
{
	for (int i = 0; i < n_; i++) { os << p_[i] << ((i + 1) % w == 0 || i + 1 == n_ ? '\n' : ' '); }
}
void Vector::Randomize(int seed) { srand(seed); for (int i = 0; i < n_; i++) { p_[i] = rand() / (RAND_MAX + 1.0); } }
void Vector::Load(std::istream& in, int n) { SetSize(n); for (int i = 0; i < n; i++) { in >> p_[i]; } }
void Vector::Load(std::istream& in) { int n; in >> n; Load(in, n); }

double InnerProduct(const Vector& a, const Vector& b) { return a * b; }
double InnerProduct(MPI_Comm c, const Vector& a, const Vector& b)
{
	double l = a * b, g = 0;
	MPI_Allreduce(&l, &g, 1, MPI_DOUBLE, MPI_SUM, c);
	return g;
}
void add(const Vector& a, const Vector& b, Vector& o) { add(1.0, a, 1.0, b, o); }
void add(const Vector& a, double s, const Vector& b, Vector& o) { add(1.0, a, s, b, o); }
void add(double a, const Vector& x, const Vector& y, Vector& z) { add(a, x, a, y, z); }
void add(double a, const Vector& x, double b, const Vector& y, Vector& z)
{
	same("add", x.Size(), y.Size());
	z.SetSize(x.Size());
	for (int i = 0; i < x.Size(); i++) { z(i) = a * x(i) + b * y(i); }
}
void subtract(const Vector& a, const Vector& b, Vector& o) { add(1.0, a, -1.0, b, o); }

void Operator::AddMult(const Vector& x, Vector& y, const double a) const
{
	Vector z(y.Size());
	Mult(x, z);
	y.Add(a, z);
}

// ---------------------------------------------------------------- GMRES (restarted, unpreconditioned)
void GMRESSolver::Mult(const Vector& b, Vector& x) const
{
	const int n = b.Size();
	auto dot = [&](const Vector& p, const Vector& q) { return InnerProduct(comm, p, q); };
	Vector r(n), w(n);
	if (iterative_mode) {
		oper->Mult(x, r);
		subtract(b, r, r);
	}
	else {
		x.SetSize(n);
		x = 0.0;
		r = b;
	}
	double beta = std::sqrt(dot(r, r));
	const double target = std::max(rel_tol * beta, abs_tol);
	converged = false;
	final_iter = 0;
	final_norm = beta;
	if (beta <= target || beta == 0) { converged = true; return; }
	while (final_iter < max_iter) {
		std::vector<Vector> V(1, r);
		V[0] *= 1.0 / beta;
		std::vector<std::vector<double>> H(m + 1, std::vector<double>(m, 0.0));
		std::vector<double> cs(m), sn(m), s(m + 1, 0.0);
		s[0] = beta;
		int k = 0;
		bool done = false;
		for (; k < m && final_iter < max_iter; k++, final_iter++) {
			oper->Mult(V[k], w);
			for (int i = 0; i <= k; i++) {
				H[i][k] = dot(w, V[i]);
				w.Add(-H[i][k], V[i]);
			}
			H[k + 1][k] = std::sqrt(dot(w, w));
			V.push_back(w);
			if (H[k + 1][k] != 0.0) { V.back() *= 1.0 / H[k + 1][k]; }
			for (int i = 0; i < k; i++) {
				const double t = cs[i] * H[i][k] + sn[i] * H[i + 1][k];
				H[i + 1][k] = -sn[i] * H[i][k] + cs[i] * H[i + 1][k];
				H[i][k] = t;
			}
			const double d = std::hypot(H[k][k], H[k + 1][k]);
			cs[k] = d ? H[k][k] / d : 1.0;
			sn[k] = d ? H[k + 1][k] / d : 0.0;
			H[k][k] = d;
			H[k + 1][k] = 0.0;
			s[k + 1] = -sn[k] * s[k];
			s[k] = cs[k] * s[k];
			final_norm = std::abs(s[k + 1]);
			if (final_norm <= target) { k++; final_iter++; done = true; break; }
		}
		for (int i = k - 1; i >= 0; i--) {
			for (int j = i + 1; j < k; j++) { s[i] -= H[i][j] * s[j]; }
			s[i] /= H[i][i];
		}
		for (int i = 0; i < k; i++) { x.Add(s[i], V[i]); }
		oper->Mult(x, r);
		subtract(b, r, r);
		beta = std::sqrt(dot(r, r));
		final_norm = beta;
		if (done || beta <= target) { converged = true; return; }
	}
}

// ---------------------------------------------------------------- DenseMatrix
void DenseMatrix::SetSize(int h, int w)
{
	if (h == height && w == width) { return; }
	height = h;
	width = w;
	d_.assign(size_t(h) * w, 0.0);
}
DenseMatrix& DenseMatrix::operator+=(const DenseMatrix& o) { Add(1.0, o); return *this; }
DenseMatrix& DenseMatrix::operator-=(const DenseMatrix& o) { Add(-1.0, o); return *this; }
void DenseMatrix::Add(double a, const DenseMatrix& o)
{
	same("DenseMatrix::Add", height, o.height);
	same("DenseMatrix::Add", width, o.width);
	for (size_t i = 0; i < d_.size(); i++) { d_[i] += a * o.d_[i]; }
}
void DenseMatrix::Mult(const Vector& x, Vector& y) const { same("DenseMatrix::Mult", x.Size(), width); y.SetSize(height); Mult(x.GetData(), y.GetData()); }
void DenseMatrix::Mult(const double* x, double* y) const
{
	for (int i = 0; i < height; i++) { y[i] = 0; }
	for (int j = 0; j < width; j++) { for (int i = 0; i < height; i++) { y[i] += d_[i + size_t(j) * height] * x[j]; } }
}
void DenseMatrix::MultTranspose(const Vector& x, Vector& y) const
{
	same("DenseMatrix::MultTranspose", x.Size(), height);
	y.SetSize(width);
	for (int j = 0; j < width; j++) { double s = 0; for (int i = 0; i < height; i++) { s += (*this)(i, j) * x(i); } y(j) = s; }
}
void DenseMatrix::AddMult(const Vector& x, Vector& y, const double a) const
{
	same("DenseMatrix::AddMult", x.Size(), width);
	for (int i = 0; i < height; i++) { double s = 0; for (int j = 0; j < width; j++) { s += (*this)(i, j) * x(j); } y(i) += a * s; }
}
void DenseMatrix::Transpose() { DenseMatrix t; t.Transpose(*this); *this = t; }
void DenseMatrix::Transpose(const DenseMatrix& A)
{
	DenseMatrix t(A.Width(), A.Height());
	for (int i = 0; i < A.Height(); i++) { for (int j = 0; j < A.Width(); j++) { t(j, i) = A(i, j); } }
	*this = t;
}
double DenseMatrix::Det() const
{
	same("DenseMatrix::Det", height, width);
	const auto& m = *this;
	switch (height) {
	case 0: return 1;
	case 1: return m(0, 0);
	case 2: return m(0, 0) * m(1, 1) - m(0, 1) * m(1, 0);
	case 3:
		return m(0, 0) * (m(1, 1) * m(2, 2) - m(1, 2) * m(2, 1))
			+ m(1, 0) * (m(0, 2) * m(2, 1) - m(0, 1) * m(2, 2))
			+ m(2, 0) * (m(0, 1) * m(1, 2) - m(0, 2) * m(1, 1));
	default: break;
	}
	DenseMatrix a(m);
	double det = 1;
	for (int k = 0; k < height; k++) {
		int p = k;
		for (int i = k + 1; i < height; i++) { if (std::abs(a(i, k)) > std::abs(a(p, k))) { p = i; } }
		if (a(p, k) == 0) { return 0; }
		if (p != k) { det = -det; for (int j = 0; j < width; j++) { std::swap(a(p, j), a(k, j)); } }
		det *= a(k, k);
		for (int i = k + 1; i < height; i++) {
			const double f = a(i, k) / a(k, k);
			for (int j = k; j < width; j++) { a(i, j) -= f * a(k, j); }
		}
	}
	return det;
}
double DenseMatrix::Weight() const
{
	if (width == 0) { return 1.0; }
	if (height == width) { return Det(); }
	DenseMatrix g;
	MultAtB(*this, *this, g);
	return std::sqrt(g.Det());
}
double DenseMatrix::Trace() const { double t = 0; for (int i = 0; i < std::min(height, width); i++) { t += (*this)(i, i); } return t; }
double DenseMatrix::FNorm() const { double s = 0; for (double x : d_) { s += x * x; } return std::sqrt(s); }
double DenseMatrix::MaxMaxNorm() const { double s = 0; for (double x : d_) { s = std::max(s, std::abs(x)); } return s; }
void DenseMatrix::Invert()
{
	same("DenseMatrix::Invert", height, width);
	const int n = height;
	DenseMatrix a(*this), b(n);
	for (int i = 0; i < n; i++) { b(i, i) = 1.0; }
	for (int k = 0; k < n; k++) {
		int p = k;
		for (int i = k + 1; i < n; i++) { if (std::abs(a(i, k)) > std::abs(a(p, k))) { p = i; } }
		if (a(p, k) == 0.0) { mfem_error("DenseMatrix::Invert: singular matrix"); }
		if (p != k) { for (int j = 0; j < n; j++) { std::swap(a(p, j), a(k, j)); std::swap(b(p, j), b(k, j)); } }
		const double f = 1.0 / a(k, k);
		for (int j = 0; j < n; j++) { a(k, j) *= f; b(k, j) *= f; }
		for (int i = 0; i < n; i++) {
			if (i == k) { continue; }
			const double c = a(i, k);
			if (c == 0.0) { continue; }
			for (int j = 0; j < n; j++) { a(i, j) -= c * a(k, j); b(i, j) -= c * b(k, j); }
		}
	}
	*this = b;
}
void DenseMatrix::GetColumn(int c, Vector& v) const { v.SetSize(height); for (int i = 0; i < height; i++) { v(i) = (*this)(i, c); } }
void DenseMatrix::GetRow(int r, Vector& v) const { v.SetSize(width); for (int j = 0; j < width; j++) { v(j) = (*this)(r, j); } }
void DenseMatrix::SetCol(int c, const Vector& v) { for (int i = 0; i < height; i++) { (*this)(i, c) = v(i); } }
void DenseMatrix::SetRow(int r, const Vector& v) { for (int j = 0; j < width; j++) { (*this)(r, j) = v(j); } }
void DenseMatrix::CopyMN(const DenseMatrix& A, int m, int n, int ro, int co)
{
	SetSize(m, n);
	for (int j = 0; j < n; j++) { for (int i = 0; i < m; i++) { (*this)(i, j) = A(ro + i, co + j); } }
}
void DenseMatrix::CopyMN(const DenseMatrix& A, int ro, int co)
{
	for (int j = 0; j < A.Width(); j++) { for (int i = 0; i < A.Height(); i++) { (*this)(ro + i, co + j) = A(i, j); } }
}
double DenseMatrix::CalcSingularvalue(const int k) const
{
	// eigenvalues of AtA by Jacobi rotations
	DenseMatrix g;
	MultAtB(*this, *this, g);
	const int n = g.Height();
	for (int sweep = 0; sweep < 60; sweep++) {
		for (int p = 0; p < n; p++) {
			for (int q = p + 1; q < n; q++) {
				if (std::abs(g(p, q)) < 1e-300) { continue; }
				const double th = 0.5 * std::atan2(2 * g(p, q), g(q, q) - g(p, p)), c = std::cos(th), s = std::sin(th);
				for (int i = 0; i < n; i++) { const double a = g(i, p), b = g(i, q); g(i, p) = c * a - s * b; g(i, q) = s * a + c * b; }
				for (int i = 0; i < n; i++) { const double a = g(p, i), b = g(q, i); g(p, i) = c * a - s * b; g(q, i) = s * a + c * b; }
			}
		}
	}
	std::vector<double> e;
	for (int i = 0; i < n; i++) { e.push_back(std::sqrt(std::max(0.0, g(i, i)))); }
	std::sort(e.rbegin(), e.rend());
	return e.at(k);
}
void DenseMatrix::Print(std::ostream& os, int) const
{
	for (int i = 0; i < height; i++) { os << "[row " << i << "]\n"; for (int j = 0; j < width; j++) { os << (*this)(i, j) << ' '; } os << '\n'; }
}
void DenseMatrixInverse::Mult(const DenseMatrix& B, DenseMatrix& X) const { X.SetSize(inv_.Height(), B.Width()); mfem::Mult(inv_, B, X); }

void Mult(const DenseMatrix& b, const DenseMatrix& c, DenseMatrix& a)
{
	same("Mult", b.Width(), c.Height());
	DenseMatrix t(b.Height(), c.Width());
	for (int j = 0; j < c.Width(); j++) { for (int k = 0; k < b.Width(); k++) { for (int i = 0; i < b.Height(); i++) { t(i, j) += b(i, k) * c(k, j); } } }
	a = t;
}
void AddMult(const DenseMatrix& b, const DenseMatrix& c, DenseMatrix& a) { DenseMatrix t; Mult(b, c, t); a += t; }
void MultAtB(const DenseMatrix& a, const DenseMatrix& b, DenseMatrix& o) { DenseMatrix t; t.Transpose(a); Mult(t, b, o); }
void MultABt(const DenseMatrix& a, const DenseMatrix& b, DenseMatrix& o) { DenseMatrix t; t.Transpose(b); Mult(a, t, o); }
void MultAAt(const DenseMatrix& a, DenseMatrix& o) { MultABt(a, a, o); }
void AddMultVWt(const Vector& v, const Vector& w, DenseMatrix& m) { AddMult_a_VWt(1.0, v, w, m); }
void AddMultVVt(const Vector& v, DenseMatrix& m) { AddMult_a_VWt(1.0, v, v, m); }
void AddMult_a_VWt(double a, const Vector& v, const Vector& w, DenseMatrix& m)
{
	same("AddMult_a_VWt", v.Size(), m.Height());
	same("AddMult_a_VWt", w.Size(), m.Width());
	for (int j = 0; j < w.Size(); j++) { for (int i = 0; i < v.Size(); i++) { m(i, j) += a * v(i) * w(j); } }
}
void AddMult_a_VVt(double a, const Vector& v, DenseMatrix& m) { AddMult_a_VWt(a, v, v, m); }
void MultVWt(const Vector& v, const Vector& w, DenseMatrix& m) { m.SetSize(v.Size(), w.Size()); m = 0.0; AddMultVWt(v, w, m); }
void MultVVt(const Vector& v, DenseMatrix& m) { MultVWt(v, v, m); }
void CalcAdjugate(const DenseMatrix& a, DenseMatrix& adj)
{
	adj.SetSize(a.Width(), a.Height());
	if (a.Width() < a.Height()) {
		if (a.Width() == 1) { for (int i = 0; i < a.Height(); i++) { adj(0, i) = a(i, 0); } return; }
		double e = 0, f = 0, g = 0;
		for (int i = 0; i < 3; i++) { e += a(i, 0) * a(i, 0); f += a(i, 0) * a(i, 1); g += a(i, 1) * a(i, 1); }
		for (int i = 0; i < 3; i++) { adj(0, i) = a(i, 0) * g - a(i, 1) * f; adj(1, i) = a(i, 1) * e - a(i, 0) * f; }
		return;
	}
	switch (a.Height()) {
	case 1: adj(0, 0) = 1.0; break;
	case 2:
		adj(0, 0) = a(1, 1); adj(0, 1) = -a(0, 1);
		adj(1, 0) = -a(1, 0); adj(1, 1) = a(0, 0);
		break;
	default:
		for (int i = 0; i < 3; i++) {
			for (int j = 0; j < 3; j++) {
				const int r0 = (j + 1) % 3, r1 = (j + 2) % 3, c0 = (i + 1) % 3, c1 = (i + 2) % 3;
				adj(i, j) = a(r0, c0) * a(r1, c1) - a(r0, c1) * a(r1, c0);
			}
		}
	}
}
void CalcInverse(const DenseMatrix& a, DenseMatrix& inv)
{
	CalcAdjugate(a, inv);
	double d = a.Weight();
	if (a.Width() < a.Height()) { d *= d; }
	inv *= 1.0 / d;
}
void CalcOrtho(const DenseMatrix& J, Vector& n)
{
	if (J.Height() == 2 && J.Width() == 1) {
		n(0) = J(1, 0);
		n(1) = -J(0, 0);
		return;
	}
	if (J.Height() != 3 || J.Width() != 2) { mfem_error("CalcOrtho: bad Jacobian shape"); }
	n(0) = J(1, 0) * J(2, 1) - J(2, 0) * J(1, 1);
	n(1) = J(2, 0) * J(0, 1) - J(0, 0) * J(2, 1);
	n(2) = J(0, 0) * J(1, 1) - J(1, 0) * J(0, 1);
}

void Transpose(const Table& a, Table& at)
{
	at.rows_.assign(a.Width(), Array<int>());
	for (int i = 0; i < a.Size(); i++) { for (int c : a.rows_[i]) { at.rows_[c].Append(i); } }
}

// ---------------------------------------------------------------- SparseMatrix
SparseMatrix::SparseMatrix(int h, int w) : Operator(h, w < 0 ? h : w), fin_(false), rows_(h) {}
SparseMatrix::SparseMatrix(int* I, int* J, double* data, int m, int n) : SparseMatrix(I, J, data, m, n, true, true, false) {}
SparseMatrix::SparseMatrix(int* I, int* J, double* data, int m, int n, bool oij, bool oa, bool) : Operator(m, n)
{
	I_.assign(I, I + m + 1);
	J_.assign(J, J + I[m]);
	for (int j : J_) { shimCheck("SparseMatrix column", j, n); }
	if (data) { A_.assign(data, data + I[m]); }
	else { A_.assign(I[m], 0.0); }
	if (oij) { delete[] I; delete[] J; }
	if (oa) { delete[] data; }
}
SparseMatrix::SparseMatrix(const SparseMatrix& o, bool) : Operator(o.height, o.width), fin_(o.fin_), rows_(o.rows_), I_(o.I_), J_(o.J_), A_(o.A_) {}
SparseMatrix& SparseMatrix::operator=(const SparseMatrix& o) { SparseMatrix t(o); Swap(t); return *this; }
SparseMatrix& SparseMatrix::operator=(double v) { for (auto& r : rows_) { for (auto& e : r) { e.second = v; } } std::fill(A_.begin(), A_.end(), v); return *this; }
void SparseMatrix::Swap(SparseMatrix& o)
{
	std::swap(height, o.height);
	std::swap(width, o.width);
	std::swap(fin_, o.fin_);
	rows_.swap(o.rows_);
	I_.swap(o.I_);
	J_.swap(o.J_);
	A_.swap(o.A_);
}
void SparseMatrix::need() const { if (!fin_) { mfem_error("SparseMatrix: not finalized"); } }
void SparseMatrix::Finalize(int skip, bool)
{
	if (fin_) { return; }
	I_.assign(1, 0);
	J_.clear();
	A_.clear();
	for (auto& r : rows_) {
		for (auto& e : r) { if (!skip || e.second != 0.0) { J_.push_back(e.first); A_.push_back(e.second); } }
		I_.push_back(int(J_.size()));
	}
	rows_.clear();
	fin_ = true;
}
int SparseMatrix::NumNonZeroElems() const { if (fin_) { return int(A_.size()); } int n = 0; for (auto& r : rows_) { n += int(r.size()); } return n; }
int SparseMatrix::RowSize(int i) const { shimCheck("SparseMatrix row", i, height); return fin_ ? I_[i + 1] - I_[i] : int(rows_[i].size()); }
int SparseMatrix::MaxRowSize() const { int m = 0; for (int i = 0; i < height; i++) { m = std::max(m, RowSize(i)); } return m; }
double& SparseMatrix::ref(int i, int j)
{
	shimCheck("SparseMatrix row", i, height);
	shimCheck("SparseMatrix column", j, width);
	if (!fin_) { return rows_[i][j]; }
	for (int k = I_[i]; k < I_[i + 1]; k++) { if (J_[k] == j) { return A_[k]; } }
	mfem_error("SparseMatrix: entry not present in finalized matrix");
}
double SparseMatrix::get(int i, int j) const
{
	shimCheck("SparseMatrix row", i, height);
	shimCheck("SparseMatrix column", j, width);
	if (!fin_) { auto it = rows_[i].find(j); return it == rows_[i].end() ? 0.0 : it->second; }
	double s = 0;
	for (int k = I_[i]; k < I_[i + 1]; k++) { if (J_[k] == j) { s += A_[k]; } }
	return s;
}
int SparseMatrix::GetRow(const int r, Array<int>& cols, Vector& v) const
{
	const int n = RowSize(r);
	cols.SetSize(n);
	Vector t(n);
	if (fin_) { for (int k = 0; k < n; k++) { cols[k] = J_[I_[r] + k]; t(k) = A_[I_[r] + k]; } }
	else { int k = 0; for (auto& e : rows_[r]) { cols[k] = e.first; t(k++) = e.second; } }
	v = std::move(t);
	return 0;
}
void SparseMatrix::SetRow(const int r, const Array<int>& cols, const Vector& v)
{
	shimCheck("SparseMatrix row", r, height);
	if (cols.Size() != v.Size()) { throw ShimIndexError("SparseMatrix::SetRow", cols.Size(), v.Size()); }
	for (int c : cols) { shimCheck("SparseMatrix column", c, width); }
	if (!fin_) { for (int k = 0; k < cols.Size(); k++) { rows_[r][cols[k]] = v(k); } return; }
	if (cols.Size() != RowSize(r)) { mfem_error("SparseMatrix::SetRow: size mismatch"); }
	for (int k = 0; k < cols.Size(); k++) { J_[I_[r] + k] = cols[k]; A_[I_[r] + k] = v(k); }
}
void SparseMatrix::AddRow(const int r, const Array<int>& cols, const Vector& v) { for (int k = 0; k < cols.Size(); k++) { ref(r, cols[k]) += v(k); } }
void SparseMatrix::ScaleRow(const int r, const double s)
{
	shimCheck("SparseMatrix row", r, height);
	if (fin_) { for (int k = I_[r]; k < I_[r + 1]; k++) { A_[k] *= s; } }
	else { for (auto& e : rows_[r]) { e.second *= s; } }
}
void SparseMatrix::AddSubMatrix(const Array<int>& rows, const Array<int>& cols, const DenseMatrix& m, int skip)
{
	for (int i = 0; i < rows.Size(); i++) {
		for (int j = 0; j < cols.Size(); j++) {
			const double a = m(i, j);
			if (skip && a == 0.0) { if (skip == 1 || get(dof(rows[i]), dof(cols[j])) == 0.0) { continue; } }
			ref(dof(rows[i]), dof(cols[j])) += sgn(rows[i]) * sgn(cols[j]) * a;
		}
	}
}
void SparseMatrix::SetSubMatrix(const Array<int>& rows, const Array<int>& cols, const DenseMatrix& m, int skip)
{
	for (int i = 0; i < rows.Size(); i++) {
		for (int j = 0; j < cols.Size(); j++) { if (skip && m(i, j) == 0.0) { continue; } ref(rows[i], cols[j]) = m(i, j); }
	}
}
void SparseMatrix::GetSubMatrix(const Array<int>& rows, const Array<int>& cols, DenseMatrix& m) const
{
	m.SetSize(rows.Size(), cols.Size());
	for (int i = 0; i < rows.Size(); i++) { for (int j = 0; j < cols.Size(); j++) { m(i, j) = get(rows[i], cols[j]); } }
}
// Where a harness that schedules worker threads may interrupt the one that runs.
void (*preemptionPoint)() = nullptr;
static void preemptible() { if (preemptionPoint) { preemptionPoint(); } }

void SparseMatrix::Mult(const Vector& x, Vector& y) const
{
	preemptible();
	if (y.Size() != height) { throw ShimIndexError("SparseMatrix::Mult output", y.Size(), height); }
	y = 0.0;
	AddMult(x, y);
}
void SparseMatrix::AddMult(const Vector& x, Vector& y, const double a) const
{
	if (x.Size() != width) { throw ShimIndexError("SparseMatrix::AddMult input", x.Size(), width); }
	if (y.Size() != height) { throw ShimIndexError("SparseMatrix::AddMult output", y.Size(), height); }
	const double* xp = x.GetData();
	for (int i = 0; i < height; i++) {
		double s = 0;
		if (fin_) { for (int k = I_[i]; k < I_[i + 1]; k++) { s += A_[k] * xp[J_[k]]; } }
		else { for (auto& e : rows_[i]) { s += e.second * xp[e.first]; } }
		y(i) += a * s;
	}
}
void SparseMatrix::MultTranspose(const Vector& x, Vector& y) const { y.SetSize(width); y = 0.0; AddMultTranspose(x, y); }
void SparseMatrix::AddMultTranspose(const Vector& x, Vector& y, const double a) const
{
	if (x.Size() != height || y.Size() != width) { throw ShimIndexError("SparseMatrix::AddMultTranspose", x.Size(), height); }
	for (int i = 0; i < height; i++) {
		if (fin_) { for (int k = I_[i]; k < I_[i + 1]; k++) { y(J_[k]) += a * A_[k] * x(i); } }
		else { for (auto& e : rows_[i]) { y(e.first) += a * e.second * x(i); } }
	}
}
SparseMatrix& SparseMatrix::operator*=(double a) { for (auto& x : A_) { x *= a; } for (auto& r : rows_) { for (auto& e : r) { e.second *= a; } } return *this; }
SparseMatrix& SparseMatrix::operator+=(const SparseMatrix& o)
{
	Array<int> c;
	Vector v;
	for (int i = 0; i < height; i++) { o.GetRow(i, c, v); AddRow(i, c, v); }
	return *this;
}
void SparseMatrix::Threshold(double tol, bool)
{
	need();
	std::vector<int> I{ 0 }, J;
	std::vector<double> A;
	for (int i = 0; i < height; i++) {
		for (int k = I_[i]; k < I_[i + 1]; k++) { if (std::abs(A_[k]) > tol) { J.push_back(J_[k]); A.push_back(A_[k]); } }
		I.push_back(int(J.size()));
	}
	I_.swap(I);
	J_.swap(J);
	A_.swap(A);
}
DenseMatrix* SparseMatrix::ToDenseMatrix() const { auto* d = new DenseMatrix(height, width); ToDenseMatrix(*d); return d; }
void SparseMatrix::ToDenseMatrix(DenseMatrix& B) const
{
	B.SetSize(height, width);
	B = 0.0;
	for (int i = 0; i < height; i++) {
		if (fin_) { for (int k = I_[i]; k < I_[i + 1]; k++) { B(i, J_[k]) += A_[k]; } }
		else { for (auto& e : rows_[i]) { B(i, e.first) += e.second; } }
	}
}
double SparseMatrix::MaxNorm() const { double m = 0; for (double a : A_) { m = std::max(m, std::abs(a)); } for (auto& r : rows_) { for (auto& e : r) { m = std::max(m, std::abs(e.second)); } } return m; }
void SparseMatrix::GetDiag(Vector& d) const { d.SetSize(height); for (int i = 0; i < height; i++) { d(i) = get(i, i); } }
void SparseMatrix::PrintCSR2(std::ostream& os) const
{
	need();
	os << height << '\n' << width << '\n';
	for (int i : I_) { os << i << '\n'; }
	for (int j : J_) { os << j << '\n'; }
	for (double a : A_) { os << a << '\n'; }
}
void SparseMatrix::PrintMatlab(std::ostream& os) const
{
	need();
	for (int i = 0; i < height; i++) { for (int k = I_[i]; k < I_[i + 1]; k++) { os << i + 1 << ' ' << J_[k] + 1 << ' ' << A_[k] << '\n'; } }
}
void SparseMatrix::Print(std::ostream& os, int) const { PrintMatlab(os); }

SparseMatrix* Mult(const SparseMatrix& A, const SparseMatrix& B, SparseMatrix*)
{
	if (A.Width() != B.Height()) { throw ShimIndexError("SparseMatrix product", A.Width(), B.Height()); }
	auto* C = new SparseMatrix(A.Height(), B.Width());
	Array<int> ca, cb;
	Vector va, vb;
	for (int i = 0; i < A.Height(); i++) {
		A.GetRow(i, ca, va);
		for (int k = 0; k < ca.Size(); k++) {
			B.GetRow(ca[k], cb, vb);
			for (int j = 0; j < cb.Size(); j++) { C->Add(i, cb[j], va(k) * vb(j)); }
		}
	}
	C->Finalize(0);
	return C;
}
SparseMatrix* Add(const SparseMatrix& A, const SparseMatrix& B) { return Add(1.0, A, 1.0, B); }
SparseMatrix* Add(double a, const SparseMatrix& A, double b, const SparseMatrix& B)
{
	auto* C = new SparseMatrix(A.Height(), A.Width());
	Array<int> c;
	Vector v;
	for (int i = 0; i < A.Height(); i++) {
		A.GetRow(i, c, v);
		for (int k = 0; k < c.Size(); k++) { C->Add(i, c[k], a * v(k)); }
		B.GetRow(i, c, v);
		for (int k = 0; k < c.Size(); k++) { C->Add(i, c[k], b * v(k)); }
	}
	C->Finalize(0);
	return C;
}
SparseMatrix* Transpose(const SparseMatrix& A)
{
	auto* C = new SparseMatrix(A.Width(), A.Height());
	Array<int> c;
	Vector v;
	for (int i = 0; i < A.Height(); i++) { A.GetRow(i, c, v); for (int k = 0; k < c.Size(); k++) { C->Add(c[k], i, v(k)); } }
	C->Finalize(0);
	return C;
}

// ---------------------------------------------------------------- time integrators
namespace {
void evalAt(TimeDependentOperator* f, double t, const Vector& x, Vector& k) { f->SetTime(t); f->Mult(x, k); }
void solveAt(TimeDependentOperator* f, double t, double g, const Vector& x, Vector& k) { f->SetTime(t); f->ImplicitSolve(g, x, k); }
}
void ForwardEulerSolver::Step(Vector& x, double& t, double& dt)
{
	Vector& k = stage(x.Size());
	evalAt(f, t, x, k);
	x.Add(dt, k);
	t += dt;
}
void RK2Solver::Step(Vector& x, double& t, double& dt)
{
	const double b = 0.5 / a;
	Vector& k = stage(x.Size());
	Vector y(x.Size());
	evalAt(f, t, x, k);
	add(x, (1. - b) * dt, k, y);
	x.Add(a * dt, k);
	evalAt(f, t + a * dt, x, k);
	add(y, b * dt, k, x);
	t += dt;
}
void RK3SSPSolver::Step(Vector& x, double& t, double& dt)
{
	Vector& k = stage(x.Size());
	Vector y(x.Size());
	evalAt(f, t, x, k);
	add(x, dt, k, y);
	evalAt(f, t + dt, y, k);
	y.Add(dt, k);
	add(3. / 4, x, 1. / 4, y, y);
	evalAt(f, t + dt / 2, y, k);
	y.Add(dt, k);
	add(1. / 3, x, 2. / 3, y, x);
	t += dt;
}
void RK4Solver::Step(Vector& x, double& t, double& dt)
{
	Vector& k = stage(x.Size());
	Vector y(x.Size()), z(x.Size());
	evalAt(f, t, x, k);
	add(x, dt / 2, k, y);
	add(x, dt / 6, k, z);
	evalAt(f, t + dt / 2, y, k);
	add(x, dt / 2, k, y);
	z.Add(dt / 3, k);
	f->Mult(y, k);
	add(x, dt, k, y);
	z.Add(dt / 3, k);
	evalAt(f, t + dt, y, k);
	add(z, dt / 6, k, x);
	t += dt;
}
void RK6Solver::Step(Vector&, double&, double&) { mfem_error("RK6Solver not provided"); }
void BackwardEulerSolver::Step(Vector& x, double& t, double& dt)
{
	Vector& k = stage(x.Size());
	solveAt(f, t + dt, dt, x, k);
	x.Add(dt, k);
	t += dt;
}
void ImplicitMidpointSolver::Step(Vector& x, double& t, double& dt)
{
	Vector& k = stage(x.Size());
	solveAt(f, t + dt / 2, dt / 2, x, k);
	x.Add(dt, k);
	t += dt;
}
void TrapezoidalRuleSolver::Step(Vector& x, double& t, double& dt)
{
	Vector& k = stage(x.Size());
	Vector y(x.Size());
	evalAt(f, t, x, k);
	add(x, dt / 2, k, y);
	x.Add(dt / 2, k);
	solveAt(f, t + dt, dt / 2, y, k);
	x.Add(dt / 2, k);
	t += dt;
}
SDIRK23Solver::SDIRK23Solver(int opt)
{
	if (opt == 0) { gamma = (3. - std::sqrt(3.)) / 6.; }
	else if (opt == 2) { gamma = (2. - std::sqrt(2.)) / 2.; }
	else if (opt == 3) { gamma = (2. + std::sqrt(2.)) / 2.; }
	else { gamma = (3. + std::sqrt(3.)) / 6.; }
}
void SDIRK23Solver::Step(Vector& x, double& t, double& dt)
{
	Vector& k = stage(x.Size());
	Vector y(x.Size());
	solveAt(f, t + gamma * dt, gamma * dt, x, k);
	add(x, (1. - 2. * gamma) * dt, k, y);
	x.Add(dt / 2, k);
	solveAt(f, t + (1. - gamma) * dt, gamma * dt, y, k);
	x.Add(dt / 2, k);
	t += dt;
}
void SDIRK33Solver::Step(Vector& x, double& t, double& dt)
{
	preemptible();
	const double a = 0.435866521508458999416019, b = 1.20849664917601007033648, c = 0.717933260754229499708010;
	Vector& k = stage(x.Size());
	Vector y(x.Size());
	solveAt(f, t + a * dt, a * dt, x, k);
	add(x, (c - a) * dt, k, y);
	x.Add(b * dt, k);
	solveAt(f, t + c * dt, a * dt, y, k);
	x.Add((1. - a - b) * dt, k);
	solveAt(f, t + dt, a * dt, x, k);
	x.Add(a * dt, k);
	t += dt;
	preemptible();
}
void SDIRK34Solver::Step(Vector& x, double& t, double& dt)
{
	const double a = 1. / std::sqrt(3.) * std::cos(M_PI / 18.) + .5;
	const double b = 1. / (6. * (2. * a - 1.) * (2. * a - 1.));
	Vector& k = stage(x.Size());
	Vector y(x.Size()), z(x.Size());
	solveAt(f, t + a * dt, a * dt, x, k);
	add(x, (0.5 - a) * dt, k, y);
	add(x, (2. * a) * dt, k, z);
	x.Add(b * dt, k);
	solveAt(f, t + 0.5 * dt, a * dt, y, k);
	z.Add((1. - 4. * a) * dt, k);
	x.Add((1. - 2. * b) * dt, k);
	solveAt(f, t + (1. - a) * dt, a * dt, z, k);
	x.Add(b * dt, k);
	t += dt;
}

// ---------------------------------------------------------------- data collections
// One directory per cycle holding the mesh and one file per field.
void DataCollection::Save()
{
	namespace fs = std::filesystem;
	const fs::path dir = prefix_path + name + (cycle >= 0 ? "_" + to_padded_string(cycle, 6) : std::string());
	fs::create_directories(dir);
	if (mesh) { std::ofstream o(dir / "mesh"); mesh->Print(o); }
	for (auto& f : fields) { std::ofstream o(dir / f.first); o.precision(16); f.second->Save(o); }
}
void ParaViewDataCollection::Save()
{
	namespace fs = std::filesystem;
	const fs::path dir = fs::path(prefix_path) / name / ("Cycle" + to_padded_string(cycle, 6));
	fs::create_directories(dir);
	std::ofstream o(dir / ("data_rank" + std::to_string(mpisim::rank()) + ".txt"));
	o << std::setprecision(17) << "time " << time << "\ncycle " << cycle << "\n";
	for (auto& f : fields) {
		o << "field " << f.first << " " << f.second->Size() << "\n";
		for (int i = 0; i < f.second->Size(); i++) { o << (*f.second)(i) << "\n"; }
	}
}

} // namespace mfem
