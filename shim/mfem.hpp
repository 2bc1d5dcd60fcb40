// A small, independent re-implementation of the part of the MFEM interface the
// solver uses (the MFEM fork itself is a submodule that is not present here).
// Real finite elements: nodal discontinuous spaces on segments, triangles,
// quadrilaterals, tetrahedra and hexahedra, straight or curved geometry, exact
// quadrature, face/element maps, sub-meshes and sparse assembly. Index accesses
// are always checked and raise mfem::ShimIndexError.
#pragma once

#include <algorithm>
#include <array>
#include <cassert>
#include <chrono>
#include <cmath>
#include <complex>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <iomanip>
#include <iostream>
#include <limits>
#include <list>
#include <map>
#include <memory>
#include <numeric>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <unordered_map>
#include <utility>
#include <vector>

#include "mpi.h"

#define MFEM_USE_MPI
#define MFEM_HOST_DEVICE
#define MFEM_DEVICE
#define MFEM_ASSERT(x, msg)
#define MFEM_VERIFY(x, msg) do { if (!(x)) { std::ostringstream mfem_os_; mfem_os_ << msg; mfem::mfem_error(mfem_os_.str().c_str()); } } while (0)
#define MFEM_ABORT(msg) do { std::ostringstream mfem_os_; mfem_os_ << msg; mfem::mfem_error(mfem_os_.str().c_str()); } while (0)
#define MFEM_WARNING(msg)
#define MFEM_CONTRACT_VAR(x) (void)(x)

namespace mfem {

using real_t = double;

struct ShimIndexError : public std::runtime_error {
	ShimIndexError(const char* what, long i, long n);
};
struct ErrorException : public std::runtime_error {
	using std::runtime_error::runtime_error;
};
[[noreturn]] void mfem_error(const char* msg = nullptr);
[[noreturn]] void shimIndexFail(const char* what, long i, long n);

inline void shimCheck(const char* what, long i, long n)
{
	if (i < 0 || i >= n) { shimIndexFail(what, i, n); }
}

extern std::ostream& out;
extern std::ostream& err;

std::string to_padded_string(int i, int digits);
std::string to_string(int i);

enum class MemoryType { HOST, DEVICE, MANAGED };
enum class MemoryClass { HOST, DEVICE, MANAGED };

// ---------------------------------------------------------------- Array
template <class T>
class Array {
public:
	Array() = default;
	explicit Array(int n) : d_(n) {}
	Array(int n, T v) : d_(n, v) {}
	Array(T* p, int n) : d_(p, p + n) {}
	Array(const Array&) = default;
	Array(Array&&) = default;
	template <typename CT, typename std::enable_if<std::is_convertible<CT, T>::value, bool>::type = true>
	Array(std::initializer_list<CT> l) : d_(l.begin(), l.end()) {}
	template <typename CT, int N>
	explicit Array(const CT (&v)[N]) : d_(v, v + N) {}
	Array& operator=(const Array&) = default;
	Array& operator=(Array&&) = default;
	Array& operator=(const T& v) { std::fill(d_.begin(), d_.end(), v); return *this; }

	int Size() const { return int(d_.size()); }
	int Capacity() const { return int(d_.capacity()); }
	bool IsEmpty() const { return d_.empty(); }
	void SetSize(int n) { d_.resize(n); }
	void SetSize(int n, const T& v) { int o = Size(); d_.resize(n); for (int i = o; i < n; i++) { d_[i] = v; } }
	void Reserve(int n) { d_.reserve(n); }
	void DeleteAll() { d_.clear(); }
	void LoseData() { d_.clear(); }
	int Append(const T& v) { d_.push_back(v); return Size(); }
	int Append(const Array& o) { d_.insert(d_.end(), o.d_.begin(), o.d_.end()); return Size(); }
	int Append(const T* p, int n) { d_.insert(d_.end(), p, p + n); return Size(); }
	int Prepend(const T& v) { d_.insert(d_.begin(), v); return Size(); }
	int Union(const T& v) { int i = Find(v); if (i < 0) { d_.push_back(v); i = Size() - 1; } return i; }
	int Find(const T& v) const { for (int i = 0; i < Size(); i++) { if (d_[i] == v) { return i; } } return -1; }
	int FindSorted(const T& v) const
	{
		auto it = std::lower_bound(d_.begin(), d_.end(), v);
		return it != d_.end() && *it == v ? int(it - d_.begin()) : -1;
	}
	void DeleteFirst(const T& v) { auto it = std::find(d_.begin(), d_.end(), v); if (it != d_.end()) { d_.erase(it); } }
	void DeleteLast() { if (!d_.empty()) { d_.pop_back(); } }
	void Sort() { std::sort(d_.begin(), d_.end()); }
	template <class C> void Sort(C c) { std::sort(d_.begin(), d_.end(), c); }
	void Unique() { d_.erase(std::unique(d_.begin(), d_.end()), d_.end()); }
	T Max() const { if (d_.empty()) { shimIndexFail("Array::Max of empty array", 0, 0); } return *std::max_element(d_.begin(), d_.end()); }
	T Min() const { if (d_.empty()) { shimIndexFail("Array::Min of empty array", 0, 0); } return *std::min_element(d_.begin(), d_.end()); }
	T Sum() const { T s{}; for (auto& x : d_) { s += x; } return s; }
	void PartialSum() { T s{}; for (auto& x : d_) { s += x; x = s; } }
	T& Last() { shimCheck("Array::Last", Size() - 1, Size()); return d_.back(); }
	const T& Last() const { shimCheck("Array::Last", Size() - 1, Size()); return d_.back(); }
	T& operator[](int i) { shimCheck("Array", i, Size()); return d_[i]; }
	const T& operator[](int i) const { shimCheck("Array", i, Size()); return d_[i]; }
	T* GetData() { return d_.data(); }
	const T* GetData() const { return d_.data(); }
	operator T*() { return d_.data(); }
	operator const T*() const { return d_.data(); }
	T* begin() { return d_.data(); }
	T* end() { return d_.data() + d_.size(); }
	const T* begin() const { return d_.data(); }
	const T* end() const { return d_.data() + d_.size(); }
	const T* Read(bool = true) const { return d_.data(); }
	T* Write(bool = true) { return d_.data(); }
	T* ReadWrite(bool = true) { return d_.data(); }
	const T* HostRead() const { return d_.data(); }
	T* HostWrite() { return d_.data(); }
	T* HostReadWrite() { return d_.data(); }
	void UseDevice(bool) const {}
	void Copy(Array& o) const { o.d_ = d_; }
	void MakeRef(const Array& o) { d_ = o.d_; }
	void Assign(const T* p) { std::copy(p, p + d_.size(), d_.begin()); }
	template <class U> void CopyTo(U* p) const { std::copy(d_.begin(), d_.end(), p); }
	bool operator==(const Array& o) const { return d_ == o.d_; }
	bool operator!=(const Array& o) const { return d_ != o.d_; }
	void Print(std::ostream& os = mfem::out, int w = 4) const
	{
		for (int i = 0; i < Size(); i++) { os << d_[i] << ((i + 1) % w == 0 || i + 1 == Size() ? '\n' : ' '); }
	}
	void Swap(Array& o) { d_.swap(o.d_); }
private:
	std::vector<T> d_;
};

template <class T> inline void Swap(Array<T>& a, Array<T>& b) { a.Swap(b); }
template <class T> inline void Swap(T& a, T& b) { std::swap(a, b); }

template <class T>
class Memory {
public:
	// The destructor does not free: ownership is handed over explicitly.
	Memory() = default;
	explicit Memory(int n) { New(n); }
	Memory(T* p, int n, bool) : p_(p), n_(n) {}
	operator T*() { return p_; }
	operator const T*() const { return p_; }
	T& operator[](int i) { return p_[i]; }
	const T& operator[](int i) const { return p_[i]; }
	int Capacity() const { return n_; }
	void New(int n) { p_ = new T[n](); n_ = n; }
	void Delete() { delete[] p_; p_ = nullptr; n_ = 0; }
private:
	T* p_ = nullptr;
	int n_ = 0;
};

// ---------------------------------------------------------------- Vector
class Vector {
public:
	Vector() = default;
	explicit Vector(int n);
	Vector(int n, MemoryType) : Vector(n) {}
	Vector(double* p, int n) : p_(p), n_(n) {}
	Vector(Vector& base, int off, int n) : p_(base.GetData() + off), n_(n) {}
	Vector(const Vector&);
	Vector(Vector&&) noexcept;
	template <typename CT, typename std::enable_if<std::is_convertible<CT, double>::value, bool>::type = true>
	explicit Vector(std::initializer_list<CT> l) : Vector(int(l.size())) { std::copy(l.begin(), l.end(), p_); }
	template <typename CT, int N>
	explicit Vector(const CT (&v)[N]) : Vector(N) { std::copy(v, v + N, p_); }
	virtual ~Vector() = default;

	Vector& operator=(const Vector&);
	Vector& operator=(Vector&&);
	Vector& operator=(double);
	Vector& operator=(const double* p) { std::copy(p, p + n_, p_); return *this; }

	int Size() const { return n_; }
	int Capacity() const { return own_.empty() ? n_ : int(own_.size()); }
	void SetSize(int n);
	void SetSize(int n, MemoryType) { SetSize(n); }
	void SetSize(int n, const Vector&) { SetSize(n); }
	void SetData(double* d) { p_ = d; own_.clear(); }
	void SetDataAndSize(double* d, int n) { own_.clear(); p_ = d; n_ = n; }
	void NewDataAndSize(double* d, int n) { SetDataAndSize(d, n); }
	void MakeRef(Vector& base, int off, int n) { own_.clear(); shimCheck("Vector::MakeRef", off, base.Size() + 1); shimCheck("Vector::MakeRef", off + n, base.Size() + 1); p_ = base.p_ + off; n_ = n; }
	void MakeRef(Vector& base, int off) { own_.clear(); p_ = base.p_ + off; }
	void Destroy() { own_.clear(); p_ = nullptr; n_ = 0; }
	void UseDevice(bool) const {}
	bool UseDevice() const { return false; }
	double* GetData() const { return p_; }
	operator double*() { return p_; }
	operator const double*() const { return p_; }
	double* begin() { return p_; }
	double* end() { return p_ + n_; }
	const double* begin() const { return p_; }
	const double* end() const { return p_ + n_; }
	const double* Read(bool = true) const { return p_; }
	double* Write(bool = true) { return p_; }
	double* ReadWrite(bool = true) { return p_; }
	const double* HostRead() const { return p_; }
	double* HostWrite() { return p_; }
	double* HostReadWrite() { return p_; }
	void SyncMemory(const Vector&) const {}
	void SyncAliasMemory(const Vector&) const {}

	double& operator()(int i) { shimCheck("Vector", i, n_); return p_[i]; }
	const double& operator()(int i) const { shimCheck("Vector", i, n_); return p_[i]; }
	double& operator[](int i) { shimCheck("Vector", i, n_); return p_[i]; }
	const double& operator[](int i) const { shimCheck("Vector", i, n_); return p_[i]; }
	double& Elem(int i) { return (*this)(i); }
	const double& Elem(int i) const { return (*this)(i); }

	double operator*(const Vector& v) const;
	double operator*(const double* v) const;
	Vector& operator*=(double c);
	Vector& operator*=(const Vector&);
	Vector& operator/=(double c);
	Vector& operator/=(const Vector&);
	Vector& operator+=(const Vector&);
	Vector& operator-=(const Vector&);
	Vector& operator+=(double);
	Vector& operator-=(double);
	Vector& Add(double a, const Vector& v);
	Vector& Set(double a, const Vector& v);
	void SetVector(const Vector& v, int off);
	void AddSubVector(const Vector& v, int off);
	void Neg() { (*this) *= -1.0; }
	void Swap(Vector& o);
	double Norml2() const;
	double Norml1() const;
	double Normlinf() const;
	double DistanceTo(const double* p) const;
	double DistanceTo(const Vector& p) const { return DistanceTo(p.GetData()); }
	double DistanceSquaredTo(const double* p) const { double d = DistanceTo(p); return d * d; }
	double Min() const;
	double Max() const;
	double Sum() const;
	int CheckFinite() const;
	void GetSubVector(const Array<int>& dofs, Vector& v) const;
	void GetSubVector(const Array<int>& dofs, double* v) const;
	void SetSubVector(const Array<int>& dofs, double v);
	void SetSubVector(const Array<int>& dofs, const Vector& v);
	void SetSubVector(const Array<int>& dofs, double* v);
	void AddElementVector(const Array<int>& dofs, const Vector& v);
	void AddElementVector(const Array<int>& dofs, double* v);
	void AddElementVector(const Array<int>& dofs, double a, const Vector& v);
	void Print(std::ostream& os = mfem::out, int w = 8) const;
	void Randomize(int seed = 0);
	void Load(std::istream& in, int n);
	void Load(std::istream& in);
protected:
	std::vector<double> own_;
	double* p_ = nullptr;
	int n_ = 0;
};

double InnerProduct(const Vector&, const Vector&);
double InnerProduct(MPI_Comm, const Vector&, const Vector&);
void add(const Vector& a, const Vector& b, Vector& o);
void add(const Vector& a, double s, const Vector& b, Vector& o);
void add(double a, const Vector& x, const Vector& y, Vector& z);
void add(double a, const Vector& x, double b, const Vector& y, Vector& z);
void subtract(const Vector& a, const Vector& b, Vector& o);

// ---------------------------------------------------------------- Operators
class Operator {
public:
	explicit Operator(int s = 0) : height(s), width(s) {}
	Operator(int h, int w) : height(h), width(w) {}
	virtual ~Operator() = default;
	int Height() const { return height; }
	int NumRows() const { return height; }
	int Width() const { return width; }
	int NumCols() const { return width; }
	virtual void Mult(const Vector& x, Vector& y) const = 0;
	virtual void MultTranspose(const Vector&, Vector&) const { mfem_error("MultTranspose"); }
	virtual void AddMult(const Vector& x, Vector& y, const double a = 1.0) const;
	virtual MemoryClass GetMemoryClass() const { return MemoryClass::HOST; }
protected:
	int height, width;
};

class TimeDependentOperator : public Operator {
public:
	enum Type { EXPLICIT, IMPLICIT, HOMOGENEOUS };
	explicit TimeDependentOperator(int n = 0, double t = 0.0, Type ty = EXPLICIT) : Operator(n), t(t), type(ty) {}
	TimeDependentOperator(int h, int w, double t = 0.0, Type ty = EXPLICIT) : Operator(h, w), t(t), type(ty) {}
	virtual double GetTime() const { return t; }
	virtual void SetTime(const double t_) { t = t_; }
	bool isExplicit() const { return type == EXPLICIT; }
	bool isImplicit() const { return !isExplicit(); }
	virtual void ExplicitMult(const Vector&, Vector&) const { mfem_error("ExplicitMult"); }
	virtual void ImplicitMult(const Vector&, const Vector&, Vector&) const { mfem_error("ImplicitMult"); }
	virtual void Mult(const Vector&, Vector&) const override { mfem_error("Mult"); }
	virtual void ImplicitSolve(const double, const Vector&, Vector&) { mfem_error("TimeDependentOperator::ImplicitSolve() is not overridden!"); }
protected:
	double t;
	Type type;
};

class Solver : public Operator {
public:
	bool iterative_mode = false;
	using Operator::Operator;
	virtual void SetOperator(const Operator& op) = 0;
};

class IterativeSolver : public Solver {
public:
	explicit IterativeSolver(MPI_Comm = MPI_COMM_SELF) { iterative_mode = true; }
	void SetRelTol(double r) { rel_tol = r; }
	void SetAbsTol(double a) { abs_tol = a; }
	void SetMaxIter(int m) { max_iter = m; }
	void SetPrintLevel(int) {}
	bool GetConverged() const { return converged; }
	int GetNumIterations() const { return final_iter; }
	double GetFinalNorm() const { return final_norm; }
	virtual void SetPreconditioner(Solver&) {}
	void SetOperator(const Operator& op) override { oper = &op; height = op.Height(); width = op.Width(); }
protected:
	const Operator* oper = nullptr;
	double rel_tol = 0.0, abs_tol = 0.0;
	int max_iter = 10;
	mutable bool converged = false;
	mutable int final_iter = 0;
	mutable double final_norm = 0;
	MPI_Comm comm = MPI_COMM_SELF;
};

class GMRESSolver : public IterativeSolver {
public:
	explicit GMRESSolver(MPI_Comm c = MPI_COMM_SELF) { comm = c; }
	void SetKDim(int d) { m = d; }
	void Mult(const Vector& b, Vector& x) const override;
protected:
	int m = 50;
};

// ---------------------------------------------------------------- DenseMatrix
class SparseMatrix;
class DenseMatrix : public Operator {
public:
	DenseMatrix() : Operator(0) {}
	explicit DenseMatrix(int s) : DenseMatrix(s, s) {}
	DenseMatrix(int m, int n) : Operator(m, n), d_(size_t(m) * n, 0.0) {}
	DenseMatrix(std::initializer_list<std::initializer_list<double>> r) : DenseMatrix(int(r.size()), r.size() ? int(r.begin()->size()) : 0)
	{
		int i = 0;
		for (auto& row : r) { int j = 0; for (double v : row) { (*this)(i, j++) = v; } i++; }
	}
	void SetSize(int s) { SetSize(s, s); }
	void SetSize(int h, int w);
	void UseExternalData(double* d, int h, int w) { SetSize(h, w); std::copy(d, d + h * w, d_.begin()); }
	int TotalSize() const { return height * width; }
	double* Data() const { return const_cast<double*>(d_.data()); }
	double* GetData() const { return Data(); }
	double& operator()(int i, int j) { chk(i, j); return d_[i + size_t(j) * height]; }
	const double& operator()(int i, int j) const { chk(i, j); return d_[i + size_t(j) * height]; }
	double& Elem(int i, int j) { return (*this)(i, j); }
	const double& Elem(int i, int j) const { return (*this)(i, j); }
	DenseMatrix& operator=(double c) { std::fill(d_.begin(), d_.end(), c); return *this; }
	DenseMatrix& operator*=(double c) { for (auto& x : d_) { x *= c; } return *this; }
	DenseMatrix& operator+=(const DenseMatrix&);
	DenseMatrix& operator-=(const DenseMatrix&);
	void Add(double a, const DenseMatrix& o);
	void Mult(const Vector& x, Vector& y) const override;
	void Mult(const double* x, double* y) const;
	void MultTranspose(const Vector& x, Vector& y) const override;
	void AddMult(const Vector& x, Vector& y, const double a = 1.0) const override;
	void Transpose();
	void Transpose(const DenseMatrix&);
	double Det() const;
	double Weight() const;
	double Trace() const;
	double FNorm() const;
	double MaxMaxNorm() const;
	void Invert();
	void GetColumn(int c, Vector& v) const;
	void GetColumnReference(int c, Vector& v) { v.SetDataAndSize(Data() + size_t(c) * height, height); }
	double* GetColumn(int c) { return Data() + size_t(c) * height; }
	const double* GetColumn(int c) const { return Data() + size_t(c) * height; }
	void GetRow(int r, Vector& v) const;
	void SetCol(int c, const Vector& v);
	void SetCol(int c, const double* v) { std::copy(v, v + height, d_.begin() + size_t(c) * height); }
	void SetRow(int r, const Vector& v);
	void CopyMN(const DenseMatrix& A, int m, int n, int Aro, int Aco);
	void CopyMN(const DenseMatrix& A, int row_offset, int col_offset);
	double CalcSingularvalue(const int i) const;
	void Print(std::ostream& os = mfem::out, int w = 4) const;
private:
	void chk(int i, int j) const { shimCheck("DenseMatrix row", i, height); shimCheck("DenseMatrix column", j, width); }
	std::vector<double> d_;
};

class DenseMatrixInverse : public Solver {
public:
	DenseMatrixInverse() = default;
	explicit DenseMatrixInverse(const DenseMatrix& m, bool = false) { Factor(m); }
	explicit DenseMatrixInverse(const DenseMatrix* m, bool = false) { Factor(*m); }
	void Factor(const DenseMatrix& m) { inv_ = m; inv_.Invert(); height = width = m.Height(); }
	void Mult(const Vector& x, Vector& y) const override { inv_.Mult(x, y); }
	void Mult(const DenseMatrix& B, DenseMatrix& X) const;
	void GetInverseMatrix(DenseMatrix& o) const { o = inv_; }
	void SetOperator(const Operator& op) override { Factor(dynamic_cast<const DenseMatrix&>(op)); }
private:
	DenseMatrix inv_;
};

void Mult(const DenseMatrix& b, const DenseMatrix& c, DenseMatrix& a);
void AddMult(const DenseMatrix& b, const DenseMatrix& c, DenseMatrix& a);
void MultAtB(const DenseMatrix& a, const DenseMatrix& b, DenseMatrix& o);
void MultABt(const DenseMatrix& a, const DenseMatrix& b, DenseMatrix& o);
void MultAAt(const DenseMatrix& a, DenseMatrix& o);
void AddMultVWt(const Vector& v, const Vector& w, DenseMatrix& m);
void AddMultVVt(const Vector& v, DenseMatrix& m);
void AddMult_a_VWt(double a, const Vector& v, const Vector& w, DenseMatrix& m);
void AddMult_a_VVt(double a, const Vector& v, DenseMatrix& m);
void MultVWt(const Vector& v, const Vector& w, DenseMatrix& m);
void MultVVt(const Vector& v, DenseMatrix& m);
void CalcAdjugate(const DenseMatrix& a, DenseMatrix& adj);
void CalcInverse(const DenseMatrix& a, DenseMatrix& inv);
void CalcOrtho(const DenseMatrix& J, Vector& n);

// ---------------------------------------------------------------- Table
class Table {
public:
	int Size() const { return int(rows_.size()); }
	int Size_of_connections() const { int s = 0; for (auto& r : rows_) { s += r.Size(); } return s; }
	void Finalize() {}
	int RowSize(int i) const { return at(i).Size(); }
	void GetRow(int i, Array<int>& r) const { r = at(i); }
	const int* GetRow(int i) const { return at(i).GetData(); }
	int* GetRow(int i) { at(i); return rows_[i].GetData(); }
	int Width() const { int w = 0; for (auto& r : rows_) { for (int c : r) { w = std::max(w, c + 1); } } return w; }
	std::vector<Array<int>> rows_;
private:
	const Array<int>& at(int i) const { shimCheck("Table row", i, Size()); return rows_[i]; }
};
void Transpose(const Table& a, Table& at);

// ---------------------------------------------------------------- SparseMatrix
class SparseMatrix : public Operator {
public:
	SparseMatrix() : Operator(0) {}
	explicit SparseMatrix(int h, int w = -1);
	SparseMatrix(int* I, int* J, double* data, int m, int n);
	SparseMatrix(int* I, int* J, double* data, int m, int n, bool ownij, bool owna, bool issorted);
	SparseMatrix(const SparseMatrix&, bool copy_graph = true);
	SparseMatrix(SparseMatrix&& o) noexcept : SparseMatrix() { Swap(o); }
	SparseMatrix& operator=(const SparseMatrix&);
	SparseMatrix& operator=(SparseMatrix&& o) noexcept { Swap(o); return *this; }
	SparseMatrix& operator=(double);

	int Size() const { return height; }
	bool Finalized() const { return fin_; }
	virtual void Finalize(int skip_zeros = 1) { Finalize(skip_zeros, false); }
	void Finalize(int skip_zeros, bool fix_empty_rows);
	int NumNonZeroElems() const;
	int RowSize(int i) const;
	int MaxRowSize() const;
	int* GetI() { need(); return I_.data(); }
	const int* GetI() const { need(); return I_.data(); }
	int* GetJ() { need(); return J_.data(); }
	const int* GetJ() const { need(); return J_.data(); }
	double* GetData() { need(); return A_.data(); }
	const double* GetData() const { need(); return A_.data(); }
	const int* HostReadI() const { return GetI(); }
	const int* HostReadJ() const { return GetJ(); }
	const double* HostReadData() const { return GetData(); }
	const int* ReadI(bool = true) const { return GetI(); }
	const int* ReadJ(bool = true) const { return GetJ(); }
	const double* ReadData(bool = true) const { return GetData(); }
	int* GetRowColumns(int r) { need(); shimCheck("SparseMatrix row", r, height); return J_.data() + I_[r]; }
	const int* GetRowColumns(int r) const { need(); shimCheck("SparseMatrix row", r, height); return J_.data() + I_[r]; }
	double* GetRowEntries(int r) { need(); shimCheck("SparseMatrix row", r, height); return A_.data() + I_[r]; }
	const double* GetRowEntries(int r) const { need(); shimCheck("SparseMatrix row", r, height); return A_.data() + I_[r]; }
	int GetRow(const int r, Array<int>& cols, Vector& v) const;
	void SetRow(const int r, const Array<int>& cols, const Vector& v);
	void AddRow(const int r, const Array<int>& cols, const Vector& v);
	void ScaleRow(const int r, const double s);
	double& Elem(int i, int j) { return ref(i, j); }
	double Elem(int i, int j) const { return get(i, j); }
	double operator()(int i, int j) const { return get(i, j); }
	double& operator()(int i, int j) { return ref(i, j); }
	void Set(const int i, const int j, const double a) { ref(i, j) = a; }
	void Add(const int i, const int j, const double a) { ref(i, j) += a; }
	void AddSubMatrix(const Array<int>& rows, const Array<int>& cols, const DenseMatrix& m, int skip_zeros = 1);
	void SetSubMatrix(const Array<int>& rows, const Array<int>& cols, const DenseMatrix& m, int skip_zeros = 1);
	void GetSubMatrix(const Array<int>& rows, const Array<int>& cols, DenseMatrix& m) const;
	void Mult(const Vector& x, Vector& y) const override;
	void AddMult(const Vector& x, Vector& y, const double a = 1.0) const override;
	void MultTranspose(const Vector& x, Vector& y) const override;
	void AddMultTranspose(const Vector& x, Vector& y, const double a = 1.0) const;
	SparseMatrix& operator*=(double a);
	SparseMatrix& operator+=(const SparseMatrix&);
	void Threshold(double tol, bool fix_empty_rows = false);
	void SortColumnIndices() {}
	void EnsureMultTranspose() const {}
	void BuildTranspose() const {}
	DenseMatrix* ToDenseMatrix() const;
	void ToDenseMatrix(DenseMatrix& B) const;
	double MaxNorm() const;
	void GetDiag(Vector& d) const;
	void PrintCSR2(std::ostream& os) const;
	void PrintCSR(std::ostream& os) const { PrintCSR2(os); }
	void PrintMatlab(std::ostream& os = mfem::out) const;
	void Print(std::ostream& os = mfem::out, int w = 4) const;
	void Swap(SparseMatrix& o);
	void Clear() { *this = SparseMatrix(); }
	bool Empty() const { return height == 0; }
private:
	void need() const;
	double& ref(int i, int j);
	double get(int i, int j) const;
	bool fin_ = true;
	std::vector<std::map<int, double>> rows_;
	std::vector<int> I_{ 0 }, J_;
	std::vector<double> A_;
};
SparseMatrix* Mult(const SparseMatrix& A, const SparseMatrix& B, SparseMatrix* O = nullptr);
SparseMatrix* Add(const SparseMatrix& A, const SparseMatrix& B);
SparseMatrix* Add(double a, const SparseMatrix& A, double b, const SparseMatrix& B);
SparseMatrix* Transpose(const SparseMatrix& A);
inline SparseMatrix* TransposeMult(const SparseMatrix& A, const SparseMatrix& B) { std::unique_ptr<SparseMatrix> t(Transpose(A)); return Mult(*t, B); }

// ---------------------------------------------------------------- ODE solvers
class ODESolver {
public:
	virtual ~ODESolver() = default;
	virtual void Init(TimeDependentOperator& f_) { f = &f_; }
	virtual void Step(Vector& x, double& t, double& dt) = 0;
	virtual void Run(Vector& x, double& t, double& dt, double tf) { while (t < tf) { Step(x, t, dt); } }
protected:
	// The stage vector outlives the step and starts with whatever its fresh storage holds.
	Vector& stage(int n) { if (k_.Size() != n) { k_.SetSize(n); } return k_; }
	TimeDependentOperator* f = nullptr;
	Vector k_;
};
#define SHIM_ODE(NAME) class NAME : public ODESolver { public: void Step(Vector& x, double& t, double& dt) override; };
SHIM_ODE(ForwardEulerSolver)
SHIM_ODE(RK4Solver)
SHIM_ODE(RK6Solver)
SHIM_ODE(BackwardEulerSolver)
SHIM_ODE(ImplicitMidpointSolver)
SHIM_ODE(TrapezoidalRuleSolver)
SHIM_ODE(SDIRK33Solver)
SHIM_ODE(SDIRK34Solver)
#undef SHIM_ODE
class RK2Solver : public ODESolver {
public:
	explicit RK2Solver(double a_ = 2. / 3.) : a(a_) {}
	void Step(Vector& x, double& t, double& dt) override;
private:
	double a;
};
class RK3SSPSolver : public ODESolver { public: void Step(Vector& x, double& t, double& dt) override; };
class SDIRK23Solver : public ODESolver {
public:
	explicit SDIRK23Solver(int opt = 1);
	void Step(Vector& x, double& t, double& dt) override;
protected:
	double gamma;
};

// ---------------------------------------------------------------- Geometry
struct IntegrationPoint {
	double x = 0, y = 0, z = 0, weight = 0;
	int index = 0;
	void Init(int i = 0) { x = y = z = weight = 0; index = i; }
	void Set(const double* p, int dim) { x = p[0]; if (dim > 1) { y = p[1]; } if (dim > 2) { z = p[2]; } }
	void Get(double* p, int dim) const { p[0] = x; if (dim > 1) { p[1] = y; } if (dim > 2) { p[2] = z; } }
	void Set3(double a, double b, double c) { x = a; y = b; z = c; }
	void Set2(double a, double b) { x = a; y = b; z = 0; }
	void Set1w(double a, double w) { x = a; weight = w; }
	void Set2w(double a, double b, double w) { x = a; y = b; weight = w; }
	void Set(double a, double b, double c, double w) { x = a; y = b; z = c; weight = w; }
};

class IntegrationRule : public Array<IntegrationPoint> {
public:
	IntegrationRule() = default;
	explicit IntegrationRule(int n) : Array<IntegrationPoint>(n) {}
	int GetNPoints() const { return Size(); }
	int GetOrder() const { return order; }
	void SetOrder(int o) { order = o; }
	IntegrationPoint& IntPoint(int i) { return (*this)[i]; }
	const IntegrationPoint& IntPoint(int i) const { return (*this)[i]; }
	Array<double> GetWeights() const { Array<double> w(Size()); for (int i = 0; i < Size(); i++) { w[i] = (*this)[i].weight; } return w; }
	int order = 0;
};

class IntegrationRules {
public:
	const IntegrationRule& Get(int geom, int order);
};
extern IntegrationRules IntRules;
void gaussLegendre(int n, std::vector<double>& x, std::vector<double>& w);   // on [0,1]
void gaussLobatto(int n, std::vector<double>& x);                             // on [0,1]

struct QuadratureFunctions1D {
	static void GaussLegendre(const int np, IntegrationRule* ir);
	static void GaussLobatto(const int np, IntegrationRule* ir);
};

class Geometry {
public:
	enum Type { INVALID = -1, POINT = 0, SEGMENT, TRIANGLE, SQUARE, TETRAHEDRON, CUBE, PRISM, PYRAMID, NUM_GEOMETRIES };
	static const int NumGeom = NUM_GEOMETRIES;
	static const int NumVerts[NumGeom];
	static const int NumEdges[NumGeom];
	static const int NumFaces[NumGeom];
	static const int Dimension[NumGeom];
	static const int DimStart[5];
	static const double Volume[NumGeom];
	static const char* Name[NumGeom];
	const IntegrationRule* GetVertices(int geom) const;
	const IntegrationPoint& GetCenter(int geom) const;
	static bool CheckPoint(int geom, const IntegrationPoint& ip, double eps = 0.0);
	int NumBdr(int g) const { return Dimension[g] == 1 ? 2 : Dimension[g] == 2 ? NumEdges[g] : NumFaces[g]; }
};
extern Geometry Geometries;

struct BasisType {
	enum { Invalid = -1, GaussLegendre = 0, GaussLobatto = 1, Positive = 2, OpenUniform = 3, ClosedUniform = 4, NumBasisTypes = 8 };
};

class FunctionSpace {
public:
	enum { Pk, Qk, rQk, Uk };
};

class ElementTransformation;
class FaceElementTransformations;
class IsoparametricTransformation;

// Nodal element: basis dual to point evaluation at Nodes().
class FiniteElement {
public:
	FiniteElement(Geometry::Type g, int order, int btype);
	virtual ~FiniteElement() = default;
	int GetDim() const { return Geometry::Dimension[geom_]; }
	Geometry::Type GetGeomType() const { return geom_; }
	int GetDof() const { return nodes_.GetNPoints(); }
	int GetOrder() const { return order_; }
	int Space() const { return space_; }
	bool HasAnisotropicOrders() const { return false; }
	const IntegrationRule& GetNodes() const { return nodes_; }
	virtual void CalcShape(const IntegrationPoint& ip, Vector& shape) const;
	virtual void CalcDShape(const IntegrationPoint& ip, DenseMatrix& dshape) const;
	void CalcPhysShape(ElementTransformation& T, Vector& shape) const;
	void CalcPhysDShape(ElementTransformation& T, DenseMatrix& dshape) const;
	int GetBasisType() const { return btype_; }
private:
	void poly(double x, double y, double z, Vector& v) const;
	void dpoly(double x, double y, double z, DenseMatrix& d) const;
	Geometry::Type geom_;
	int order_, btype_, space_;
	IntegrationRule nodes_;
	std::vector<std::array<int, 3>> exps_;
	DenseMatrix Vinv_;
};
using NodalFiniteElement = FiniteElement;

const FiniteElement* shimGetFE(Geometry::Type g, int order, int btype);

// ---------------------------------------------------------------- Transformations
class ElementTransformation {
public:
	enum { BOUNDARY = 1, ELEMENT = 2, EDGE = 3, FACE = 4, BDR_ELEMENT = 5, BDR_FACE = 6 };
	int Attribute = -1, ElementNo = -1, ElementType = 0;
	const void* mesh = nullptr;
	virtual ~ElementTransformation() = default;
	virtual void SetIntPoint(const IntegrationPoint* ip) { ip_ = ip; dirty_ = true; }
	const IntegrationPoint& GetIntPoint() { static const IntegrationPoint origin{}; return ip_ ? *ip_ : origin; }
	virtual void Transform(const IntegrationPoint& ip, Vector& x) = 0;
	virtual void Transform(const IntegrationRule& ir, DenseMatrix& tr) = 0;
	const DenseMatrix& Jacobian();
	double Weight();
	const DenseMatrix& AdjugateJacobian();
	const DenseMatrix& InverseJacobian();
	virtual int Order() const = 0;
	virtual int OrderJ() const = 0;
	virtual int OrderW() const = 0;
	virtual int OrderGrad(const FiniteElement* fe) const = 0;
	Geometry::Type GetGeometryType() const { return geom; }
	int GetDimension() const { return Geometry::Dimension[geom]; }
	virtual int GetSpaceDim() const = 0;
	virtual int TransformBack(const Vector& pt, IntegrationPoint& ip, double tol = 1e-15) = 0;
	void Reset() { dirty_ = true; }
protected:
	virtual void evalJacobian(DenseMatrix& J) = 0;
	Geometry::Type geom = Geometry::INVALID;
	const IntegrationPoint* ip_ = nullptr;
	bool dirty_ = true;
	DenseMatrix J_, adj_, inv_;
};

class IsoparametricTransformation : public ElementTransformation {
public:
	void SetFE(const FiniteElement* fe) { fe_ = fe; geom = fe->GetGeomType(); dirty_ = true; }
	const FiniteElement* GetFE() const { return fe_; }
	void SetPointMat(const DenseMatrix& pm) { pm_ = pm; dirty_ = true; }
	DenseMatrix& GetPointMat() { return pm_; }
	const DenseMatrix& GetPointMat() const { return pm_; }
	void Transform(const IntegrationPoint& ip, Vector& x) override;
	void Transform(const IntegrationRule& ir, DenseMatrix& tr) override;
	int Order() const override { return fe_->GetOrder(); }
	int OrderJ() const override;
	int OrderW() const override;
	int OrderGrad(const FiniteElement* fe) const override;
	int GetSpaceDim() const override { return pm_.Height(); }
	int TransformBack(const Vector& pt, IntegrationPoint& ip, double tol = 1e-15) override;
	void SetIdentityTransformation(Geometry::Type g);
protected:
	void evalJacobian(DenseMatrix& J) override;
	const FiniteElement* fe_ = nullptr;
	DenseMatrix pm_;
};

class IntegrationPointTransformation {
public:
	IsoparametricTransformation Transf;
	void Transform(const IntegrationPoint& a, IntegrationPoint& b);
	void Transform(const IntegrationRule& a, IntegrationRule& b);
};

class FaceElementTransformations : public IsoparametricTransformation {
public:
	enum ConfigMasks { HAVE_ELEM1 = 1, HAVE_ELEM2 = 2, HAVE_LOC1 = 4, HAVE_LOC2 = 8, HAVE_FACE = 16 };
	int Elem1No = -1, Elem2No = -1;
	Geometry::Type FaceGeom = Geometry::INVALID;
	ElementTransformation* Elem1 = nullptr;
	ElementTransformation* Elem2 = nullptr;
	ElementTransformation* Face = this;
	IntegrationPointTransformation Loc1, Loc2;
	FaceElementTransformations() = default;
	FaceElementTransformations(const FaceElementTransformations& o) { *this = o; }
	FaceElementTransformations& operator=(const FaceElementTransformations& o);
	void SetConfigurationMask(int m) { mask_ = m; }
	int GetConfigurationMask() const { return mask_; }
	void SetIntPoint(const IntegrationPoint* ip) override { IsoparametricTransformation::SetIntPoint(ip); }
	void SetAllIntPoints(const IntegrationPoint* ip);
	const IntegrationPoint& GetElement1IntPoint() { return eip1_; }
	const IntegrationPoint& GetElement2IntPoint() { return eip2_; }
	ElementTransformation& GetElement1Transformation();
	ElementTransformation& GetElement2Transformation();
private:
	IntegrationPoint eip1_, eip2_;
	int mask_ = 0;
};

// ---------------------------------------------------------------- Mesh
class Element {
public:
	enum Type { POINT, SEGMENT, TRIANGLE, QUADRILATERAL, TETRAHEDRON, HEXAHEDRON, WEDGE, PYRAMID };
	Element() = default;
	Element(Geometry::Type g, const int* v, int attr);
	Geometry::Type GetGeometryType() const { return geom; }
	Type GetType() const { return static_cast<Type>(geom); }
	int GetAttribute() const { return attribute; }
	void SetAttribute(int a) { attribute = a; }
	int GetNVertices() const { return int(v.size()); }
	void GetVertices(Array<int>& o) const { o.SetSize(int(v.size())); for (size_t i = 0; i < v.size(); i++) { o[i] = v[i]; } }
	int* GetVertices() { return v.data(); }
	const int* GetVertices() const { return v.data(); }
	void SetVertices(const int* p) { std::copy(p, p + v.size(), v.begin()); }
	int GetNEdges() const { return geom == Geometry::SEGMENT ? 0 : Geometry::NumEdges[geom]; }
	const int* GetEdgeVertices(int e) const;
	int GetNFaces() const { return Geometry::Dimension[geom] == 3 ? Geometry::NumFaces[geom] : 0; }
	int GetNFaceVertices(int) const { return geom == Geometry::TETRAHEDRON ? 3 : 4; }
	const int* GetFaceVertices(int f) const;
	std::vector<int> v;
private:
	Geometry::Type geom = Geometry::INVALID;
	int attribute = 1;
};
class Point : public Element {
public:
	explicit Point(const int* v, int attr = 1) : Element(Geometry::POINT, v, attr) {}
};
class Segment : public Element {
public:
	explicit Segment(const int* v, int attr = 1) : Element(Geometry::SEGMENT, v, attr) {}
	Segment(int a, int b, int attr = 1) : Element(Geometry::SEGMENT, std::array<int, 2>{ a, b }.data(), attr) {}
};
class Triangle : public Element {
public:
	explicit Triangle(const int* v, int attr = 1) : Element(Geometry::TRIANGLE, v, attr) {}
	Triangle(int a, int b, int c, int attr = 1) : Element(Geometry::TRIANGLE, std::array<int, 3>{ a, b, c }.data(), attr) {}
};
class Quadrilateral : public Element {
public:
	explicit Quadrilateral(const int* v, int attr = 1) : Element(Geometry::SQUARE, v, attr) {}
	Quadrilateral(int a, int b, int c, int d, int attr = 1) : Element(Geometry::SQUARE, std::array<int, 4>{ a, b, c, d }.data(), attr) {}
};
class Tetrahedron : public Element {
public:
	explicit Tetrahedron(const int* v, int attr = 1) : Element(Geometry::TETRAHEDRON, v, attr) {}
	Tetrahedron(int a, int b, int c, int d, int attr = 1) : Element(Geometry::TETRAHEDRON, std::array<int, 4>{ a, b, c, d }.data(), attr) {}
};
class Hexahedron : public Element {
public:
	explicit Hexahedron(const int* v, int attr = 1) : Element(Geometry::CUBE, v, attr) {}
};

class FiniteElementSpace;
class FiniteElementCollection;
class GridFunction;
class ParGridFunction;

// Partition proposed by GeneratePartitioning when set (harness control).
extern const std::vector<int>* forcedPartitioning;
extern bool sharedInternalBoundaries; // a boundary element between two ranks yields one-sided transformations
class Mesh {
public:
	Mesh() = default;
	Mesh(int dim, int nv, int ne, int nbe = 0, int sdim = -1);
	Mesh(const Mesh&, bool copy_nodes = true);
	Mesh(Mesh&&);
	explicit Mesh(const std::string& file, int generate_edges = 0, int refine = 1, bool fix = true);
	explicit Mesh(std::istream& in, int generate_edges = 0, int refine = 1, bool fix = true);
	Mesh& operator=(const Mesh&);
	Mesh& operator=(Mesh&&);
	virtual ~Mesh();

	static Mesh LoadFromFile(const std::string& f, int generate_edges = 0, int refine = 1, bool fix = true);
	static Mesh LoadFromFileNoBdrFix(const std::string& f, int generate_edges = 0, int refine = 1, bool fix = true);
	static Mesh MakeCartesian1D(int n, double sx = 1.0);
	static Mesh MakeCartesian2D(int nx, int ny, Element::Type t, bool generate_edges = false, double sx = 1.0, double sy = 1.0, bool sfc = true);
	static Mesh MakeCartesian3D(int nx, int ny, int nz, Element::Type t, double sx = 1.0, double sy = 1.0, double sz = 1.0, bool sfc = true);

	int AddVertex(double x, double y = 0, double z = 0);
	int AddVertex(const double* c);
	int AddVertex(const Vector& c) { return AddVertex(c.GetData()); }
	int AddSegment(int a, int b, int attr = 1);
	int AddSegment(const int* v, int attr = 1) { return AddSegment(v[0], v[1], attr); }
	int AddTriangle(int a, int b, int c, int attr = 1);
	int AddTriangle(const int* v, int attr = 1) { return AddTriangle(v[0], v[1], v[2], attr); }
	int AddTri(const int* v, int attr = 1) { return AddTriangle(v, attr); }
	int AddQuad(int a, int b, int c, int d, int attr = 1);
	int AddQuad(const int* v, int attr = 1) { return AddQuad(v[0], v[1], v[2], v[3], attr); }
	int AddTet(int a, int b, int c, int d, int attr = 1);
	int AddTet(const int* v, int attr = 1) { return AddTet(v[0], v[1], v[2], v[3], attr); }
	int AddHex(const int* v, int attr = 1);
	int AddHex(int a, int b, int c, int d, int e, int f, int g, int h, int attr = 1) { int v[8] = { a,b,c,d,e,f,g,h }; return AddHex(v, attr); }
	int AddBdrPoint(int v, int attr = 1);
	int AddBdrSegment(int a, int b, int attr = 1);
	int AddBdrSegment(const int* v, int attr = 1) { return AddBdrSegment(v[0], v[1], attr); }
	int AddBdrTriangle(int a, int b, int c, int attr = 1);
	int AddBdrTriangle(const int* v, int attr = 1) { return AddBdrTriangle(v[0], v[1], v[2], attr); }
	int AddBdrQuad(int a, int b, int c, int d, int attr = 1);
	int AddBdrQuad(const int* v, int attr = 1) { return AddBdrQuad(v[0], v[1], v[2], v[3], attr); }
	int AddElement(Element* e);
	int AddBdrElement(Element* e);

	void markForRefinement();
	void FinalizeMesh(int refine = 0, bool fix_orientation = true);
	void FinalizeTopology(bool generate_bdr = true);
	virtual void Finalize(bool refine = false, bool fix_orientation = false);
	void FinalizeTriMesh(int = 0, int = 0, bool fix = true) { FinalizeMesh(0, fix); }
	void FinalizeQuadMesh(int = 0, int = 0, bool fix = true) { FinalizeMesh(0, fix); }
	void FinalizeTetMesh(int = 0, int = 0, bool fix = true) { FinalizeMesh(0, fix); }
	void FinalizeHexMesh(int = 0, int = 0, bool fix = true) { FinalizeMesh(0, fix); }
	virtual void SetAttributes();
	void GenerateBoundaryElements();
	int CheckElementOrientation(bool fix = true);
	int CheckBdrElementOrientation(bool fix = true);
	void UniformRefinement();

	Array<int> attributes, bdr_attributes;

	int Dimension() const { return Dim; }
	int SpaceDimension() const { return spaceDim; }
	int GetNV() const { return int(vertices.size()); }
	int GetNE() const { return int(elements.size()); }
	int GetNBE() const { return int(boundary.size()); }
	int GetNEdges() const { return Dim == 1 ? 0 : int(edge_verts.size()); }
	int GetNFaces() const { return Dim == 3 ? int(faces_info.size()) : 0; }
	int GetNumFaces() const { return int(faces_info.size()); }
	virtual long long GetGlobalNE() const { return GetNE(); }
	virtual int GetNumFacesWithGhost() const { return GetNumFaces(); }
	int MeshGenerator() const { return 1; }
	bool Nonconforming() const { return false; }

	void GetVertices(Vector& c) const
	{
		c.SetSize(GetNV() * SpaceDimension());
		for (int d = 0; d < SpaceDimension(); d++) { for (int i = 0; i < GetNV(); i++) { c(d * GetNV() + i) = vertices[i][d]; } }
	}
	const double* GetVertex(int i) const { shimCheck("vertex", i, GetNV()); return vertices[i].data(); }
	double* GetVertex(int i) { shimCheck("vertex", i, GetNV()); return vertices[i].data(); }
	Element* GetElement(int i) { shimCheck("element", i, GetNE()); return &elements[i]; }
	const Element* GetElement(int i) const { shimCheck("element", i, GetNE()); return &elements[i]; }
	Element* GetBdrElement(int i) { shimCheck("boundary element", i, GetNBE()); return &boundary[i]; }
	const Element* GetBdrElement(int i) const { shimCheck("boundary element", i, GetNBE()); return &boundary[i]; }
	const Element* GetFace(int i) const { shimCheck("face", i, int(faces.size())); return &faces[i]; }
	int GetAttribute(int i) const { return GetElement(i)->GetAttribute(); }
	void SetAttribute(int i, int a) { GetElement(i)->SetAttribute(a); }
	int GetBdrAttribute(int i) const { return GetBdrElement(i)->GetAttribute(); }
	void SetBdrAttribute(int i, int a) { GetBdrElement(i)->SetAttribute(a); }
	Geometry::Type GetElementGeometry(int i) const { return GetElement(i)->GetGeometryType(); }
	Geometry::Type GetElementBaseGeometry(int i) const { return GetElementGeometry(i); }
	Geometry::Type GetBdrElementGeometry(int i) const { return GetBdrElement(i)->GetGeometryType(); }
	Geometry::Type GetFaceGeometry(int i) const { return GetFace(i)->GetGeometryType(); }
	Element::Type GetElementType(int i) const { return GetElement(i)->GetType(); }
	Element::Type GetBdrElementType(int i) const { return GetBdrElement(i)->GetType(); }
	Element::Type GetFaceElementType(int i) const { return GetFace(i)->GetType(); }
	void GetElementVertices(int i, Array<int>& v) const { GetElement(i)->GetVertices(v); }
	void GetBdrElementVertices(int i, Array<int>& v) const { GetBdrElement(i)->GetVertices(v); }
	void GetEdgeVertices(int i, Array<int>& v) const;
	void GetFaceVertices(int i, Array<int>& v) const;
	void GetElementEdges(int i, Array<int>& e, Array<int>& o) const;
	void GetElementFaces(int i, Array<int>& f, Array<int>& o) const;
	Array<int> GetElementFaceIndices(int i) const;
	int GetBdrElementFaceIndex(int be) const { shimCheck("boundary element", be, int(be_to_face.size())); return be_to_face[be]; }
	int GetBdrFace(int be) const { return GetBdrElementFaceIndex(be); }
	int GetBdrElementEdgeIndex(int be) const { return GetBdrElementFaceIndex(be); }
	void GetBdrElementFace(int be, int* f, int* o) const;
	void GetBdrElementAdjacentElement(int be, int& el, int& info) const;
	void GetFaceElements(int f, int* e1, int* e2) const;
	void GetFaceInfos(int f, int* i1, int* i2) const;
	Array<int> GetFaceToBdrElMap() const;
	virtual bool FaceIsInterior(int f) const;
	bool FaceIsTrueInterior(int f) const { return FaceIsInterior(f); }

	enum class FaceTopology { Boundary, Conforming, Nonconforming, NA };
	enum class ElementLocation { Local, FaceNbr, NA };
	enum class ElementConformity { Coincident, Superset, Subset, NA };
	enum class FaceInfoTag { Boundary, LocalConforming, SharedConforming };
	struct FaceInformation {
		FaceTopology topology = FaceTopology::NA;
		struct { ElementLocation location = ElementLocation::NA; ElementConformity conformity = ElementConformity::NA; int index = -1, local_face_id = -1, orientation = -1; } element[2];
		FaceInfoTag tag = FaceInfoTag::Boundary;
		int ncface = -1;
		bool IsLocal() const { return element[1].location == ElementLocation::Local; }
		bool IsShared() const { return element[1].location == ElementLocation::FaceNbr; }
		bool IsInterior() const { return topology != FaceTopology::Boundary; }
		bool IsBoundary() const { return topology == FaceTopology::Boundary; }
	};
	virtual FaceInformation GetFaceInformation(int f) const;

	Table ElementToEdgeTable() const;
	Table ElementToFaceTable() const;
	const Table& ElementToElementTable();
	Table* GetVertexToElementTable();

	ElementTransformation* GetElementTransformation(int i);
	void GetElementTransformation(int i, IsoparametricTransformation* T) const;
	ElementTransformation* GetBdrElementTransformation(int i);
	void GetBdrElementTransformation(int i, IsoparametricTransformation* T) const;
	ElementTransformation* GetFaceTransformation(int f);
	void GetFaceTransformation(int f, IsoparametricTransformation* T) const;
	ElementTransformation* GetEdgeTransformation(int e);
	virtual FaceElementTransformations* GetFaceElementTransformations(int f, int mask = 31);
	FaceElementTransformations* GetInteriorFaceTransformations(int f);
	FaceElementTransformations* GetBdrFaceTransformations(int be);
	FaceElementTransformations* GetInternalBdrFaceTransformations(int be);

	void GetElementCenter(int i, Vector& c);
	double GetElementSize(int i, int type = 0);
	double GetElementVolume(int i);
	void GetBoundingBox(Vector& mn, Vector& mx, int ref = 2);
	virtual int FindPoints(DenseMatrix& pts, Array<int>& ids, Array<IntegrationPoint>& ips, bool warn = true, void* inv = nullptr);
	int* GeneratePartitioning(int nparts, int method = 1);

	GridFunction* GetNodes() { return nodes_gf.get(); }
	const GridFunction* GetNodes() const { return nodes_gf.get(); }
	void GetNodes(GridFunction& gf) const;
	void GetNodes(Vector& v) const;
	const FiniteElementSpace* GetNodalFESpace() const;
	virtual void SetCurvature(int order, bool discont = false, int sdim = -1, int ordering = 1);
	void SetNodes(const GridFunction& gf);
	void EnsureNodes() { if (geom_order == 0) { SetCurvature(1); } }
	int geometryOrder() const { return geom_order ? geom_order : 1; }

	virtual void Save(const std::string& f, int prec = 16) const;
	virtual void Print(std::ostream& os = mfem::out, const std::string& comments = "") const;
	virtual void PrintVTU(const std::string&) {}

	struct FaceInfo { int Elem1No = -1, Elem2No = -1, Elem1Inf = -1, Elem2Inf = -1; };
	const std::vector<FaceInfo>& faceInfos() const { return faces_info; }
	void copyFrom(const Mesh& o);
	const std::vector<DenseMatrix>& geometryNodes() const { return geom_nodes; }
	void setGeometryNodes(int order, std::vector<DenseMatrix> n) { geom_order = order; geom_nodes = std::move(n); rebuildNodes(); }
	void Transform(const std::function<void(const Vector&, Vector&)>& f);

protected:
	void buildTopology();
	void loadFile(const std::string& f, bool fix, bool bdrfix, bool refine);
	void loadStream(std::istream& in, bool fix, bool bdrfix, bool refine = false);
	void readMfem(std::istream& in);
	void readGmsh(std::istream& in);
	void rebuildNodes();
	void elementPointMat(int i, DenseMatrix& pm, const FiniteElement*& fe) const;
	void buildLoc(int el, const Element& face, IntegrationPointTransformation& loc) const;
	void fillFaceTransformation(int f, IsoparametricTransformation* T) const;
	int localFaceOf(int el, int f) const;

	int Dim = 0, spaceDim = 0;
	std::vector<std::array<double, 3>> vertices;
	std::vector<Element> elements, boundary, faces;
	std::vector<FaceInfo> faces_info;
	std::vector<int> be_to_face;
	std::vector<std::array<int, 2>> edge_verts;
	std::vector<std::vector<int>> el_to_edge, el_to_face;
	int geom_order = 0;                     // 0: straight-sided, no nodes object
	std::vector<DenseMatrix> geom_nodes;    // per element: spaceDim x ndof (Gauss-Lobatto nodes)
	std::unique_ptr<FiniteElementCollection> nodes_fec;
	std::unique_ptr<FiniteElementSpace> nodes_fes;
	std::unique_ptr<GridFunction> nodes_gf;
	Table el_to_el;
	bool el_to_el_built = false;
	IsoparametricTransformation Transformation, Transformation2, BdrTransformation, FaceTransformation, EdgeTransformation;
	FaceElementTransformations FaceElemTr;
};

class SubMesh : public Mesh {
public:
	enum From { Domain, Boundary };
	SubMesh() = default;
	SubMesh(const SubMesh&) = default;
	SubMesh(SubMesh&&) = default;
	SubMesh& operator=(const SubMesh&) = default;
	SubMesh& operator=(SubMesh&&) = default;
	static SubMesh CreateFromDomain(const Mesh& parent, const Array<int>& attrs);
	const Mesh* GetParent() const { return parent_; }
	From GetFrom() const { return Domain; }
	const Array<int>& GetParentElementIDMap() const { return parent_el; }
	const Array<int>& GetParentVertexIDMap() const { return parent_vert; }
	const Array<int>& GetParentFaceIDMap() const { return parent_face; }
	static bool IsSubMesh(const Mesh* m) { return dynamic_cast<const SubMesh*>(m) != nullptr; }
	static class TransferMap CreateTransferMap(const GridFunction& src, const GridFunction& dst);
	static void Transfer(const GridFunction& src, GridFunction& dst);
protected:
	void build(const Mesh& parent, const Array<int>& attrs);
	const Mesh* parent_ = nullptr;
	Array<int> parent_el, parent_vert, parent_face;
};

class ParMesh : public Mesh {
public:
	ParMesh() = default;
	ParMesh(MPI_Comm c, Mesh& m, const int* part = nullptr, int method = 1);
	ParMesh(const ParMesh& o, bool copy_nodes = true);
	ParMesh(ParMesh&&) = default;
	explicit ParMesh(Mesh& m) : ParMesh(MPI_COMM_SELF, m) {}
	ParMesh& operator=(ParMesh&&) = default;
	MPI_Comm GetComm() const { return comm; }
	int GetMyRank() const { return rank_; }
	int GetNRanks() const { return nranks_; }
	void ExchangeFaceNbrData();
	int GetNSharedFaces() const { return int(shared.size()); }
	int GetSharedFace(int s) const { return shared[s].local_face; }
	FaceElementTransformations* GetSharedFaceTransformations(int s, bool fill2 = true);
	int GetNFaceNbrElements() const { return int(nbr_elems.size()); }
	int FindPoints(DenseMatrix& pts, Array<int>& ids, Array<IntegrationPoint>& ips, bool warn = true, void* inv = nullptr) override;
	long long GetGlobalNE() const override;
	void ParPrint(std::ostream& os) const { Print(os); }
	// face-neighbour bookkeeping used by ParFiniteElementSpace
	struct Nbr { int rank; int global_el; int index_in_rank; };
	struct Shared { int local_face; int nbr; int global_face; };
	const std::vector<Nbr>& nbrElements() const { return nbr_elems; }
	const std::vector<int>& localToGlobalElement() const { return l2g_el; }
	const Mesh* globalMesh() const { return global.get(); }
	int globalBdrOfFace(int gf) const;
protected:
	MPI_Comm comm = MPI_COMM_SELF;
	int rank_ = 0, nranks_ = 1;
	std::shared_ptr<Mesh> global;
	std::vector<int> partition, l2g_el;
	std::vector<Nbr> nbr_elems;
	std::vector<Shared> shared;
};

class ParSubMesh : public ParMesh {
public:
	ParSubMesh() = default;
	ParSubMesh(ParSubMesh&&) = default;
	static ParSubMesh CreateFromDomain(const ParMesh& parent, const Array<int>& attrs);
	const ParMesh* GetParent() const { return parent_; }
	const Array<int>& GetParentElementIDMap() const { return parent_el; }
	const Array<int>& GetParentVertexIDMap() const { return parent_vert; }
	SubMesh::From GetFrom() const { return SubMesh::Domain; }
private:
	const ParMesh* parent_ = nullptr;
	Array<int> parent_el, parent_vert;
};

namespace SubMeshUtils {
Array<int> BuildFaceMap(const Mesh& parent, const Mesh& sub, const Array<int>& parent_element_ids);
void BuildVdofToVdofMap(const FiniteElementSpace& subfes, const FiniteElementSpace& parentfes, const SubMesh::From& from, const Array<int>& parent_element_ids, Array<int>& map);
}

class TransferMap {
public:
	TransferMap(const GridFunction& src, const GridFunction& dst);
	void Transfer(const GridFunction& src, GridFunction& dst) const;
private:
	Array<int> map_;
	bool sub_to_parent_ = true;
};

// ---------------------------------------------------------------- Spaces
class FiniteElementCollection {
public:
	virtual ~FiniteElementCollection() = default;
	virtual const FiniteElement* FiniteElementForGeometry(Geometry::Type g) const = 0;
	virtual const char* Name() const = 0;
	virtual int GetOrder() const = 0;
	virtual int GetBasisType() const = 0;
	virtual std::unique_ptr<FiniteElementCollection> cloneFec() const = 0;
	static FiniteElementCollection* New(const char* name);
};

class L2_FECollection : public FiniteElementCollection {
public:
	L2_FECollection(int p, int dim, int btype = BasisType::GaussLegendre, int = 0);
	const FiniteElement* FiniteElementForGeometry(Geometry::Type g) const override { return shimGetFE(g, p_, bt_); }
	const char* Name() const override { return name_.c_str(); }
	int GetOrder() const override { return p_; }
	int GetBasisType() const override { return bt_; }
	std::unique_ptr<FiniteElementCollection> cloneFec() const override { return std::make_unique<L2_FECollection>(*this); }
	int dim() const { return dim_; }
private:
	int p_, dim_, bt_;
	std::string name_;
};
using DG_FECollection = L2_FECollection;

// Stored element-wise: identical values on shared nodes, only used as a carrier
// for geometry and in serial checks of continuous spaces.
class H1_FECollection : public FiniteElementCollection {
public:
	H1_FECollection(int p, int dim = 3, int bt = BasisType::GaussLobatto) : p_(p), dim_(dim), bt_(bt), name_("H1_" + std::to_string(dim) + "D_P" + std::to_string(p)) {}
	const FiniteElement* FiniteElementForGeometry(Geometry::Type g) const override { return shimGetFE(g, p_, bt_); }
	const char* Name() const override { return name_.c_str(); }
	int GetOrder() const override { return p_; }
	int GetBasisType() const override { return bt_; }
	std::unique_ptr<FiniteElementCollection> cloneFec() const override { return std::make_unique<H1_FECollection>(*this); }
private:
	int p_, dim_, bt_;
	std::string name_;
};

struct Ordering { enum Type { byNODES, byVDIM }; };

class DofTransformation {};

enum class ElementDofOrdering { NATIVE, LEXICOGRAPHIC };
class IdentityOperator : public Operator {
public:
	explicit IdentityOperator(int n) : Operator(n) {}
	void Mult(const Vector& x, Vector& y) const override { y = x; }
};
class FiniteElementSpace {
public:
	// Discontinuous spaces only: element dofs are already stored element by element.
	const Operator* GetElementRestriction(ElementDofOrdering) const { if (!restr_) { restr_ = std::make_shared<IdentityOperator>(ndofs); } return restr_.get(); }
	mutable std::shared_ptr<IdentityOperator> restr_;
	FiniteElementSpace() = default;
	FiniteElementSpace(Mesh* m, const FiniteElementCollection* f, int vdim = 1, int ordering = Ordering::byNODES);
	FiniteElementSpace(const FiniteElementSpace&) = default;
	FiniteElementSpace(FiniteElementSpace&&) = default;
	FiniteElementSpace& operator=(const FiniteElementSpace&) = default;
	virtual ~FiniteElementSpace() = default;
	FiniteElementCollection* Load(Mesh* m, std::istream& in);
	void Save(std::ostream& os) const;
	Mesh* GetMesh() const { return mesh; }
	const FiniteElementCollection* FEColl() const { return fec; }
	int GetVDim() const { return vdim; }
	int GetOrdering() const { return ordering; }
	int GetNDofs() const { return ndofs; }
	int GetNVDofs() const { return GetMaxElementOrder() <= 1 ? ndofs : 0; }
	int GetVSize() const { return ndofs * vdim; }
	virtual int GetTrueVSize() const { return GetVSize(); }
	virtual long long GlobalTrueVSize() const { return GetVSize(); }
	int GetNE() const { return mesh->GetNE(); }
	int GetNBE() const { return mesh->GetNBE(); }
	int GetNF() const { return mesh->GetNumFaces(); }
	int GetNV() const { return mesh->GetNV(); }
	void GetElementVertices(int i, Array<int>& v) const { mesh->GetElementVertices(i, v); }
	int GetElementType(int i) const { return mesh->GetElementType(i); }
	Geometry::Type GetElementGeometry(int i) const { return mesh->GetElementGeometry(i); }
	int GetAttribute(int i) const { return mesh->GetAttribute(i); }
	int GetBdrAttribute(int i) const { return mesh->GetBdrAttribute(i); }
	int GetOrder(int i) const { return GetFE(i)->GetOrder(); }
	int GetElementOrder(int i) const { return GetFE(i)->GetOrder(); }
	int GetMaxElementOrder() const { return fec->GetOrder(); }
	ElementTransformation* GetElementTransformation(int i) const { return mesh->GetElementTransformation(i); }
	virtual const FiniteElement* GetFE(int i) const;
	const FiniteElement* GetBE(int) const { mfem_error("GetBE on a discontinuous space"); }
	DofTransformation* GetElementDofs(int i, Array<int>& dofs) const;
	DofTransformation* GetElementVDofs(int i, Array<int>& vdofs) const;
	int DofToVDof(int dof, int vd) const { return ordering == Ordering::byNODES ? dof + vd * ndofs : dof * vdim + vd; }
	const Table& GetElementToDofTable() const { return el_dof; }
	void BuildDofToArrays() {}
	int GetElementForDof(int d) const;
	int GetLocalDofForDof(int d) const;
	virtual void Update(bool = true) { build(); }
	std::shared_ptr<FiniteElementCollection> owned_fec;
protected:
	void build();
	Mesh* mesh = nullptr;
	const FiniteElementCollection* fec = nullptr;
	int vdim = 1, ordering = 0, ndofs = 0;
	std::vector<int> start;
	Table el_dof;
};

class ParFiniteElementSpace : public FiniteElementSpace {
public:
	ParFiniteElementSpace() = default;
	ParFiniteElementSpace(ParMesh* pm, const FiniteElementCollection* f, int dim = 1, int ord = Ordering::byNODES) : FiniteElementSpace(pm, f, dim, ord), pmesh(pm) {}
	ParMesh* GetParMesh() const { return pmesh; }
	MPI_Comm GetComm() const { return pmesh->GetComm(); }
	int GetMyRank() const { return pmesh->GetMyRank(); }
	int GetNRanks() const { return pmesh->GetNRanks(); }
	void ExchangeFaceNbrData();
	int GetFaceNbrVSize() const { return num_face_nbr_dofs; }
	void GetFaceNbrElementVDofs(int i, Array<int>& v) const;
	const FiniteElement* GetFaceNbrFE(int i) const;
	const FiniteElement* GetFE(int i) const override;
	int num_face_nbr_dofs = -1;
	const std::vector<int>& nbrStart() const { return nbr_start; }
private:
	ParMesh* pmesh = nullptr;
	std::vector<int> nbr_start;
};

// ---------------------------------------------------------------- Coefficients
class Coefficient {
public:
	virtual ~Coefficient() = default;
	virtual void SetTime(double t) { time = t; }
	double GetTime() { return time; }
	virtual double Eval(ElementTransformation& T, const IntegrationPoint& ip) = 0;
	double Eval(ElementTransformation& T, const IntegrationPoint& ip, double t) { SetTime(t); return Eval(T, ip); }
protected:
	double time = 0.0;
};
class ConstantCoefficient : public Coefficient {
public:
	double constant;
	explicit ConstantCoefficient(double c = 1.0) : constant(c) {}
	double Eval(ElementTransformation&, const IntegrationPoint&) override { return constant; }
};
class PWConstCoefficient : public Coefficient {
public:
	explicit PWConstCoefficient(int n = 0) : constants(n) { constants = 0.0; }
	explicit PWConstCoefficient(Vector& c) : constants(c) {}
	void UpdateConstants(Vector& c) { constants = c; }
	double& operator()(int i) { return constants(i - 1); }
	int GetNConst() { return constants.Size(); }
	double Eval(ElementTransformation& T, const IntegrationPoint&) override { return constants(T.Attribute - 1); }
private:
	Vector constants;
};
class FunctionCoefficient : public Coefficient {
public:
	explicit FunctionCoefficient(std::function<double(const Vector&)> f) : f_(std::move(f)) {}
	explicit FunctionCoefficient(std::function<double(const Vector&, double)> f) : tf_(std::move(f)) {}
	double Eval(ElementTransformation& T, const IntegrationPoint& ip) override;
private:
	std::function<double(const Vector&)> f_;
	std::function<double(const Vector&, double)> tf_;
};
class VectorCoefficient {
public:
	explicit VectorCoefficient(int v) : vdim(v) {}
	virtual ~VectorCoefficient() = default;
	int GetVDim() { return vdim; }
	virtual void SetTime(double t) { time = t; }
	double GetTime() { return time; }
	virtual void Eval(Vector& V, ElementTransformation& T, const IntegrationPoint& ip) = 0;
protected:
	int vdim;
	double time = 0;
};
class VectorConstantCoefficient : public VectorCoefficient {
public:
	explicit VectorConstantCoefficient(const Vector& v) : VectorCoefficient(v.Size()), vec(v) {}
	void Eval(Vector& V, ElementTransformation&, const IntegrationPoint&) override { V = vec; }
	const Vector& GetVec() const { return vec; }
private:
	Vector vec;
};

// ---------------------------------------------------------------- GridFunction
class GridFunction : public Vector {
public:
	GridFunction() = default;
	GridFunction(const GridFunction& o) : Vector(o), fes(o.fes), own_fes(o.own_fes) {}
	GridFunction(GridFunction&&) = default;
	explicit GridFunction(FiniteElementSpace* f) : Vector(f->GetVSize()), fes(f) {}
	GridFunction(FiniteElementSpace* f, double* d) : Vector(d, f->GetVSize()), fes(f) {}
	GridFunction(FiniteElementSpace* f, Vector& base, int off = 0) : Vector(base, off, f->GetVSize()), fes(f) {}
	GridFunction(Mesh* m, std::istream& in);
	GridFunction& operator=(const GridFunction& o) { Vector::operator=(o); if (!fes) { fes = o.fes; own_fes = o.own_fes; } return *this; }
	GridFunction& operator=(double v) { Vector::operator=(v); return *this; }
	GridFunction& operator=(const Vector& v) { Vector::operator=(v); return *this; }
	FiniteElementSpace* FESpace() { return fes; }
	const FiniteElementSpace* FESpace() const { return fes; }
	int VectorDim() const { return fes->GetVDim(); }
	virtual void SetSpace(FiniteElementSpace* f) { fes = f; SetSize(f->GetVSize()); }
	using Vector::MakeRef;
	virtual void MakeRef(FiniteElementSpace* f, double* v) { fes = f; SetDataAndSize(v, f->GetVSize()); }
	virtual void MakeRef(FiniteElementSpace* f, Vector& v, int off) { fes = f; Vector::MakeRef(v, off, f->GetVSize()); }
	virtual void ProjectCoefficient(Coefficient& c);
	double GetValue(int el, const IntegrationPoint& ip, int vd = 1) const;
	double GetValue(ElementTransformation& T, const IntegrationPoint& ip, int vd = 1, Vector* tr = nullptr) const { return GetValue(T.ElementNo, ip, vd); }
	void GetVectorValue(int el, const IntegrationPoint& ip, Vector& v) const;
	void GetNodalValues(int el, Array<double>& v, int vd = 1) const;
	double ComputeL2Error(Coefficient& c, const IntegrationRule* irs[] = nullptr, const Array<int>* elems = nullptr) const;
	double ComputeMaxError(Coefficient& c) const;
	virtual void Save(std::ostream& os) const;
	virtual void Save(const char* f, int prec = 16) const;
	void Save(const std::string& f, int prec = 16) const { Save(f.c_str(), prec); }
protected:
	FiniteElementSpace* fes = nullptr;
	std::shared_ptr<FiniteElementSpace> own_fes;
};

class ParGridFunction : public GridFunction {
public:
	ParGridFunction() = default;
	ParGridFunction(const ParGridFunction& o) : GridFunction(o), pfes(o.pfes), nbr(o.nbr) {}
	ParGridFunction(ParGridFunction&&) = default;
	explicit ParGridFunction(ParFiniteElementSpace* f) : GridFunction(f), pfes(f) {}
	ParGridFunction(ParFiniteElementSpace* f, double* d) : GridFunction(f, d), pfes(f) {}
	ParGridFunction(ParFiniteElementSpace* f, Vector& base, int off = 0) : GridFunction(f, base, off), pfes(f) {}
	ParGridFunction(ParFiniteElementSpace* f, GridFunction* g) : GridFunction(f, g->GetData()), pfes(f) {}
	ParGridFunction(ParMesh* m, std::istream& in) : GridFunction(m, in) {}
	ParGridFunction& operator=(const ParGridFunction& o) { GridFunction::operator=(o); if (!pfes) { pfes = o.pfes; } return *this; }
	ParGridFunction& operator=(double v) { Vector::operator=(v); return *this; }
	ParGridFunction& operator=(const Vector& v) { Vector::operator=(v); return *this; }
	ParFiniteElementSpace* ParFESpace() const { return pfes; }
	using GridFunction::MakeRef;
	using GridFunction::SetSpace;
	void SetSpace(FiniteElementSpace* f) override { GridFunction::SetSpace(f); pfes = dynamic_cast<ParFiniteElementSpace*>(f); }
	void SetSpace(ParFiniteElementSpace* f) { GridFunction::SetSpace(f); pfes = f; }
	void MakeRef(FiniteElementSpace* f, double* v) override { GridFunction::MakeRef(f, v); pfes = dynamic_cast<ParFiniteElementSpace*>(f); }
	void MakeRef(ParFiniteElementSpace* f, double* v) { GridFunction::MakeRef(f, v); pfes = f; }
	void MakeRef(ParFiniteElementSpace* f, Vector& v, int off) { GridFunction::MakeRef(f, v, off); pfes = f; }
	void ExchangeFaceNbrData();
	Vector& FaceNbrData() { return nbr; }
	const Vector& FaceNbrData() const { return nbr; }
private:
	ParFiniteElementSpace* pfes = nullptr;
	Vector nbr;
};

// ---------------------------------------------------------------- Integrators & forms
class NonlinearFormIntegrator {
public:
	virtual ~NonlinearFormIntegrator() = default;
	virtual void SetIntRule(const IntegrationRule* ir) { IntRule = ir; }
	void SetIntegrationRule(const IntegrationRule& ir) { SetIntRule(&ir); }
	const IntegrationRule* GetIntRule() const { return IntRule; }
protected:
	explicit NonlinearFormIntegrator(const IntegrationRule* ir = nullptr) : IntRule(ir) {}
	const IntegrationRule* IntRule;
};
class BilinearFormIntegrator : public NonlinearFormIntegrator {
public:
	explicit BilinearFormIntegrator(const IntegrationRule* ir = nullptr) : NonlinearFormIntegrator(ir) {}
	virtual void AssembleElementMatrix(const FiniteElement&, ElementTransformation&, DenseMatrix&) { mfem_error("AssembleElementMatrix not implemented"); }
	virtual void AssembleElementMatrix2(const FiniteElement&, const FiniteElement&, ElementTransformation&, DenseMatrix&) { mfem_error("AssembleElementMatrix2 not implemented"); }
	virtual void AssembleFaceMatrix(const FiniteElement&, const FiniteElement&, FaceElementTransformations&, DenseMatrix&) { mfem_error("AssembleFaceMatrix not implemented"); }
};
class InverseIntegrator : public BilinearFormIntegrator {
public:
	explicit InverseIntegrator(BilinearFormIntegrator* i, int own = 1) : integ(i), own_(own) {}
	~InverseIntegrator() override { if (own_) { delete integ; } }
	void SetIntRule(const IntegrationRule* ir) override { IntRule = ir; integ->SetIntRule(ir); }
	void AssembleElementMatrix(const FiniteElement& el, ElementTransformation& T, DenseMatrix& m) override { integ->AssembleElementMatrix(el, T, m); m.Invert(); }
private:
	BilinearFormIntegrator* integ;
	int own_;
};
class MassIntegrator : public BilinearFormIntegrator {
public:
	explicit MassIntegrator(const IntegrationRule* ir = nullptr) : BilinearFormIntegrator(ir) {}
	explicit MassIntegrator(Coefficient& q, const IntegrationRule* ir = nullptr) : BilinearFormIntegrator(ir), Q(&q) {}
	void AssembleElementMatrix(const FiniteElement& el, ElementTransformation& T, DenseMatrix& m) override;
	void AssembleElementMatrix2(const FiniteElement& a, const FiniteElement& b, ElementTransformation& T, DenseMatrix& m) override;
	static const IntegrationRule& GetRule(const FiniteElement& a, const FiniteElement& b, ElementTransformation& T);
private:
	Coefficient* Q = nullptr;
};
class DerivativeIntegrator : public BilinearFormIntegrator {
public:
	DerivativeIntegrator(Coefficient& q, int i) : Q(&q), xi(i) {}
	void AssembleElementMatrix(const FiniteElement& el, ElementTransformation& T, DenseMatrix& m) override { AssembleElementMatrix2(el, el, T, m); }
	void AssembleElementMatrix2(const FiniteElement& trial, const FiniteElement& test, ElementTransformation& T, DenseMatrix& m) override;
private:
	Coefficient* Q;
	int xi;
};
class TransposeIntegrator : public BilinearFormIntegrator {
public:
	explicit TransposeIntegrator(BilinearFormIntegrator* b, int own = 1) : bfi(b), own_(own) {}
	~TransposeIntegrator() override { if (own_) { delete bfi; } }
	void AssembleElementMatrix(const FiniteElement& el, ElementTransformation& T, DenseMatrix& m) override { DenseMatrix t; bfi->AssembleElementMatrix(el, T, t); m.Transpose(t); }
	void AssembleFaceMatrix(const FiniteElement& a, const FiniteElement& b, FaceElementTransformations& T, DenseMatrix& m) override { DenseMatrix t; bfi->AssembleFaceMatrix(a, b, T, t); m.Transpose(t); }
private:
	BilinearFormIntegrator* bfi;
	int own_;
};
class DGTraceIntegrator : public BilinearFormIntegrator {
public:
	DGTraceIntegrator(VectorCoefficient& u_, double a) : u(&u_), alpha(a), beta(0.5 * a) {}
	DGTraceIntegrator(VectorCoefficient& u_, double a, double b) : u(&u_), alpha(a), beta(b) {}
	void AssembleFaceMatrix(const FiniteElement& el1, const FiniteElement& el2, FaceElementTransformations& T, DenseMatrix& m) override;
private:
	VectorCoefficient* u;
	double alpha, beta;
};

class LinearFormIntegrator {
public:
	explicit LinearFormIntegrator(const IntegrationRule* ir = nullptr) : IntRule(ir) {}
	virtual ~LinearFormIntegrator() = default;
	virtual void AssembleRHSElementVect(const FiniteElement& el, ElementTransformation& T, Vector& v) = 0;
	virtual void AssembleRHSElementVect(const FiniteElement&, FaceElementTransformations&, Vector&) { mfem_error("face RHS not implemented"); }
	virtual void AssembleRHSElementVect(const FiniteElement&, const FiniteElement&, FaceElementTransformations&, Vector&) { mfem_error("interior face RHS not implemented"); }
	void SetIntRule(const IntegrationRule* ir) { IntRule = ir; }
	const IntegrationRule* GetIntRule() { return IntRule; }
protected:
	const IntegrationRule* IntRule;
};
class DomainLFIntegrator : public LinearFormIntegrator {
public:
	explicit DomainLFIntegrator(Coefficient& q, int a = 2, int b = 0) : Q(q), oa(a), ob(b) {}
	using LinearFormIntegrator::AssembleRHSElementVect;
	void AssembleRHSElementVect(const FiniteElement& el, ElementTransformation& T, Vector& v) override;
private:
	Coefficient& Q;
	int oa, ob;
};
class BoundaryNormalLFIntegrator : public LinearFormIntegrator {
public:
	explicit BoundaryNormalLFIntegrator(VectorCoefficient& q, int a = 1, int b = 1) : Q(q), oa(a), ob(b) {}
	using LinearFormIntegrator::AssembleRHSElementVect;
	void AssembleRHSElementVect(const FiniteElement& el, ElementTransformation& T, Vector& v) override;
private:
	VectorCoefficient& Q;
	int oa, ob;
};

enum class AssemblyLevel { LEGACY, LEGACYFULL = 0, FULL, ELEMENT, PARTIAL, NONE };

class BilinearForm : public Operator {
public:
	explicit BilinearForm(FiniteElementSpace* f);
	~BilinearForm() override;
	FiniteElementSpace* FESpace() { return fes; }
	const FiniteElementSpace* FESpace() const { return fes; }
	void SetAssemblyLevel(AssemblyLevel) {}
	void AddDomainIntegrator(BilinearFormIntegrator* b);
	void AddDomainIntegrator(BilinearFormIntegrator* b, Array<int>& marker);
	void AddBoundaryIntegrator(BilinearFormIntegrator*) { mfem_error("AddBoundaryIntegrator"); }
	void AddInteriorFaceIntegrator(BilinearFormIntegrator* b);
	// Fork-specific: interior faces carrying a boundary element whose attribute
	// is set in `ignore` are left out.
	void AddInteriorFaceIntegrator(BilinearFormIntegrator* b, Array<int>& ignore);
	void AddBdrFaceIntegrator(BilinearFormIntegrator* b);
	void AddBdrFaceIntegrator(BilinearFormIntegrator* b, Array<int>& marker);
	// Fork-specific: interior faces carrying a boundary element with a marked attribute.
	void AddInternalBoundaryFaceIntegrator(BilinearFormIntegrator* b);
	void AddInternalBoundaryFaceIntegrator(BilinearFormIntegrator* b, Array<int>& marker);
	virtual void Assemble(int skip_zeros = 1);
	virtual void Finalize(int skip_zeros = 1) { if (mat) { mat->Finalize(skip_zeros); } }
	const SparseMatrix& SpMat() const { if (!mat) { mfem_error("SpMat before Assemble"); } return *mat; }
	SparseMatrix& SpMat() { if (!mat) { mfem_error("SpMat before Assemble"); } return *mat; }
	SparseMatrix* LoseMat() { SparseMatrix* m = mat; mat = nullptr; return m; }
	bool HasSpMat() { return mat != nullptr; }
	void Mult(const Vector& x, Vector& y) const override { SpMat().Mult(x, y); }
	void AddMult(const Vector& x, Vector& y, const double a = 1.0) const override { SpMat().AddMult(x, y, a); }
	double& Elem(int i, int j) { return mat->Elem(i, j); }
	double operator()(int i, int j) { return (*static_cast<const SparseMatrix*>(mat))(i, j); }
	double InnerProduct(const Vector& x, const Vector& y) const { Vector t(height); Mult(x, t); return t * y; }
	void EliminateEssentialBC(const Array<int>&) {}
protected:
	struct Term { BilinearFormIntegrator* integ; Array<int>* marker; };
	virtual void AllocMat();
	virtual void assembleSharedFaces(int) {}
	FiniteElementSpace* fes;
	SparseMatrix* mat = nullptr;
	std::vector<Term> dom_, intf_, bdrf_, ibf_;
	Array<int> vdofs;
	DenseMatrix elemmat;
private:
	BilinearForm(const BilinearForm&) = delete;
	BilinearForm& operator=(const BilinearForm&) = delete;
};

class ParBilinearForm : public BilinearForm {
public:
	explicit ParBilinearForm(ParFiniteElementSpace* f) : BilinearForm(f), pfes(f) {}
	ParFiniteElementSpace* ParFESpace() const { return pfes; }
	void KeepNbrBlock(bool k = true) { keep_nbr_block = k; }
protected:
	void AllocMat() override;
	void assembleSharedFaces(int skip) override;
	ParFiniteElementSpace* pfes;
	bool keep_nbr_block = false;
};

class LinearForm : public Vector {
public:
	explicit LinearForm(FiniteElementSpace* f) : Vector(f->GetVSize()), fes(f) { Vector::operator=(0.0); }
	~LinearForm() override;
	LinearForm& operator=(double v) { Vector::operator=(v); return *this; }
	FiniteElementSpace* FESpace() { return fes; }
	void AddDomainIntegrator(LinearFormIntegrator* l) { dom_.push_back({ l, nullptr }); }
	void AddBoundaryIntegrator(LinearFormIntegrator*) { mfem_error("AddBoundaryIntegrator"); }
	void AddBdrFaceIntegrator(LinearFormIntegrator* l) { bdrf_.push_back({ l, nullptr }); }
	void AddBdrFaceIntegrator(LinearFormIntegrator* l, Array<int>& m) { bdrf_.push_back({ l, &m }); }
	void AddInteriorFaceIntegrator(LinearFormIntegrator* l) { intf_.push_back({ l, nullptr }); }
	virtual void Assemble();
	double operator()(const GridFunction& g) const { return Vector::operator*(g); }
	using Vector::operator();
protected:
	struct Term { LinearFormIntegrator* integ; Array<int>* marker; };
	FiniteElementSpace* fes;
	std::vector<Term> dom_, bdrf_, intf_;
private:
	LinearForm(const LinearForm&) = delete;
};
class ParLinearForm : public LinearForm {
public:
	explicit ParLinearForm(ParFiniteElementSpace* f) : LinearForm(f) {}
};

// ---------------------------------------------------------------- Data collections
enum class VTKFormat { ASCII, BINARY, BINARY32 };
class DataCollection {
public:
	DataCollection(const std::string& n, Mesh* m = nullptr) : name(n), mesh(m) {}
	virtual ~DataCollection() = default;
	virtual void RegisterField(const std::string& n, GridFunction* g) { fields[n] = g; }
	virtual void SetPrefixPath(const std::string& p) { prefix_path = p.empty() || p.back() == '/' ? p : p + "/"; }
	const std::string& GetPrefixPath() const { return prefix_path; }
	const std::string& GetCollectionName() const { return name; }
	void SetCycle(int c) { cycle = c; }
	void SetTime(double t) { time = t; }
	int GetCycle() const { return cycle; }
	double GetTime() const { return time; }
	void SetPrecision(int) {}
	virtual void Save();
	const std::map<std::string, GridFunction*>& GetFieldMap() const { return fields; }
	Mesh* GetMesh() { return mesh; }
	bool HasField(const std::string& n) const { return fields.count(n) > 0; }
	GridFunction* GetField(const std::string& n) { auto it = fields.find(n); return it == fields.end() ? nullptr : it->second; }
protected:
	std::string name, prefix_path;
	Mesh* mesh;
	int cycle = -1;
	double time = 0.0;
	std::map<std::string, GridFunction*> fields;
};
class ParaViewDataCollection : public DataCollection {
public:
	using DataCollection::DataCollection;
	void Save() override;
	void SetLevelsOfDetail(int) {}
	void SetHighOrderOutput(bool) {}
	void SetDataFormat(VTKFormat) {}
	void SetCompression(bool) {}
};

// ---------------------------------------------------------------- Runtime
class StopWatch {
public:
	void Start() { t0 = std::chrono::steady_clock::now(); run = true; }
	void Stop() { if (run) { acc += el(); run = false; } }
	void Restart() { acc = 0; Start(); }
	void Clear() { acc = 0; run = false; }
	double RealTime() { return acc + (run ? el() : 0.0); }
	double UserTime() { return RealTime(); }
private:
	double el() const { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); }
	std::chrono::steady_clock::time_point t0;
	double acc = 0;
	bool run = false;
};

struct Backend { enum Id : unsigned long { CPU = 1, OMP = 2, CUDA = 4, HIP = 8, CUDA_MASK = 4, DEVICE_MASK = 12 }; };
class Device {
public:
	Device() = default;
	explicit Device(const std::string& d, int dev = 0) { (void)dev; (void)d; }
	void Configure(const std::string&, int = 0) {}
	void Print(std::ostream& = mfem::out) {}
	static bool Allows(unsigned long m) { return (m & Backend::CPU) != 0; }
	static bool IsEnabled() { return false; }
	static bool GetGPUAwareMPI() { return false; }
	static void SetGPUAwareMPI(bool) {}
};

struct Mpi {
	static void Init() {}
	static void Init(int&, char**&) {}
	static void Init(int*, char***) {}
	static void Finalize() {}
	static bool IsInitialized() { return true; }
	static bool IsFinalized() { return false; }
	static int WorldRank();
	static int WorldSize();
	static bool Root() { return WorldRank() == 0; }
};
struct Hypre { static void Init() {} static void Finalize() {} };

class OptionsParser {
public:
	OptionsParser(int, char**) {}
	template <class T> void AddOption(T*, const char*, const char*, const char*, bool = false) {}
	void Parse() {}
	bool Good() const { return true; }
};

template <class F> inline void forall(int n, F f) { for (int i = 0; i < n; i++) { f(i); } }

} // namespace mfem
