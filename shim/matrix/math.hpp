/*
 * Stand-in for the PX4/Matrix header library (https://github.com/PX4/Matrix), which PX4/ecl needs
 * to compile its EKF, geo and airdata parts and which is not available in this sandbox.
 *
 * Written from the published API of that library for the ecl revision under test (type names, member
 * names, storage order, quaternion/DCM/Euler conventions and evaluation order).  It is part of the
 * verification machinery: the repository's own gtest suites and its 24-state replay traces
 * (test/change_indication/*.csv) are run against it by shim/validate.sh.
 */
#pragma once

#include <cfloat>
#include <cmath>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <limits>
#include <type_traits>
#include <utility>

#ifdef assert
#undef assert
#endif
#include <cassert>

#ifndef M_PI
#define M_PI 3.14159265358979323846
#endif

namespace matrix
{

template <typename Type, size_t M, size_t N> class Matrix;
template <typename Type, size_t M> class Vector;
template <typename Type> class Vector2;
template <typename Type> class Vector3;
template <typename Type, size_t P, size_t Q, size_t M, size_t N> class Slice;
template <typename Type> class Dcm;
template <typename Type> class Quaternion;
template <typename Type> class Euler;
template <typename Type> class AxisAngle;

// ---------------------------------------------------------------- helper functions
template <typename Type> bool is_finite(Type x) { return std::isfinite(x); }

template <typename Type> bool isEqualF(const Type x, const Type y, const Type eps = Type(1e-4f))
{
	return (std::fabs(x - y) <= eps) || (std::isnan(x) && std::isnan(y))
	       || (std::isinf(x) && std::isinf(y) && std::isnan(x - y));
}

namespace detail
{
template <typename Floating> Floating wrap_floating(Floating x, Floating low, Floating high)
{
	if (low <= x && x < high) { return x; }

	const auto range = high - low;
	const auto inv_range = Floating(1) / range;
	const auto num_wraps = std::floor((x - low) * inv_range);
	return x - range * num_wraps;
}
}

inline float wrap(float x, float low, float high) { return detail::wrap_floating(x, low, high); }
inline double wrap(double x, double low, double high) { return detail::wrap_floating(x, low, high); }

template <typename Integer> Integer wrap(Integer x, Integer low, Integer high)
{
	const auto range = high - low;

	if (x < low) { x += range * ((low - x) / range + 1); }

	return low + (x - low) % range;
}

template <typename Type> Type wrap_pi(Type x) { return wrap(x, Type(-M_PI), Type(M_PI)); }
template <typename Type> Type wrap_2pi(Type x) { return wrap(x, Type(0), Type(2 * M_PI)); }
template <typename Type> Type unwrap(const Type last_x, const Type new_x, const Type low, const Type high)
{
	return last_x + wrap(new_x - last_x, low, high);
}
template <typename Type> Type unwrap_pi(const Type last_angle, const Type new_angle)
{
	return unwrap(last_angle, new_angle, Type(-M_PI), Type(M_PI));
}
template <typename T> int sign(T val) { return (T(FLT_EPSILON) < val) - (val < T(FLT_EPSILON)); }
template <typename T> int signNoZero(T val) { return (T(0) <= val) - (val < T(0)); }

// ---------------------------------------------------------------- Matrix
template <typename Type, size_t M, size_t N>
class Matrix
{
	Type _data[M][N] {};

public:
	Matrix() = default;
	explicit Matrix(const Type data_[M * N])
	{
		for (size_t i = 0; i < M; i++) { for (size_t j = 0; j < N; j++) { _data[i][j] = data_[N * i + j]; } }
	}
	explicit Matrix(const Type data_[M][N])
	{
		for (size_t i = 0; i < M; i++) { for (size_t j = 0; j < N; j++) { _data[i][j] = data_[i][j]; } }
	}
	Matrix(const Matrix &other) = default;
	template <size_t P, size_t Q> Matrix(const Slice<Type, M, N, P, Q> &in_slice)
	{
		for (size_t i = 0; i < M; i++) { for (size_t j = 0; j < N; j++) { _data[i][j] = in_slice(i, j); } }
	}

	const Type &operator()(size_t i, size_t j) const { assert(i < M && j < N); return _data[i][j]; }
	Type &operator()(size_t i, size_t j) { assert(i < M && j < N); return _data[i][j]; }
	Matrix &operator=(const Matrix &other) = default;

	void copyTo(Type dst[M * N]) const
	{
		for (size_t i = 0; i < M; i++) { for (size_t j = 0; j < N; j++) { dst[N * i + j] = _data[i][j]; } }
	}
	void copyToColumnMajor(Type dst[M * N]) const
	{
		for (size_t i = 0; i < M; i++) { for (size_t j = 0; j < N; j++) { dst[i + j * M] = _data[i][j]; } }
	}

	template <size_t P> Matrix<Type, M, P> operator*(const Matrix<Type, N, P> &other) const
	{
		Matrix<Type, M, P> res;

		for (size_t i = 0; i < M; i++) {
			for (size_t k = 0; k < P; k++) {
				for (size_t j = 0; j < N; j++) { res(i, k) += _data[i][j] * other(j, k); }
			}
		}

		return res;
	}
	Matrix emult(const Matrix &other) const
	{
		Matrix res;

		for (size_t i = 0; i < M; i++) { for (size_t j = 0; j < N; j++) { res(i, j) = _data[i][j] * other(i, j); } }

		return res;
	}
	Matrix edivide(const Matrix &other) const
	{
		Matrix res;

		for (size_t i = 0; i < M; i++) { for (size_t j = 0; j < N; j++) { res(i, j) = _data[i][j] / other(i, j); } }

		return res;
	}
	Matrix operator+(const Matrix &other) const { Matrix res(*this); res += other; return res; }
	Matrix operator-(const Matrix &other) const { Matrix res(*this); res -= other; return res; }
	Matrix operator-() const
	{
		Matrix res;

		for (size_t i = 0; i < M; i++) { for (size_t j = 0; j < N; j++) { res(i, j) = -_data[i][j]; } }

		return res;
	}
	bool operator==(const Matrix &other) const { return isEqual(*this, other); }
	bool operator!=(const Matrix &other) const { return !(*this == other); }
	void operator+=(const Matrix &other)
	{
		for (size_t i = 0; i < M; i++) { for (size_t j = 0; j < N; j++) { _data[i][j] += other(i, j); } }
	}
	void operator-=(const Matrix &other)
	{
		for (size_t i = 0; i < M; i++) { for (size_t j = 0; j < N; j++) { _data[i][j] -= other(i, j); } }
	}
	template <size_t P> void operator*=(const Matrix<Type, N, P> &other) { *this = *this * other; }

	Matrix operator*(Type s) const
	{
		Matrix res;

		for (size_t i = 0; i < M; i++) { for (size_t j = 0; j < N; j++) { res(i, j) = _data[i][j] * s; } }

		return res;
	}
	Matrix operator/(Type s) const { return (*this) * (1 / s); }
	Matrix operator+(Type s) const
	{
		Matrix res;

		for (size_t i = 0; i < M; i++) { for (size_t j = 0; j < N; j++) { res(i, j) = _data[i][j] + s; } }

		return res;
	}
	Matrix operator-(Type s) const { return (*this) + (-1 * s); }
	void operator*=(Type s)
	{
		for (size_t i = 0; i < M; i++) { for (size_t j = 0; j < N; j++) { _data[i][j] *= s; } }
	}
	void operator/=(Type s) { *this *= Type(1) / s; }
	void operator+=(Type s)
	{
		for (size_t i = 0; i < M; i++) { for (size_t j = 0; j < N; j++) { _data[i][j] += s; } }
	}
	void operator-=(Type s) { *this += -s; }

	void print() const
	{
		for (size_t i = 0; i < M; i++) {
			for (size_t j = 0; j < N; j++) { printf("%10.5g ", double(_data[i][j])); }

			printf("\n");
		}
	}
	Matrix<Type, N, M> transpose() const
	{
		Matrix<Type, N, M> res;

		for (size_t i = 0; i < M; i++) { for (size_t j = 0; j < N; j++) { res(j, i) = _data[i][j]; } }

		return res;
	}
	Matrix<Type, N, M> T() const { return transpose(); }

	template <size_t P, size_t Q> const Slice<Type, P, Q, M, N> slice(size_t x0, size_t y0) const
	{
		return {x0, y0, this};
	}
	template <size_t P, size_t Q> Slice<Type, P, Q, M, N> slice(size_t x0, size_t y0) { return {x0, y0, this}; }
	const Slice<Type, 1, N, M, N> row(size_t i) const { return slice<1, N>(i, 0); }
	Slice<Type, 1, N, M, N> row(size_t i) { return slice<1, N>(i, 0); }
	const Slice<Type, M, 1, M, N> col(size_t j) const { return slice<M, 1>(0, j); }
	Slice<Type, M, 1, M, N> col(size_t j) { return slice<M, 1>(0, j); }
	void setRow(size_t i, const Matrix<Type, N, 1> &r) { slice<1, N>(i, 0) = r.transpose(); }
	void setRow(size_t i, Type val) { slice<1, N>(i, 0) = val; }
	void setCol(size_t j, const Matrix<Type, M, 1> &c) { slice<M, 1>(0, j) = c; }
	void setCol(size_t j, Type val) { slice<M, 1>(0, j) = val; }
	void setZero() { memset(_data, 0, sizeof(_data)); }
	void zero() { setZero(); }
	void setAll(Type val)
	{
		for (size_t i = 0; i < M; i++) { for (size_t j = 0; j < N; j++) { _data[i][j] = val; } }
	}
	void setOne() { setAll(1); }
	void setNaN() { setAll(std::numeric_limits<Type>::quiet_NaN()); }
	void setIdentity()
	{
		setZero();
		const size_t min_i = M > N ? N : M;

		for (size_t i = 0; i < min_i; i++) { _data[i][i] = 1; }
	}
	void identity() { setIdentity(); }
	void swapRows(size_t a, size_t b)
	{
		assert(a < M && b < M);

		if (a == b) { return; }

		for (size_t j = 0; j < N; j++) { std::swap(_data[a][j], _data[b][j]); }
	}
	void swapCols(size_t a, size_t b)
	{
		assert(a < N && b < N);

		if (a == b) { return; }

		for (size_t i = 0; i < M; i++) { std::swap(_data[i][a], _data[i][b]); }
	}
	Matrix abs() const
	{
		Matrix r;

		for (size_t i = 0; i < M; i++) { for (size_t j = 0; j < N; j++) { r(i, j) = Type(std::fabs(_data[i][j])); } }

		return r;
	}
	Type max() const
	{
		Type max_val = _data[0][0];

		for (size_t i = 0; i < M; i++) { for (size_t j = 0; j < N; j++) { if (_data[i][j] > max_val) { max_val = _data[i][j]; } } }

		return max_val;
	}
	Type min() const
	{
		Type min_val = _data[0][0];

		for (size_t i = 0; i < M; i++) { for (size_t j = 0; j < N; j++) { if (_data[i][j] < min_val) { min_val = _data[i][j]; } } }

		return min_val;
	}
	bool isAllNan() const
	{
		for (size_t i = 0; i < M; i++) { for (size_t j = 0; j < N; j++) { if (!std::isnan(_data[i][j])) { return false; } } }

		return true;
	}
	bool isAllFinite() const
	{
		for (size_t i = 0; i < M; i++) { for (size_t j = 0; j < N; j++) { if (!std::isfinite(_data[i][j])) { return false; } } }

		return true;
	}
};

template <typename Type, size_t M, size_t N> Matrix<Type, M, N> zeros() { Matrix<Type, M, N> m; m.setZero(); return m; }
template <typename Type, size_t M, size_t N> Matrix<Type, M, N> ones() { Matrix<Type, M, N> m; m.setOne(); return m; }
template <size_t M, size_t N> Matrix<float, M, N> nans() { Matrix<float, M, N> m; m.setNaN(); return m; }

template <typename Type, size_t M, size_t N> Matrix<Type, M, N> operator*(Type s, const Matrix<Type, M, N> &other)
{
	return other * s;
}

template <typename Type, size_t M, size_t N>
bool isEqual(const Matrix<Type, M, N> &x, const Matrix<Type, M, N> &y, const Type eps = Type(1e-4f))
{
	for (size_t i = 0; i < M; i++) { for (size_t j = 0; j < N; j++) { if (!isEqualF(x(i, j), y(i, j), eps)) { return false; } } }

	return true;
}

namespace typeFunction
{
template <typename Type> Type min(const Type x, const Type y)
{
	const bool x_is_nan = std::isnan(x);
	const bool y_is_nan = std::isnan(y);

	if (x_is_nan || y_is_nan) {
		if (x_is_nan && !y_is_nan) { return y; }

		return x;
	}

	return (x < y) ? x : y;
}
template <typename Type> Type max(const Type x, const Type y)
{
	const bool x_is_nan = std::isnan(x);
	const bool y_is_nan = std::isnan(y);

	if (x_is_nan || y_is_nan) {
		if (x_is_nan && !y_is_nan) { return y; }

		return x;
	}

	return (x > y) ? x : y;
}
template <typename Type> Type constrain(const Type x, const Type lower_bound, const Type upper_bound)
{
	if (lower_bound > upper_bound) { return std::numeric_limits<Type>::quiet_NaN(); }

	if (std::isnan(x)) { return std::numeric_limits<Type>::quiet_NaN(); }

	return typeFunction::max(lower_bound, typeFunction::min(upper_bound, x));
}
}

#define SHIM_MINMAX(fn) \
	template <typename Type, size_t M, size_t N> \
	Matrix<Type, M, N> fn(const Matrix<Type, M, N> &x, const Type scalar) \
	{ \
		Matrix<Type, M, N> m; \
		for (size_t i = 0; i < M; i++) { for (size_t j = 0; j < N; j++) { m(i, j) = typeFunction::fn(x(i, j), scalar); } } \
		return m; \
	} \
	template <typename Type, size_t M, size_t N> \
	Matrix<Type, M, N> fn(const Type scalar, const Matrix<Type, M, N> &x) { return fn(x, scalar); } \
	template <typename Type, size_t M, size_t N> \
	Matrix<Type, M, N> fn(const Matrix<Type, M, N> &x, const Matrix<Type, M, N> &y) \
	{ \
		Matrix<Type, M, N> m; \
		for (size_t i = 0; i < M; i++) { for (size_t j = 0; j < N; j++) { m(i, j) = typeFunction::fn(x(i, j), y(i, j)); } } \
		return m; \
	}
SHIM_MINMAX(min)
SHIM_MINMAX(max)
#undef SHIM_MINMAX

template <typename Type, size_t M, size_t N>
Matrix<Type, M, N> constrain(const Matrix<Type, M, N> &x, const Type lower_bound, const Type upper_bound)
{
	Matrix<Type, M, N> m;

	if (lower_bound > upper_bound) {
		m.setNaN();

	} else {
		for (size_t i = 0; i < M; i++) {
			for (size_t j = 0; j < N; j++) { m(i, j) = typeFunction::constrain(x(i, j), lower_bound, upper_bound); }
		}
	}

	return m;
}
template <typename Type, size_t M, size_t N>
Matrix<Type, M, N> constrain(const Matrix<Type, M, N> &x, const Matrix<Type, M, N> &lower, const Matrix<Type, M, N> &upper)
{
	Matrix<Type, M, N> m;

	for (size_t i = 0; i < M; i++) {
		for (size_t j = 0; j < N; j++) { m(i, j) = typeFunction::constrain(x(i, j), lower(i, j), upper(i, j)); }
	}

	return m;
}

// ---------------------------------------------------------------- Slice
template <typename Type, size_t P, size_t Q, size_t M, size_t N>
class Slice
{
public:
	Slice(size_t x0, size_t y0, const Matrix<Type, M, N> *data) :
		_x0(x0), _y0(y0), _data(const_cast<Matrix<Type, M, N>*>(data))
	{
		static_assert(P <= M, "Slice rows bigger than backing matrix");
		static_assert(Q <= N, "Slice cols bigger than backing matrix");
		assert(x0 + P <= M);
		assert(y0 + Q <= N);
	}
	Slice(const Slice &) = default;

	const Type &operator()(size_t i, size_t j) const { assert(i < P && j < Q); return (*_data)(_x0 + i, _y0 + j); }
	Type &operator()(size_t i, size_t j) { assert(i < P && j < Q); return (*_data)(_x0 + i, _y0 + j); }
	// vector style access for row / column slices
	const Type &operator()(size_t k) const { static_assert(P == 1 || Q == 1, ""); return Q == 1 ? (*this)(k, 0) : (*this)(0, k); }
	Type &operator()(size_t k) { static_assert(P == 1 || Q == 1, ""); return Q == 1 ? (*this)(k, 0) : (*this)(0, k); }

	template <size_t MM, size_t NN> Slice &operator=(const Slice<Type, P, Q, MM, NN> &other) { return assign(Matrix<Type, P, Q>(other)); }
	Slice &operator=(const Slice &other) { return assign(Matrix<Type, P, Q>(other)); }
	Slice &operator=(const Matrix<Type, P, Q> &other) { return assign(other); }
	Slice &operator=(const Type &other)
	{
		for (size_t i = 0; i < P; i++) { for (size_t j = 0; j < Q; j++) { (*this)(i, j) = other; } }

		return *this;
	}
	// allow assigning vectors to a slice that are in the axis of the slice
	template <size_t DUMMY = 1> Slice &operator=(const Vector<Type, Q> &other)
	{
		static_assert(P == DUMMY, "vector assignment needs a row");

		for (size_t j = 0; j < Q; j++) { (*this)(0, j) = other(j); }

		return *this;
	}

	template <size_t MM, size_t NN> Slice &operator+=(const Slice<Type, P, Q, MM, NN> &other) { return add(Matrix<Type, P, Q>(other), Type(1)); }
	Slice &operator+=(const Matrix<Type, P, Q> &other) { return add(other, Type(1)); }
	Slice &operator+=(const Type &other)
	{
		for (size_t i = 0; i < P; i++) { for (size_t j = 0; j < Q; j++) { (*this)(i, j) += other; } }

		return *this;
	}
	template <size_t MM, size_t NN> Slice &operator-=(const Slice<Type, P, Q, MM, NN> &other) { return sub(Matrix<Type, P, Q>(other)); }
	Slice &operator-=(const Matrix<Type, P, Q> &other) { return sub(other); }
	Slice &operator-=(const Type &other)
	{
		for (size_t i = 0; i < P; i++) { for (size_t j = 0; j < Q; j++) { (*this)(i, j) -= other; } }

		return *this;
	}
	Slice &operator*=(const Type &other)
	{
		for (size_t i = 0; i < P; i++) { for (size_t j = 0; j < Q; j++) { (*this)(i, j) *= other; } }

		return *this;
	}
	Slice &operator/=(const Type &other) { return operator*=(Type(1) / other); }
	Matrix<Type, P, Q> operator*(const Type &other) const { return Matrix<Type, P, Q>(*this) * other; }
	Matrix<Type, P, Q> operator/(const Type &other) const { return (*this) * (Type(1) / other); }
	Matrix<Type, P, Q> operator-() const { return -Matrix<Type, P, Q>(*this); }
	template <size_t R> Matrix<Type, P, R> operator*(const Matrix<Type, Q, R> &other) const { return Matrix<Type, P, Q>(*this) * other; }
	Matrix<Type, P, Q> operator+(const Matrix<Type, P, Q> &other) const { return Matrix<Type, P, Q>(*this) + other; }
	Matrix<Type, P, Q> operator-(const Matrix<Type, P, Q> &other) const { return Matrix<Type, P, Q>(*this) - other; }

	template <size_t R, size_t S> const Slice<Type, R, S, M, N> slice(size_t x0, size_t y0) const { return {x0 + _x0, y0 + _y0, _data}; }
	template <size_t R, size_t S> Slice<Type, R, S, M, N> slice(size_t x0, size_t y0) { return {x0 + _x0, y0 + _y0, _data}; }
	const Slice<Type, 1, Q, M, N> row(size_t i) const { return {_x0 + i, _y0, _data}; }
	Slice<Type, 1, Q, M, N> row(size_t i) { return {_x0 + i, _y0, _data}; }
	const Slice<Type, P, 1, M, N> col(size_t j) const { return {_x0, _y0 + j, _data}; }
	Slice<Type, P, 1, M, N> col(size_t j) { return {_x0, _y0 + j, _data}; }

	void copyTo(Type dst[P * Q]) const { Matrix<Type, P, Q>(*this).copyTo(dst); }
	void copyToColumnMajor(Type dst[P * Q]) const { Matrix<Type, P, Q>(*this).copyToColumnMajor(dst); }

	Vector < Type, P < Q ? P : Q > diag() const
	{
		Vector < Type, P < Q ? P : Q > res;

		for (size_t j = 0; j < (P < Q ? P : Q); j++) { res(j) = (*this)(j, j); }

		return res;
	}
	Type norm_squared() const
	{
		Type accum(0);

		for (size_t i = 0; i < P; i++) { for (size_t j = 0; j < Q; j++) { accum += (*this)(i, j) * (*this)(i, j); } }

		return accum;
	}
	Type norm() const { return std::sqrt(norm_squared()); }
	Type length() const { return norm(); }
	bool longerThan(Type testVal) const { return norm_squared() > testVal * testVal; }
	Type max() const { return Matrix<Type, P, Q>(*this).max(); }
	Type min() const { return Matrix<Type, P, Q>(*this).min(); }
	Matrix<Type, Q, P> transpose() const { return Matrix<Type, P, Q>(*this).transpose(); }
	Matrix<Type, Q, P> T() const { return transpose(); }
	void setAll(Type v) { *this = v; }
	void setZero() { *this = Type(0); }
	void zero() { setZero(); }

private:
	Slice &assign(const Matrix<Type, P, Q> &other)
	{
		for (size_t i = 0; i < P; i++) { for (size_t j = 0; j < Q; j++) { (*this)(i, j) = other(i, j); } }

		return *this;
	}
	Slice &add(const Matrix<Type, P, Q> &other, Type)
	{
		for (size_t i = 0; i < P; i++) { for (size_t j = 0; j < Q; j++) { (*this)(i, j) += other(i, j); } }

		return *this;
	}
	Slice &sub(const Matrix<Type, P, Q> &other)
	{
		for (size_t i = 0; i < P; i++) { for (size_t j = 0; j < Q; j++) { (*this)(i, j) -= other(i, j); } }

		return *this;
	}
	size_t _x0, _y0;
	Matrix<Type, M, N> *_data;
};

// ---------------------------------------------------------------- Vector
template <typename Type, size_t M>
class Vector : public Matrix<Type, M, 1>
{
public:
	using MatrixM1 = Matrix<Type, M, 1>;
	Vector() = default;
	Vector(const MatrixM1 &other) : MatrixM1(other) {}
	explicit Vector(const Type data_[M]) : MatrixM1(data_) {}
	template <size_t P, size_t Q> Vector(const Slice<Type, M, 1, P, Q> &s) : MatrixM1(s) {}
	template <size_t P, size_t Q, size_t DUMMY = 1> Vector(const Slice<Type, 1, M, P, Q> &s)
	{
		for (size_t i = 0; i < M; i++) { (*this)(i) = s(0, i); }
	}

	const Type &operator()(size_t i) const { return MatrixM1::operator()(i, 0); }
	Type &operator()(size_t i) { return MatrixM1::operator()(i, 0); }

	Type dot(const MatrixM1 &b) const
	{
		Type r(0);

		for (size_t i = 0; i < M; i++) { r += (*this)(i) * b(i, 0); }

		return r;
	}
	Type operator*(const MatrixM1 &b) const { return dot(b); }
	Vector operator*(Type b) const { return Vector(MatrixM1::operator*(b)); }
	Type norm() const { return std::sqrt(dot(*this)); }
	Type norm_squared() const { return dot(*this); }
	Type length() const { return norm(); }
	void normalize() { (*this) /= norm(); }
	Vector unit() const { return (*this) / norm(); }
	Vector unit_or_zero(const Type eps = Type(1e-5)) const
	{
		const Type n = norm();

		if (n > eps) { return (*this) / n; }

		return Vector();
	}
	Vector normalized() const { return unit(); }
	bool longerThan(Type testVal) const { return norm_squared() > testVal * testVal; }
	Vector sqrt() const
	{
		Vector r;

		for (size_t i = 0; i < M; i++) { r(i) = std::sqrt((*this)(i)); }

		return r;
	}
	Vector pow(Type v) const
	{
		Vector r;

		for (size_t i = 0; i < M; i++) { r(i) = std::pow((*this)(i), v); }

		return r;
	}
	void print() const { this->transpose().print(); }
};

template <typename Type>
class Vector2 : public Vector<Type, 2>
{
public:
	using Matrix21 = Matrix<Type, 2, 1>;
	using Vector3 = Vector<Type, 3>;
	Vector2() = default;
	Vector2(const Matrix21 &other) : Vector<Type, 2>(other) {}
	explicit Vector2(const Type data_[2]) : Vector<Type, 2>(data_) {}
	Vector2(Type x, Type y) { (*this)(0) = x; (*this)(1) = y; }
	template <size_t P, size_t Q> Vector2(const Slice<Type, 2, 1, P, Q> &s) : Vector<Type, 2>(s) {}
	template <size_t P, size_t Q> Vector2(const Slice<Type, 1, 2, P, Q> &s) : Vector<Type, 2>(s) {}
	explicit Vector2(const Vector3 &other) { (*this)(0) = other(0); (*this)(1) = other(1); }
	Type cross(const Matrix21 &b) const { return (*this)(0) * b(1, 0) - (*this)(1) * b(0, 0); }
	Type operator%(const Matrix21 &b) const { return cross(b); }
};

template <typename Type>
class Vector3 : public Vector<Type, 3>
{
public:
	using Matrix31 = Matrix<Type, 3, 1>;
	Vector3() = default;
	Vector3(const Matrix31 &other) : Vector<Type, 3>(other) {}
	explicit Vector3(const Type data_[3]) : Vector<Type, 3>(data_) {}
	Vector3(Type x, Type y, Type z) { (*this)(0) = x; (*this)(1) = y; (*this)(2) = z; }
	template <size_t P, size_t Q> Vector3(const Slice<Type, 3, 1, P, Q> &s) : Vector<Type, 3>(s) {}
	template <size_t P, size_t Q> Vector3(const Slice<Type, 1, 3, P, Q> &s) : Vector<Type, 3>(s) {}

	Vector3 cross(const Matrix31 &b) const
	{
		const Vector3 &a = *this;
		return {a(1) *b(2, 0) - a(2) *b(1, 0), -a(0) *b(2, 0) + a(2) *b(0, 0), a(0) *b(1, 0) - a(1) *b(0, 0)};
	}
	Vector3 operator+(Vector3 other) const { return Matrix31::operator+(other); }
	Vector3 operator+(Type s) const { return Matrix31::operator+(s); }
	Vector3 operator-(Vector3 other) const { return Matrix31::operator-(other); }
	Vector3 operator-(Type s) const { return Matrix31::operator-(s); }
	Vector3 operator-() const { return Matrix31::operator-(); }
	Vector3 operator*(Type s) const { return Matrix31::operator*(s); }
	Type operator*(Vector3 b) const { return Vector<Type, 3>::operator*(b); }
	Vector3 operator%(const Matrix31 &b) const { return cross(b); }
	Vector3 unit() const { return Vector3(Vector<Type, 3>::unit()); }
	Vector3 normalized() const { return unit(); }
	const Slice<Type, 2, 1, 3, 1> xy() const { return {0, 0, this}; }
	Slice<Type, 2, 1, 3, 1> xy() { return {0, 0, this}; }
	Dcm<Type> hat() const;
};

// ---------------------------------------------------------------- Scalar
template <typename Type>
class Scalar
{
public:
	Scalar() = delete;
	Scalar(const Matrix<Type, 1, 1> &other) : _value(other(0, 0)) {}
	Scalar(Type other) : _value(other) {}
	operator Type &() { return _value; }
	operator Type const &() const { return _value; }
	operator Matrix<Type, 1, 1>() const { Matrix<Type, 1, 1> m; m(0, 0) = _value; return m; }
	operator Vector<Type, 1>() const { Vector<Type, 1> m; m(0) = _value; return m; }
private:
	Type _value;
};
using Scalarf = Scalar<float>;

// ---------------------------------------------------------------- SquareMatrix
template <typename Type, size_t M>
class SquareMatrix : public Matrix<Type, M, M>
{
public:
	SquareMatrix() = default;
	explicit SquareMatrix(const Type data_[M][M]) : Matrix<Type, M, M>(data_) {}
	explicit SquareMatrix(const Type data_[M * M]) : Matrix<Type, M, M>(data_) {}
	SquareMatrix(const Matrix<Type, M, M> &other) : Matrix<Type, M, M>(other) {}
	template <size_t P, size_t Q> SquareMatrix(const Slice<Type, M, M, P, Q> &s) : Matrix<Type, M, M>(s) {}
	SquareMatrix &operator=(const Matrix<Type, M, M> &other) { Matrix<Type, M, M>::operator=(other); return *this; }
	template <size_t P, size_t Q> SquareMatrix &operator=(const Slice<Type, M, M, P, Q> &s) { Matrix<Type, M, M>::operator=(Matrix<Type, M, M>(s)); return *this; }

	bool I(SquareMatrix &i) const;
	SquareMatrix I() const
	{
		SquareMatrix i;

		if (!I(i)) { i.setZero(); }

		return i;
	}
	Vector<Type, M> diag() const
	{
		Vector<Type, M> res;

		for (size_t i = 0; i < M; i++) { res(i) = (*this)(i, i); }

		return res;
	}
	Vector < Type, M * (M + 1) / 2 > upper_right_triangle() const
	{
		Vector < Type, M *(M + 1) / 2 > res;
		size_t idx = 0;

		for (size_t x = 0; x < M; x++) { for (size_t y = x; y < M; y++) { res(idx++) = (*this)(x, y); } }

		return res;
	}
	Type trace() const
	{
		Type res = 0;

		for (size_t i = 0; i < M; i++) { res += (*this)(i, i); }

		return res;
	}
	template <size_t Width> Type trace(size_t first) const
	{
		static_assert(Width <= M, "Width bigger than matrix");
		assert(first + Width <= M);
		Type res = 0;

		for (size_t i = 0; i < Width; i++) { res += (*this)(i + first, i + first); }

		return res;
	}
	// zero all offdiagonal elements and keep corresponding diagonal elements
	template <size_t Width> void uncorrelateCovariance(size_t first)
	{
		static_assert(Width <= M, "Width bigger than matrix");
		assert(first + Width <= M);
		Vector<Type, Width> d = this->template slice<Width, Width>(first, first).diag();
		uncorrelateCovarianceSetVariance<Width>(first, d);
	}
	template <size_t Width> void uncorrelateCovarianceSetVariance(size_t first, const Vector<Type, Width> &vec)
	{
		static_assert(Width <= M, "Width bigger than matrix");
		assert(first + Width <= M);
		this->template slice<Width, M>(first, 0) = Type(0);
		this->template slice<M, Width>(0, first) = Type(0);

		for (size_t i = 0; i < Width; i++) { (*this)(first + i, first + i) = vec(i); }
	}
	template <size_t Width> void uncorrelateCovarianceSetVariance(size_t first, Type val)
	{
		static_assert(Width <= M, "Width bigger than matrix");
		assert(first + Width <= M);
		this->template slice<Width, M>(first, 0) = Type(0);
		this->template slice<M, Width>(0, first) = Type(0);

		for (size_t i = 0; i < Width; i++) { (*this)(first + i, first + i) = val; }
	}
	template <size_t Width> void makeBlockSymmetric(size_t first)
	{
		static_assert(Width <= M, "Width bigger than matrix");
		assert(first + Width <= M);

		for (size_t r = first + 1; r < first + Width; r++) { for (size_t c = first; c < r; c++) { average(r, c); } }
	}
	template <size_t Width> void makeRowColSymmetric(size_t first)
	{
		static_assert(Width <= M, "Width bigger than matrix");
		assert(first + Width <= M);
		makeBlockSymmetric<Width>(first);

		for (size_t r = first; r < first + Width; r++) {
			for (size_t c = 0; c < first; c++) { average(r, c); }

			for (size_t c = first + Width; c < M; c++) { average(r, c); }
		}
	}
	template <size_t Width> bool isBlockSymmetric(size_t first, const Type eps = Type(1e-8f))
	{
		static_assert(Width <= M, "Width bigger than matrix");
		assert(first + Width <= M);

		for (size_t r = first + 1; r < first + Width; r++) {
			for (size_t c = first; c < r; c++) { if (!isEqualF((*this)(r, c), (*this)(c, r), eps)) { return false; } }
		}

		return true;
	}
	template <size_t Width> bool isRowColSymmetric(size_t first, const Type eps = Type(1e-8f))
	{
		for (size_t r = first; r < first + Width; r++) {
			for (size_t c = 0; c < M; c++) { if (!isEqualF((*this)(r, c), (*this)(c, r), eps)) { return false; } }
		}

		return true;
	}

private:
	void average(size_t r, size_t c)
	{
		const Type tmp = ((*this)(r, c) + (*this)(c, r)) / Type(2);
		(*this)(r, c) = tmp;
		(*this)(c, r) = tmp;
	}
};

template <typename Type, size_t M> SquareMatrix<Type, M> eye() { SquareMatrix<Type, M> m; m.setIdentity(); return m; }
template <typename Type, size_t M> SquareMatrix<Type, M> diag(Vector<Type, M> d)
{
	SquareMatrix<Type, M> m;

	for (size_t i = 0; i < M; i++) { m(i, i) = d(i); }

	return m;
}
template <typename Type, size_t M> SquareMatrix<Type, M> expm(const Matrix<Type, M, M> &A, size_t order = 5)
{
	SquareMatrix<Type, M> res;
	SquareMatrix<Type, M> A_pow = A;
	res.setIdentity();
	size_t i_factorial = 1;

	for (size_t i = 1; i <= order; i++) {
		i_factorial *= i;
		res += A_pow / Type(i_factorial);
		A_pow *= A_pow;
	}

	return res;
}

// LU decomposition based inverse with row pivoting
template <typename Type, size_t M>
bool inv(const SquareMatrix<Type, M> &A, SquareMatrix<Type, M> &invA, size_t rank = M)
{
	SquareMatrix<Type, M> L;
	L.setIdentity();
	SquareMatrix<Type, M> U = A;
	SquareMatrix<Type, M> P;
	P.setIdentity();

	for (size_t n = 0; n < rank; n++) {
		if (std::fabs(U(n, n)) < Type(1.1920929e-7f)) {
			for (size_t i = n + 1; i < rank; i++) {
				if (std::fabs(U(i, n)) > Type(1e-8f)) {
					U.swapRows(i, n);
					P.swapRows(i, n);
					L.swapRows(i, n);
					L.swapCols(i, n);
					break;
				}
			}
		}

		if (std::fabs(U(n, n)) < Type(1e-8f) || !std::isfinite(U(n, n))) { return false; }

		for (size_t i = (n + 1); i < rank; i++) {
			L(i, n) = U(i, n) / U(n, n);

			for (size_t k = n; k < rank; k++) { U(i, k) -= L(i, n) * U(n, k); }
		}
	}

	for (size_t c = 0; c < rank; c++) {
		for (size_t i = 0; i < rank; i++) { for (size_t j = 0; j < i; j++) { P(i, c) -= L(i, j) * P(j, c); } }
	}

	for (size_t c = 0; c < rank; c++) {
		for (size_t k = 0; k < rank; k++) {
			const size_t i = rank - 1 - k;

			for (size_t j = i + 1; j < rank; j++) { P(i, c) -= U(i, j) * P(j, c); }

			P(i, c) /= U(i, i);
		}
	}

	for (size_t i = 0; i < rank; i++) { for (size_t j = 0; j < rank; j++) { if (!std::isfinite(P(i, j))) { return false; } } }

	invA = P;
	return true;
}
template <typename Type> bool inv(const SquareMatrix<Type, 2> &A, SquareMatrix<Type, 2> &invA)
{
	const Type det = A(0, 0) * A(1, 1) - A(1, 0) * A(0, 1);

	if (std::fabs(det) < Type(1.1920929e-7f) || !std::isfinite(det)) { return false; }

	invA(0, 0) = A(1, 1);
	invA(0, 1) = -A(0, 1);
	invA(1, 0) = -A(1, 0);
	invA(1, 1) = A(0, 0);
	invA /= det;
	return true;
}
template <typename Type, size_t M> bool SquareMatrix<Type, M>::I(SquareMatrix &i) const { return inv(*this, i); }
template <typename Type, size_t M> SquareMatrix<Type, M> inv(const SquareMatrix<Type, M> &A)
{
	SquareMatrix<Type, M> i;

	if (!inv(A, i)) { i.setZero(); }

	return i;
}
template <typename Type, size_t M> SquareMatrix<Type, M> cholesky(const SquareMatrix<Type, M> &A)
{
	SquareMatrix<Type, M> L;

	for (size_t j = 0; j < M; j++) {
		for (size_t i = j; i < M; i++) {
			Type sum = 0;

			for (size_t k = 0; k < j; k++) { sum += L(i, k) * L(j, k); }

			if (i == j) {
				const Type res = A(j, j) - sum;
				L(j, j) = res <= 0 ? Type(0) : std::sqrt(res);

			} else {
				L(i, j) = L(j, j) <= 0 ? Type(0) : (A(i, j) - sum) / L(j, j);
			}
		}
	}

	return L;
}
template <typename Type, size_t M> SquareMatrix<Type, M> choleskyInv(const SquareMatrix<Type, M> &A)
{
	SquareMatrix<Type, M> L_inv = inv(cholesky(A));
	return L_inv.T() * L_inv;
}

using Matrix3f = SquareMatrix<float, 3>;
using Matrix3d = SquareMatrix<double, 3>;
using SquareMatrix3f = SquareMatrix<float, 3>;

// ---------------------------------------------------------------- attitude representations
template <typename Type>
class Dcm : public SquareMatrix<Type, 3>
{
public:
	Dcm() : SquareMatrix<Type, 3>(eye<Type, 3>()) {}
	explicit Dcm(const Type data_[3][3]) : SquareMatrix<Type, 3>(data_) {}
	explicit Dcm(const Type data_[9]) : SquareMatrix<Type, 3>(data_) {}
	Dcm(const Matrix<Type, 3, 3> &other) : SquareMatrix<Type, 3>(other) {}
	Dcm(const Quaternion<Type> &q)
	{
		Dcm &dcm = *this;
		const Type a = q(0), b = q(1), c = q(2), d = q(3);
		const Type aa = a * a, ab = a * b, ac = a * c, ad = a * d;
		const Type bb = b * b, bc = b * c, bd = b * d;
		const Type cc = c * c, cd = c * d;
		const Type dd = d * d;
		dcm(0, 0) = aa + bb - cc - dd;
		dcm(0, 1) = Type(2) * (bc - ad);
		dcm(0, 2) = Type(2) * (ac + bd);
		dcm(1, 0) = Type(2) * (bc + ad);
		dcm(1, 1) = aa - bb + cc - dd;
		dcm(1, 2) = Type(2) * (cd - ab);
		dcm(2, 0) = Type(2) * (bd - ac);
		dcm(2, 1) = Type(2) * (ab + cd);
		dcm(2, 2) = aa - bb - cc + dd;
	}
	Dcm(const Euler<Type> &euler)
	{
		Dcm &dcm = *this;
		const Type cosPhi = Type(std::cos(euler.phi())), sinPhi = Type(std::sin(euler.phi()));
		const Type cosThe = Type(std::cos(euler.theta())), sinThe = Type(std::sin(euler.theta()));
		const Type cosPsi = Type(std::cos(euler.psi())), sinPsi = Type(std::sin(euler.psi()));
		dcm(0, 0) = cosThe * cosPsi;
		dcm(0, 1) = -cosPhi * sinPsi + sinPhi * sinThe * cosPsi;
		dcm(0, 2) = sinPhi * sinPsi + cosPhi * sinThe * cosPsi;
		dcm(1, 0) = cosThe * sinPsi;
		dcm(1, 1) = cosPhi * cosPsi + sinPhi * sinThe * sinPsi;
		dcm(1, 2) = -sinPhi * cosPsi + cosPhi * sinThe * sinPsi;
		dcm(2, 0) = -sinThe;
		dcm(2, 1) = sinPhi * cosThe;
		dcm(2, 2) = cosPhi * cosThe;
	}
	Dcm(const AxisAngle<Type> &aa) { *this = Dcm(Quaternion<Type>(aa)); }
	Vector3<Type> vee() const { const Dcm &A = *this; return Vector3<Type>(-A(1, 2), A(0, 2), -A(0, 1)); }
	void renormalize()
	{
		for (size_t r = 0; r < 3; r++) {
			Vector3<Type> rvec(Matrix<Type, 1, 3>(this->row(r)).transpose());
			this->setRow(r, rvec.normalized());
		}
	}
};

template <typename Type> Dcm<Type> Vector3<Type>::hat() const
{
	const Vector3 &v = *this;
	Dcm<Type> A;
	A(0, 0) = 0;
	A(0, 1) = -v(2);
	A(0, 2) = v(1);
	A(1, 0) = v(2);
	A(1, 1) = 0;
	A(1, 2) = -v(0);
	A(2, 0) = -v(1);
	A(2, 1) = v(0);
	A(2, 2) = 0;
	return A;
}

template <typename Type>
class Euler : public Vector<Type, 3>
{
public:
	Euler() = default;
	Euler(const Vector<Type, 3> &other) : Vector<Type, 3>(other) {}
	Euler(const Matrix<Type, 3, 1> &other) : Vector<Type, 3>(other) {}
	Euler(Type phi_, Type theta_, Type psi_) { phi() = phi_; theta() = theta_; psi() = psi_; }
	Euler(const Dcm<Type> &dcm)
	{
		theta() = std::asin(-dcm(2, 0));

		if ((std::fabs(theta() - Type(M_PI / 2))) < Type(1.0e-3)) {
			phi() = 0;
			psi() = std::atan2(dcm(1, 2), dcm(0, 2));

		} else if ((std::fabs(theta() + Type(M_PI / 2))) < Type(1.0e-3)) {
			phi() = 0;
			psi() = std::atan2(-dcm(1, 2), -dcm(0, 2));

		} else {
			phi() = std::atan2(dcm(2, 1), dcm(2, 2));
			psi() = std::atan2(dcm(1, 0), dcm(0, 0));
		}
	}
	Euler(const Quaternion<Type> &q) : Vector<Type, 3>(Euler(Dcm<Type>(q))) {}
	Type phi() const { return (*this)(0); }
	Type theta() const { return (*this)(1); }
	Type psi() const { return (*this)(2); }
	Type &phi() { return (*this)(0); }
	Type &theta() { return (*this)(1); }
	Type &psi() { return (*this)(2); }
};

template <typename Type>
class Quaternion : public Vector<Type, 4>
{
public:
	using Matrix41 = Matrix<Type, 4, 1>;
	using Matrix31 = Matrix<Type, 3, 1>;
	explicit Quaternion(const Type data_[4]) : Vector<Type, 4>(data_) {}
	Quaternion() { (*this)(0) = 1; (*this)(1) = 0; (*this)(2) = 0; (*this)(3) = 0; }
	Quaternion(const Matrix41 &other) : Vector<Type, 4>(other) {}
	Quaternion(const Dcm<Type> &R)
	{
		Quaternion &q = *this;
		Type t = R.trace();

		if (t > Type(0)) {
			t = std::sqrt(Type(1) + t);
			q(0) = Type(0.5) * t;
			t = Type(0.5) / t;
			q(1) = (R(2, 1) - R(1, 2)) * t;
			q(2) = (R(0, 2) - R(2, 0)) * t;
			q(3) = (R(1, 0) - R(0, 1)) * t;

		} else if (R(0, 0) > R(1, 1) && R(0, 0) > R(2, 2)) {
			t = std::sqrt(Type(1) + R(0, 0) - R(1, 1) - R(2, 2));
			q(1) = Type(0.5) * t;
			t = Type(0.5) / t;
			q(0) = (R(2, 1) - R(1, 2)) * t;
			q(2) = (R(1, 0) + R(0, 1)) * t;
			q(3) = (R(0, 2) + R(2, 0)) * t;

		} else if (R(1, 1) > R(2, 2)) {
			t = std::sqrt(Type(1) - R(0, 0) + R(1, 1) - R(2, 2));
			q(2) = Type(0.5) * t;
			t = Type(0.5) / t;
			q(0) = (R(0, 2) - R(2, 0)) * t;
			q(1) = (R(1, 0) + R(0, 1)) * t;
			q(3) = (R(2, 1) + R(1, 2)) * t;

		} else {
			t = std::sqrt(Type(1) - R(0, 0) - R(1, 1) + R(2, 2));
			q(3) = Type(0.5) * t;
			t = Type(0.5) / t;
			q(0) = (R(1, 0) - R(0, 1)) * t;
			q(1) = (R(0, 2) + R(2, 0)) * t;
			q(2) = (R(2, 1) + R(1, 2)) * t;
		}
	}
	Quaternion(const Euler<Type> &euler)
	{
		Quaternion &q = *this;
		const Type cosPhi_2 = Type(std::cos(euler.phi() / Type(2))), sinPhi_2 = Type(std::sin(euler.phi() / Type(2)));
		const Type cosTheta_2 = Type(std::cos(euler.theta() / Type(2))), sinTheta_2 = Type(std::sin(euler.theta() / Type(2)));
		const Type cosPsi_2 = Type(std::cos(euler.psi() / Type(2))), sinPsi_2 = Type(std::sin(euler.psi() / Type(2)));
		q(0) = cosPhi_2 * cosTheta_2 * cosPsi_2 + sinPhi_2 * sinTheta_2 * sinPsi_2;
		q(1) = sinPhi_2 * cosTheta_2 * cosPsi_2 - cosPhi_2 * sinTheta_2 * sinPsi_2;
		q(2) = cosPhi_2 * sinTheta_2 * cosPsi_2 + sinPhi_2 * cosTheta_2 * sinPsi_2;
		q(3) = cosPhi_2 * cosTheta_2 * sinPsi_2 - sinPhi_2 * sinTheta_2 * cosPsi_2;
	}
	Quaternion(const AxisAngle<Type> &aa)
	{
		Quaternion &q = *this;
		const Type angle = aa.norm();

		if (angle < Type(1e-10f)) {
			q(0) = Type(1);
			q(1) = q(2) = q(3) = 0;

		} else {
			const Vector<Type, 3> axis = aa.unit();
			const Type magnitude = std::sin(angle / Type(2));
			q(0) = std::cos(angle / Type(2));
			q(1) = axis(0) * magnitude;
			q(2) = axis(1) * magnitude;
			q(3) = axis(2) * magnitude;
		}
	}
	Quaternion(Type a, Type b, Type c, Type d) { (*this)(0) = a; (*this)(1) = b; (*this)(2) = c; (*this)(3) = d; }
	Quaternion(const Vector3<Type> &src, const Vector3<Type> &dst, const Type eps = Type(1e-5))
	{
		Quaternion &q = *this;
		Vector3<Type> cr = src.cross(dst);
		const Type dt = src.dot(dst);

		if (cr.norm() < eps && dt < 0) {
			cr = src.abs();

			if (cr(0) < cr(1)) {
				cr = (cr(0) < cr(2)) ? Vector3<Type>(1, 0, 0) : Vector3<Type>(0, 0, 1);

			} else {
				cr = (cr(1) < cr(2)) ? Vector3<Type>(0, 1, 0) : Vector3<Type>(0, 0, 1);
			}

			q(0) = Type(0);
			cr = src.cross(cr);

		} else {
			q(0) = dt + std::sqrt(src.norm_squared() * dst.norm_squared());
		}

		q(1) = cr(0);
		q(2) = cr(1);
		q(3) = cr(2);
		q.normalize();
	}

	Quaternion operator*(const Quaternion &p) const
	{
		const Quaternion &q = *this;
		return {
			q(0) *p(0) - q(1) *p(1) - q(2) *p(2) - q(3) *p(3),
			q(0) *p(1) + q(1) *p(0) + q(2) *p(3) - q(3) *p(2),
			q(0) *p(2) - q(1) *p(3) + q(2) *p(0) + q(3) *p(1),
			q(0) *p(3) + q(1) *p(2) - q(2) *p(1) + q(3) *p(0)
		};
	}
	void operator*=(const Quaternion &other) { *this = *this * other; }
	Quaternion operator*(Type scalar) const { return scalar * *this; }
	void operator*=(Type scalar) { *this = *this * scalar; }
	Quaternion operator-() const { return Quaternion(Matrix41::operator-()); }

	Matrix41 derivative1(const Matrix31 &w) const { Quaternion v(0, w(0, 0), w(1, 0), w(2, 0)); return (*this) * v * Type(0.5); }
	Matrix41 derivative2(const Matrix31 &w) const { Quaternion v(0, w(0, 0), w(1, 0), w(2, 0)); return v * (*this) * Type(0.5); }
	static Quaternion expq(const Vector3<Type> &u)
	{
		const Type norm = u.norm();

		if (norm < Type(0.2)) { // Taylor series
			const Type n2 = norm * norm;
			const Type c = Type(1) - n2 / 2 + n2 * n2 / 24;
			const Vector3<Type> s = u * (Type(1) - n2 / 6 + n2 * n2 / 120);
			return {c, s(0), s(1), s(2)};
		}

		const Vector3<Type> v = u * (std::sin(norm) / norm);
		return {std::cos(norm), v(0), v(1), v(2)};
	}
	void invert() { *this = this->inversed(); }
	Quaternion inversed() const
	{
		const Quaternion &q = *this;
		const Type normSq = q.dot(q);
		return {q(0) / normSq, -q(1) / normSq, -q(2) / normSq, -q(3) / normSq};
	}
	Quaternion inverse() const { return inversed(); }
	Quaternion normalized() const { return Quaternion(this->unit()); }
	void canonicalize() { *this = canonical(); }
	Quaternion canonical() const
	{
		const Quaternion &q = *this;

		for (size_t i = 0; i < 4; i++) {
			if (std::fabs(q(i)) > Type(1.1920929e-7f)) {
				return q * Type(signNoZero(q(i)));
			}
		}

		return q;
	}
	void rotate(const AxisAngle<Type> &vec) { Quaternion res(vec); (*this) = res * (*this); }
	Vector3<Type> conjugate(const Vector3<Type> &vec) const
	{
		const Quaternion &q = *this;
		const Quaternion v(Type(0), vec(0), vec(1), vec(2));
		const Quaternion res = q * v * q.inversed();
		return {res(1), res(2), res(3)};
	}
	Vector3<Type> conjugate_inversed(const Vector3<Type> &vec) const
	{
		const Quaternion &q = *this;
		const Quaternion v(Type(0), vec(0), vec(1), vec(2));
		const Quaternion res = q.inversed() * v * q;
		return {res(1), res(2), res(3)};
	}
	Vector3<Type> rotateVector(const Vector3<Type> &vec) const { return conjugate(vec); }
	Vector3<Type> rotateVectorInverse(const Vector3<Type> &vec) const { return conjugate_inversed(vec); }
	Vector3<Type> imag() const { const Quaternion &q = *this; return {q(1), q(2), q(3)}; }
	Vector3<Type> dcm_z() const
	{
		const Quaternion &q = *this;
		const Type a = q(0), b = q(1), c = q(2), d = q(3);
		return {2 *(a * c + b * d), 2 *(c * d - a * b), a *a - b *b - c *c + d *d};
	}
};

template <typename Type> Quaternion<Type> operator*(Type scalar, const Quaternion<Type> &q)
{
	return Quaternion<Type>(static_cast<const Matrix<Type, 4, 1>&>(q) * scalar);
}

template <typename Type>
class AxisAngle : public Vector<Type, 3>
{
public:
	using Matrix31 = Matrix<Type, 3, 1>;
	AxisAngle() = default;
	explicit AxisAngle(const Type data_[3]) : Vector<Type, 3>(data_) {}
	AxisAngle(const Matrix31 &other) : Vector<Type, 3>(other) {}
	AxisAngle(const Quaternion<Type> &q)
	{
		AxisAngle &v = *this;
		const Type mag = q.imag().norm();

		if (std::fabs(mag) >= Type(1e-10f)) {
			v = q.imag() * Type(Type(2) * std::atan2(mag, q(0)) / mag);

		} else {
			v = q.imag() * Type(Type(2) * Type(signNoZero(q(0))));
		}
	}
	AxisAngle(const Dcm<Type> &dcm) : AxisAngle(Quaternion<Type>(dcm)) {}
	AxisAngle(const Euler<Type> &euler) : AxisAngle(Quaternion<Type>(euler)) {}
	AxisAngle(Type x, Type y, Type z) { (*this)(0) = x; (*this)(1) = y; (*this)(2) = z; }
	AxisAngle(const Matrix31 &axis_, Type angle_) { *this = AxisAngle(axis_ * angle_); }
	Vector<Type, 3> axis() const { return this->norm() > 0 ? Vector<Type, 3>(this->unit()) : Vector<Type, 3>(Vector3<Type>(1, 0, 0)); }
	Type angle() const { return this->norm(); }
};

using Vector2f = Vector2<float>;
using Vector2d = Vector2<double>;
using Vector3f = Vector3<float>;
using Vector3d = Vector3<double>;
using Vector4f = Vector<float, 4>;
using Dcmf = Dcm<float>;
using Dcmd = Dcm<double>;
using Eulerf = Euler<float>;
using Eulerd = Euler<double>;
using Quatf = Quaternion<float>;
using Quaternionf = Quaternion<float>;
using Quatd = Quaternion<double>;
using Quaterniond = Quaternion<double>;
using AxisAnglef = AxisAngle<float>;
using AxisAngled = AxisAngle<double>;
using SquareMatrix2f = SquareMatrix<float, 2>;

// ---------------------------------------------------------------- SparseVector
namespace sparse_detail
{
template <size_t... I> struct Indices {};
template <size_t N> constexpr bool contains(size_t) { return false; }
}

template <typename Type, size_t M, size_t... Idxs>
class SparseVector
{
	static constexpr size_t N = sizeof...(Idxs);
	static constexpr size_t _indices[N] {Idxs...};
	static constexpr bool duplicateIndices()
	{
		for (size_t i = 0; i < N; i++) { for (size_t j = 0; j < i; j++) { if (_indices[i] == _indices[j]) { return true; } } }

		return false;
	}
	static constexpr size_t findMaxIndex()
	{
		size_t maxIndex = 0;

		for (size_t i = 0; i < N; i++) { if (maxIndex < _indices[i]) { maxIndex = _indices[i]; } }

		return maxIndex;
	}
	static constexpr int findCompressedIndex(size_t index)
	{
		int compressedIndex = -1;

		for (size_t i = 0; i < N; i++) { if (index == _indices[i]) { compressedIndex = static_cast<int>(i); } }

		return compressedIndex;
	}
	Type _data[N] {};

public:
	static constexpr size_t non_zeros() { return N; }
	static constexpr size_t index(size_t i) { return SparseVector::_indices[i]; }
	SparseVector() = default;
	SparseVector(const Matrix<Type, M, 1> &data) { for (size_t i = 0; i < N; i++) { _data[i] = data(_indices[i], 0); } }
	explicit SparseVector(const Type data[N]) { memcpy(_data, data, sizeof(_data)); }

	template <size_t i> inline Type at() const
	{
		static constexpr int compressed_index = findCompressedIndex(i);
		static_assert(compressed_index >= 0, "cannot access unpopulated indices");
		return _data[compressed_index];
	}
	template <size_t i> inline Type &at()
	{
		static constexpr int compressed_index = findCompressedIndex(i);
		static_assert(compressed_index >= 0, "cannot access unpopulated indices");
		return _data[compressed_index];
	}
	inline Type atCompressedIndex(size_t i) const { assert(i < N); return _data[i]; }
	inline Type &atCompressedIndex(size_t i) { assert(i < N); return _data[i]; }
	void setZero() { for (size_t i = 0; i < N; i++) { _data[i] = Type(0); } }
	Type dot(const Matrix<Type, M, 1> &other) const
	{
		Type accum(0);

		for (size_t i = 0; i < N; i++) { accum += _data[i] * other(_indices[i], 0); }

		return accum;
	}
	SparseVector operator+(Type value) const
	{
		SparseVector r;

		for (size_t i = 0; i < N; i++) { r._data[i] = _data[i] + value; }

		return r;
	}
	SparseVector operator*(Type value) const
	{
		SparseVector r;

		for (size_t i = 0; i < N; i++) { r._data[i] = _data[i] * value; }

		return r;
	}
	Type norm_squared() const
	{
		Type accum(0);

		for (size_t i = 0; i < N; i++) { accum += _data[i] * _data[i]; }

		return accum;
	}
	Type norm() const { return std::sqrt(norm_squared()); }
	bool longerThan(Type testVal) const { return norm_squared() > testVal * testVal; }
};
template <typename Type, size_t M, size_t... Idxs> constexpr size_t SparseVector<Type, M, Idxs...>::_indices[];

template <typename Type, size_t Q, size_t M, size_t... Idxs>
Matrix<Type, Q, 1> operator*(const Matrix<Type, Q, M> &mat, const SparseVector<Type, M, Idxs...> &vec)
{
	Matrix<Type, Q, 1> res;

	for (size_t i = 0; i < Q; i++) {
		const Vector<Type, M> row = mat.row(i);
		res(i, 0) = vec.dot(row);
	}

	return res;
}
template <typename Type, size_t M, size_t... Idxs>
Type quadraticForm(const SquareMatrix<Type, M> &A, const SparseVector<Type, M, Idxs...> &x)
{
	Type res = Type(0);

	for (size_t i = 0; i < x.non_zeros(); i++) {
		Type tmp = Type(0);

		for (size_t j = 0; j < x.non_zeros(); j++) { tmp += A(x.index(i), x.index(j)) * x.atCompressedIndex(j); }

		res += x.atCompressedIndex(i) * tmp;
	}

	return res;
}
template <size_t M, size_t... Idxs> using SparseVectorf = SparseVector<float, M, Idxs...>;

} // namespace matrix
