// Small double-precision rotation algebra used by the oracles (Hamilton quaternions, body-to-earth).
#pragma once
#include <cmath>
struct D3 { double x, y, z; double &operator[](int i) { return (&x)[i]; } double operator[](int i) const { return (&x)[i]; } };
static inline D3 operator+(D3 a, D3 b) { return {a.x + b.x, a.y + b.y, a.z + b.z}; }
static inline D3 operator-(D3 a, D3 b) { return {a.x - b.x, a.y - b.y, a.z - b.z}; }
static inline D3 operator-(D3 a) { return {-a.x, -a.y, -a.z}; }
static inline D3 operator*(double s, D3 a) { return {s * a.x, s * a.y, s * a.z}; }
static inline D3 operator*(D3 a, double s) { return {s * a.x, s * a.y, s * a.z}; }
static inline double dot(D3 a, D3 b) { return a.x * b.x + a.y * b.y + a.z * b.z; }
static inline D3 cross(D3 a, D3 b) { return {a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x}; }
static inline double norm(D3 a) { return std::sqrt(dot(a, a)); }
struct Q4 { double w, x, y, z; double &operator[](int i) { return (&w)[i]; } double operator[](int i) const { return (&w)[i]; } };
static inline Q4 qmul(Q4 a, Q4 b)
{
	return {a.w * b.w - a.x * b.x - a.y * b.y - a.z * b.z, a.w * b.x + a.x * b.w + a.y * b.z - a.z * b.y,
		a.w * b.y - a.x * b.z + a.y * b.w + a.z * b.x, a.w * b.z + a.x * b.y - a.y * b.x + a.z * b.w};
}
static inline Q4 qconj(Q4 a) { return {a.w, -a.x, -a.y, -a.z}; }
static inline double qnorm(Q4 a) { return std::sqrt(a.w * a.w + a.x * a.x + a.y * a.y + a.z * a.z); }
static inline Q4 qnormalize(Q4 a) { const double n = qnorm(a); return {a.w / n, a.x / n, a.y / n, a.z / n}; }
static inline Q4 qfromrotvec(D3 r) { const double a = norm(r), k = a < 1e-9 ? 0.5 : std::sin(a / 2) / a; return {std::cos(a / 2), k * r.x, k * r.y, k * r.z}; }
static inline D3 rotvec(Q4 q)
{
	if (q.w < 0) { q = {-q.w, -q.x, -q.y, -q.z}; }
	const double s = std::sqrt(q.x * q.x + q.y * q.y + q.z * q.z), k = s < 1e-12 ? 2.0 : 2 * std::atan2(s, q.w) / s;
	return {k * q.x, k * q.y, k * q.z};
}
// rotate body vector to earth / earth vector to body
static inline D3 qrot(Q4 q, D3 v) { const D3 u{q.x, q.y, q.z}; const D3 t = 2.0 * cross(u, v); return v + q.w * t + cross(u, t); }
static inline D3 qrotInv(Q4 q, D3 v) { return qrot(qconj(q), v); }
static inline Q4 qeuler(double roll, double pitch, double yaw)
{
	return qmul(qmul(qfromrotvec({0, 0, yaw}), qfromrotvec({0, pitch, 0})), qfromrotvec({roll, 0, 0}));
}
static inline double wrapd(double a) { return std::remainder(a, 2 * M_PI); }
// 3-2-1 yaw: direction of the projected body x axis; 3-1-2 yaw: from the projected body y axis
static inline double yaw321(Q4 q) { const D3 v = qrot(q, {1, 0, 0}); return std::atan2(v.y, v.x); }
static inline double yaw312(Q4 q) { const D3 v = qrot(q, {0, 1, 0}); return std::atan2(-v.x, v.y); }
