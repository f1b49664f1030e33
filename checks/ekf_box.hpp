// White-box access to one estimator object: put it in an arbitrary state with an arbitrary covariance, run one fusion or
// prediction step, and compare the result with a double-precision Kalman filter whose Jacobians come from central differences
// of the measurement model.  Rounding bounds are carried along explicitly.
#pragma once
#include "pbt.hpp"
#include "dmath.hpp"
#include <memory>
#include <functional>
#include <string>
#include <sstream>
#include <algorithm>
#include <cstdint>
#include <matrix/math.hpp>
#define private public
#define protected public
#include <EKF/ekf.h>
#undef private
#undef protected

static const int NX = 24;
static const double EPSF = 6.0e-8; // one float rounding
typedef std::function<double(const double *)> Model;

static inline double finStep(int i) { return i < 4 ? 1e-5 : i < 7 ? 1e-4 : i < 10 ? 1e-3 : i < 16 ? 1e-6 : i < 22 ? 1e-5 : 1e-4; }
// Jacobian by fourth-order central differences (truncation and rounding error below 1e-9 relative for the models used here)
static inline void jacobian(const Model &h, const double *x, double *H)
{
	double y[NX]; for (int i = 0; i < NX; i++) { y[i] = x[i]; }
	for (int i = 0; i < NX; i++) {
		const double d = finStep(i) * 10, x0 = x[i];
		y[i] = x0 + d; const double p1 = h(y); y[i] = x0 - d; const double m1 = h(y);
		y[i] = x0 + 2 * d; const double p2 = h(y); y[i] = x0 - 2 * d; const double m2 = h(y); y[i] = x0;
		H[i] = (8 * (p1 - m1) - (p2 - m2)) / (12 * d); if (std::fabs(H[i]) < 1e-13) { H[i] = 0; }
	}
}
// rotation matrix body -> earth in the homogeneous form used by the derivation (EKF/python/ekf_derivation/main.py quat2Rot)
static inline void rotOf(const double *q, double R[3][3])
{
	const double a = q[0], b = q[1], c = q[2], d = q[3];
	R[0][0] = a * a + b * b - c * c - d * d; R[0][1] = 2 * (b * c - a * d); R[0][2] = 2 * (b * d + a * c);
	R[1][0] = 2 * (b * c + a * d); R[1][1] = a * a - b * b + c * c - d * d; R[1][2] = 2 * (c * d - a * b);
	R[2][0] = 2 * (b * d - a * c); R[2][1] = 2 * (c * d + a * b); R[2][2] = a * a - b * b - c * c + d * d;
}
static inline D3 toEarth(const double *q, D3 v) { double R[3][3]; rotOf(q, R); return {R[0][0] * v.x + R[0][1] * v.y + R[0][2] * v.z, R[1][0] * v.x + R[1][1] * v.y + R[1][2] * v.z, R[2][0] * v.x + R[2][1] * v.y + R[2][2] * v.z}; }
static inline D3 toBody(const double *q, D3 v) { double R[3][3]; rotOf(q, R); return {R[0][0] * v.x + R[1][0] * v.y + R[2][0] * v.z, R[0][1] * v.x + R[1][1] * v.y + R[2][1] * v.z, R[0][2] * v.x + R[1][2] * v.y + R[2][2] * v.z}; }

// ---- reference filter
struct Ref {
	double x[NX], P[NX][NX], tx[NX], tP[NX][NX]; bool inh[3], mag3, wind; double dt{0.01}, c{24};
	bool closeCall{false}; // a covariance repair threshold is too near to predict in float
	double S{0}, eS{0}, Q{0}, eQ{0}; // innovation variance, its part from the covariance, rounding bounds
	static uint32_t all() { return 0xffffff; }
	void innovVar(const double *H, const double *hs, double R)
	{
		double s = R, e = R;
		for (int i = 0; i < NX; i++) { if (hs[i] == 0 && H[i] == 0) { continue; } for (int j = 0; j < NX; j++) { if (hs[j] == 0 && H[j] == 0) { continue; }
			s += H[i] * P[i][j] * H[j]; e += (std::fabs(H[i]) + hs[i]) * (std::fabs(P[i][j]) + tP[i][j] / (c * EPSF)) * (std::fabs(H[j]) + hs[j]); } }
		S = s; eS = c * EPSF * e; Q = s - R; eQ = c * EPSF * (e - R);
	}
	// rounding may turn the covariance part negative, which the estimator treats as a fault
	bool ill() const { return Q < 4 * eQ; }
	// one scalar update: hs = magnitude against which the float Jacobian entries are rounded
	void update(const double *H, const double *hs, double innov, double eInnov, uint32_t mask)
	{
		double HP[NX], eHP[NX], K[NX], eK[NX];
		for (int j = 0; j < NX; j++) { double s = 0, e = 0; for (int i = 0; i < NX; i++) { s += H[i] * P[i][j]; e += (std::fabs(H[i]) + hs[i]) * (std::fabs(P[i][j]) * c * EPSF + tP[i][j]); } HP[j] = s; eHP[j] = e; }
		for (int i = 0; i < NX; i++) {
			const bool on = ((mask >> i) & 1) && !(i >= 13 && i <= 15 && inh[i - 13]);
			K[i] = on ? HP[i] / S : 0; eK[i] = on ? eHP[i] / S + std::fabs(K[i]) * (eS / S + c * EPSF) : 0;
		}
		double N[NX][NX], tN[NX][NX];
		for (int i = 0; i < NX; i++) { for (int j = 0; j < NX; j++) { N[i][j] = P[i][j] - K[i] * HP[j]; tN[i][j] = tP[i][j] + c * EPSF * std::fabs(P[i][j]) + eK[i] * std::fabs(HP[j]) + std::fabs(K[i]) * eHP[j] + eK[i] * eHP[j]; } }
		for (int i = 0; i < NX; i++) { for (int j = 0; j < NX; j++) { P[i][j] = 0.5 * (N[i][j] + N[j][i]); tP[i][j] = std::max(tN[i][j], tN[j][i]); } if (N[i][i] < 3 * tN[i][i] && K[i] != 0) { closeCall = true; } }
		limits();
		for (int i = 0; i < NX; i++) { x[i] -= K[i] * innov; tx[i] += 2 * EPSF * std::fabs(x[i]) + eK[i] * (std::fabs(innov) + eInnov) + std::fabs(K[i]) * (eInnov + 4 * EPSF * std::fabs(innov)); }
		double n = 0, en = 0; for (int i = 0; i < 4; i++) { n += x[i] * x[i]; en = std::max(en, tx[i]); } n = std::sqrt(n); for (int i = 0; i < 4; i++) { x[i] /= n; tx[i] = 2 * en / n + 4 * EPSF; }
	}
	void raise(int i, double lo) { if (P[i][i] < lo) { P[i][i] = lo; } }
	void limits()
	{
		for (int i = 4; i < 10; i++) { raise(i, 1e-6); }
		double mx = 1e-9; bool any = false;
		for (int i = 0; i < 3; i++) { if (!inh[i]) { any = true; mx = std::max(mx, P[13 + i][13 + i]); if (P[13 + i][13 + i] < 3e-9) { closeCall = true; } } }
		if (any) { for (int i = 0; i < 3; i++) { if (!inh[i]) { raise(13 + i, std::max(0.01 * mx, 5e-8)); } } }
	}
};

// ---- estimator in a generated state
struct Box {
	std::unique_ptr<Ekf> e; Ref r0;
	parameters *par{nullptr};
	bool mag3, wind; double q[4];
};
static inline void setState(Ekf &e, const double *x)
{
	for (int i = 0; i < 4; i++) { e._state.quat_nominal(i) = (float)x[i]; }
	for (int i = 0; i < 3; i++) { e._state.vel(i) = (float)x[4 + i]; e._state.pos(i) = (float)x[7 + i]; e._state.delta_ang_bias(i) = (float)x[10 + i]; e._state.delta_vel_bias(i) = (float)x[13 + i]; e._state.mag_I(i) = (float)x[16 + i]; e._state.mag_B(i) = (float)x[19 + i]; }
	for (int i = 0; i < 2; i++) { e._state.wind_vel(i) = (float)x[22 + i]; }
}
static inline void getState(const Ekf &e, double *x)
{
	const matrix::Vector<float, 24> v = e.getStateAtFusionHorizonAsVector(); for (int i = 0; i < NX; i++) { x[i] = v(i); }
}
static inline Q4 genAttitude(pbt::Ctx &c)
{
	switch (c.g.below(6)) {
	case 0: { Q4 q{c.g.gauss(), c.g.gauss(), c.g.gauss(), c.g.gauss()}; if (qnorm(q) < 1e-3) { q = {1, 0, 0, 0}; } return qnormalize(q); }
	case 1: return qeuler(c.g.sym(0.05), c.g.sym(0.05), c.g.sym(M_PI));
	case 2: return qeuler(c.g.sym(M_PI), (c.g.below(2) ? 1 : -1) * (M_PI / 2 - c.g.real(0, 0.3)), c.g.sym(M_PI));
	case 3: return qeuler((c.g.below(2) ? 1 : -1) * (M_PI / 2 - c.g.sym(0.3)), c.g.sym(1.2), c.g.sym(M_PI));
	case 4: return qeuler(c.g.sym(0.6), c.g.sym(0.6), c.g.sym(M_PI));
	default: return qeuler(c.g.sym(0.6), c.g.sym(0.6), M_PI / 4 * (int)c.g.below(8) - M_PI + c.g.sym(0.01));
	}
}
static inline double sdOf(pbt::Ctx &c, int group)
{
	static const double lo[8] = {1e-3, 0.03, 0.05, 1e-6, 4e-4, 3e-3, 3e-3, 0.1}, hi[8] = {0.2, 5, 30, 5e-4, 4e-3, 0.3, 0.2, 8};
	return c.g.logu(lo[group], hi[group]);
}
// covSets: magnetic and wind states active or not, decided here
static inline Box genBox(pbt::Ctx &c, int wantMag = -1, int wantWind = -1)
{
	Box b; b.e.reset(new Ekf()); Ekf &e = *b.e; b.par = e.getParamHandle();
	const uint64_t T = 20000000 + c.g.below(1u << 30);
	e.init(T);
	e._time_last_imu = T + 100000; e._imu_sample_delayed.time_us = T; e._imu_sample_delayed.delta_ang_dt = 0.01f; e._imu_sample_delayed.delta_vel_dt = 0.01f;
	e._time_acc_bias_check = e._time_last_imu; e._dt_ekf_avg = 0.01f; e._filter_initialised = true; e._control_status.flags.tilt_align = true; e._control_status.flags.yaw_align = true;
	b.mag3 = wantMag < 0 ? c.g.below(2) : wantMag; b.wind = wantWind < 0 ? c.g.below(2) : wantWind;
	e._control_status.flags.mag_3D = b.mag3; e._control_status.flags.wind = b.wind; e._flt_mag_align_start_time = T - 6000000;
	Ref &r = b.r0; r.mag3 = b.mag3; r.wind = b.wind;
	const bool anyInh = c.g.below(3) == 0;
	for (int i = 0; i < 3; i++) { r.inh[i] = anyInh && c.g.below(2); e._accel_bias_inhibit[i] = r.inh[i]; }
	const Q4 q = genAttitude(c); double x[NX] = {q.w, q.x, q.y, q.z};
	const double vs = c.g.pick<double>({0, 1, 10, 40}); for (int i = 0; i < 3; i++) { x[4 + i] = c.g.sym(vs); }
	const double ps = c.g.pick<double>({0, 10, 1000}); for (int i = 0; i < 3; i++) { x[7 + i] = c.g.sym(ps); }
	for (int i = 0; i < 3; i++) { x[10 + i] = c.g.sym(3e-4); x[13 + i] = c.g.sym(2e-3); }
	const double ms = c.g.real(0.15, 0.65), mi = c.g.sym(1.4), md = c.g.sym(M_PI); x[16] = ms * std::cos(mi) * std::cos(md); x[17] = ms * std::cos(mi) * std::sin(md); x[18] = ms * std::sin(mi);
	for (int i = 0; i < 3; i++) { x[19 + i] = c.g.sym(0.1); }
	for (int i = 0; i < 2; i++) { x[22 + i] = c.g.sym(15); }
	setState(e, x); getState(e, r.x); for (int i = 0; i < NX; i++) { r.tx[i] = 0; }
	for (int i = 0; i < 4; i++) { b.q[i] = r.x[i]; }
	e._R_to_earth = matrix::Dcmf(e._state.quat_nominal);
	// covariance
	double sd[NX]; const double ab = sdOf(c, 4); double gs[8]; for (int g = 0; g < 8; g++) { gs[g] = sdOf(c, g); }
	for (int i = 0; i < NX; i++) { const int g = i < 4 ? 0 : i < 7 ? 1 : i < 10 ? 2 : i < 13 ? 3 : i < 16 ? 4 : i < 19 ? 5 : i < 22 ? 6 : 7; const double f = c.g.real(0.6, 1.7); sd[i] = g == 4 ? ab * f : gs[g] * f; if (g == 0) { sd[i] = std::min(sd[i], 0.7); } }
	const int k = (int)c.g.below(5); const double rho = k ? c.g.pick<double>({0.3, 0.8, 0.95, 0.99}) : 0; pbt::Noise nz(c.g.seed());
	double A[NX][6]; for (int i = 0; i < NX; i++) { double s = 0; for (int j = 0; j < k; j++) { A[i][j] = nz.gauss(); s += A[i][j] * A[i][j]; } const double f = k ? rho / std::sqrt(std::max(s, 1e-6)) : 0; for (int j = 0; j < k; j++) { A[i][j] *= f; } }
	for (int i = 0; i < NX; i++) { for (int j = 0; j <= i; j++) {
		double v = 0; if (i == j) { v = sd[i] * sd[i]; } else { for (int m = 0; m < k; m++) { v += A[i][m] * A[j][m]; } v *= sd[i] * sd[j]; }
		auto off = [&](int s) { return (s >= 16 && s <= 21 && !b.mag3) || (s >= 22 && !b.wind); };
		auto isInh = [&](int s) { return s >= 13 && s <= 15 && r.inh[s - 13]; };
		if (off(i) || off(j)) { v = 0; } if (i != j && (isInh(i) || isInh(j))) { v = 0; }
		e.P(i, j) = e.P(j, i) = (float)v; r.P[i][j] = r.P[j][i] = e.P(i, j); r.tP[i][j] = r.tP[j][i] = 0;
	} }
	c.note("q %.4f %.4f %.4f %.4f, vel %.3g %.3g %.3g, correlation %.2g rank %d, mag3D %d wind %d inhibit %d%d%d, sd quat %.2g vel %.2g pos %.2g; ", r.x[0], r.x[1], r.x[2], r.x[3], r.x[4], r.x[5], r.x[6], rho, k, b.mag3, b.wind, r.inh[0], r.inh[1], r.inh[2], sd[0], sd[4], sd[7]);
	return b;
}
static inline void compare(pbt::Ctx &c, const Ekf &e, const Ref &r, const char *what)
{
	double x[NX]; getState(e, x);
	for (int i = 0; i < NX; i++) { char w[80]; snprintf(w, sizeof(w), "%s: state %d", what, i); (void)w; if (!(std::fabs(x[i] - r.x[i]) <= r.tx[i] + 1e-30)) { c.note("%s: ", w); } c.close(x[i], r.x[i], r.tx[i] + 1e-30, what); }
	for (int i = 0; i < NX; i++) { for (int j = 0; j < NX; j++) { const double t = r.tP[i][j] + 1e-30; if (!(std::fabs(e.P(i, j) - r.P[i][j]) <= t)) { c.note("%s: covariance %d,%d: ", what, i, j); } c.close(e.P(i, j), r.P[i][j], t, "covariance after update"); } }
}
static inline void same(pbt::Ctx &c, const Ekf &e, const Ref &r, const char *what)
{
	double x[NX]; getState(e, x);
	for (int i = 0; i < NX; i++) { PBT_CHECK(c, x[i] == r.x[i], "%s: state %d changed from %.9g to %.9g", what, i, r.x[i], x[i]); }
	for (int i = 0; i < NX; i++) { for (int j = 0; j < NX; j++) { PBT_CHECK(c, e.P(i, j) == r.P[i][j], "%s: covariance %d,%d changed from %.9g to %.9g", what, i, j, r.P[i][j], (double)e.P(i, j)); } }
}
static inline float sgn(pbt::Ctx &c) { return c.g.below(2) ? 1.f : -1.f; }
// reference declination: table value, parameter or own field estimate
struct DeclLimit { bool geo; double ref, hmin; bool own; };
static DeclLimit setDecl(pbt::Ctx &c, Box &b)
{
	Ekf &e = *b.e; DeclLimit d; d.geo = c.g.below(3) != 0; const double cur = std::atan2(b.r0.x[17], b.r0.x[16]);
	const double ref = c.g.below(4) ? wrapd(cur + c.g.sym(0.55)) : c.g.sym(M_PI);
	b.par->mag_declination_source = (d.geo ? 1 : 0) | (c.g.below(2) ? 6 : 0); d.hmin = 0.001f; d.own = c.g.below(4) == 0;
	e._control_status.flags.mag_aligned_in_flight = d.own;
	b.par->mag_declination_deg = (float)(ref * 180 / M_PI); d.ref = b.par->mag_declination_deg * M_PI / 180;
	if (d.geo && c.g.below(4)) {
		e._mag_declination_gps = (float)ref; d.ref = e._mag_declination_gps;
		e._mag_strength_gps = (float)c.g.real(0.2, 0.65); e._mag_inclination_gps = (float)c.g.sym(1.5); d.hmin = std::max(d.hmin, 0.5 * e._mag_strength_gps * std::cos((double)e._mag_inclination_gps));
		e._NED_origin_initialised = c.g.below(2);
		if (c.g.below(2)) { b.par->mag_declination_deg = (float)c.g.sym(180); }
	}
	c.note("declination reference %.5f (source %s), own %d, minimum field %.4g; ", d.ref, d.geo ? "table" : "parameter", d.own, d.hmin);
	return d;
}
static double declOf(const DeclLimit &d, const Ref &r) { return d.own ? std::atan2(r.x[17], r.x[16]) : d.ref; }
