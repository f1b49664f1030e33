// LIB: EKF geo/geo.cpp geo_lookup/geo_mag_declination.cpp
// TECHNIQUE: property-based testing: generated states, covariances and increments, differential against first-order propagation with numeric Jacobians
#include "ekf_box.hpp"

static const double DT = 0.01, BAD = 4.9;
typedef double M24[NX][NX];
static void model(const double *x, const double *u, double *y)
{
	for (int i = 0; i < NX; i++) { y[i] = x[i]; }
	const double a[3] = {0.5 * (u[0] - x[10]), 0.5 * (u[1] - x[11]), 0.5 * (u[2] - x[12])};
	y[0] = x[0] - x[1] * a[0] - x[2] * a[1] - x[3] * a[2]; y[1] = x[0] * a[0] + x[1] + x[2] * a[2] - x[3] * a[1];
	y[2] = x[0] * a[1] - x[1] * a[2] + x[2] + x[3] * a[0]; y[3] = x[0] * a[2] + x[1] * a[1] - x[2] * a[0] + x[3];
	const D3 v = toEarth(x, {u[3] - x[13], u[4] - x[14], u[5] - x[15]}); y[4] = x[4] + v.x; y[5] = x[5] + v.y; y[6] = x[6] + v.z + 9.80665 * DT;
	for (int i = 0; i < 3; i++) { y[7 + i] = x[7 + i] + x[4 + i] * DT; }
}
static double clamp01(double v) { return std::max(0.0, std::min(1.0, v)); }
struct Noises { double gyro, acc, gb, ab, mi, mb, wind, wscale; };
static Noises setNoise(pbt::Ctx &c, Box &b)
{
	auto n = [&](double nom) { const int k = (int)c.g.below(8); return (double)(float)(k == 0 ? 0 : k == 1 ? -nom : k == 2 ? 1.7 : nom * c.g.logu(0.1, 30)); };
	Noises s; parameters &p = *b.par; p.gyro_noise = s.gyro = n(0.015); p.accel_noise = s.acc = n(0.35); p.gyro_bias_p_noise = s.gb = n(1e-3); p.accel_bias_p_noise = s.ab = n(3e-3);
	p.mage_p_noise = s.mi = n(1e-3); p.magb_p_noise = s.mb = n(1e-4); p.wind_vel_p_noise = s.wind = n(0.1); p.wind_vel_p_noise_scaler = s.wscale = (float)c.g.real(0, 2); return s;
}
// reference step: returns expected covariance and its rounding bound
static void expected(pbt::Ctx &c, const Ref &r, const double *u, const double *gv, const double *pn, const bool *inh, const double *prev, M24 N, M24 T)
{
	static thread_local M24 F, A, FP, FE; double x[NX], p1[NX], m1[NX], p2[NX], m2[NX]; for (int i = 0; i < NX; i++) { x[i] = r.x[i]; }
	for (int j = 0; j < NX; j++) { for (int i = 0; i < NX; i++) { F[i][j] = i == j; A[i][j] = 0; } }
	const double dam = std::fabs(u[0]) + std::fabs(u[1]) + std::fabs(u[2]) + std::fabs(x[10]) + std::fabs(x[11]) + std::fabs(x[12]), dvm = std::fabs(u[3]) + std::fabs(u[4]) + std::fabs(u[5]) + std::fabs(x[13]) + std::fabs(x[14]) + std::fabs(x[15]);
	for (int j = 0; j < 16; j++) { const double d = 1e-4; x[j] = r.x[j] + d; model(x, u, p1); x[j] = r.x[j] - d; model(x, u, m1); x[j] = r.x[j] + 2 * d; model(x, u, p2); x[j] = r.x[j] - 2 * d; model(x, u, m2); x[j] = r.x[j]; for (int i = 0; i < 10; i++) { const double v = (8 * (p1[i] - m1[i]) - (p2[i] - m2[i])) / (12 * d); F[i][j] = std::fabs(v) < 1e-11 ? 0 : v; if (i == j) { F[i][j] = i < 4 ? 1 : F[i][j]; } } }
	// size of the terms each Jacobian entry is computed from
	for (int i = 0; i < 4; i++) { for (int j = 0; j < 4; j++) { A[i][j] = i == j ? 1 : dam; } for (int j = 10; j < 13; j++) { A[i][j] = 1; } }
	for (int i = 4; i < 7; i++) { for (int j = 0; j < 4; j++) { A[i][j] = 2 * dvm; } for (int j = 13; j < 16; j++) { A[i][j] = 1; } A[i][i] = 1; A[i + 3][i] = DT; A[i + 3][i + 3] = 1; }
	for (int i = 10; i < NX; i++) { A[i][i] = 1; }
	for (int i = 0; i < NX; i++) { for (int j = 0; j < NX; j++) { double s = 0, e = 0; for (int k = 0; k < NX; k++) { if (A[i][k] == 0) { continue; } s += F[i][k] * r.P[k][j]; e += A[i][k] * std::fabs(r.P[k][j]); } FP[i][j] = s; FE[i][j] = e; } }
	for (int i = 0; i < NX; i++) { for (int j = 0; j < NX; j++) { double s = 0, e = 0; for (int k = 0; k < NX; k++) { if (A[j][k] == 0) { continue; } s += FP[i][k] * F[j][k]; e += FE[i][k] * A[j][k]; } N[i][j] = s; T[i][j] = 12 * EPSF * e; } }
	double G[NX][6] = {}; { double v[6]; for (int k = 0; k < 6; k++) { v[k] = u[k]; } for (int k = 0; k < 6; k++) { const double d = 1e-3; v[k] = u[k] + d; model(r.x, v, p1); v[k] = u[k] - d; model(r.x, v, m1); v[k] = u[k]; for (int i = 0; i < NX; i++) { G[i][k] = (p1[i] - m1[i]) / (2 * d); } } }
	for (int i = 0; i < 7; i++) { for (int j = 0; j < 7; j++) { double s = 0, e = 0; for (int k = 0; k < 6; k++) { if ((k < 3) != (i < 4) || (k < 3) != (j < 4)) { continue; } s += G[i][k] * gv[k] * G[j][k]; e += gv[k]; } N[i][j] += s; T[i][j] += 24 * EPSF * e; } }
	for (int i = 0; i < NX; i++) { N[i][i] += pn[i]; T[i][i] += 4 * EPSF * pn[i]; }
	for (int a = 0; a < 3; a++) { if (inh[a]) { for (int j = 0; j < NX; j++) { N[13 + a][j] = N[j][13 + a] = 0; T[13 + a][j] = T[j][13 + a] = 0; } N[13 + a][13 + a] = prev[a]; } }
	if (r.P[7][7] + r.P[8][8] > 1e4) { for (int i = 7; i <= 8; i++) { for (int j = 0; j < NX; j++) { if (j >= 13 && j <= 15 && inh[j - 13]) { continue; } N[i][j] = N[j][i] = r.P[i][j]; T[i][j] = T[j][i] = 0; } } }
	for (int i = 0; i < NX; i++) { for (int j = 0; j < NX; j++) { if ((!r.mag3 && ((i >= 16 && i <= 21) || (j >= 16 && j <= 21))) || (!r.wind && (i >= 22 || j >= 22))) { N[i][j] = T[i][j] = 0; } } }
}
static void limit(M24 N, const bool *inh, double biasMax, bool mag3, bool wind)
{
	auto cl = [&](int i, double lo, double hi) { N[i][i] = std::max((double)(float)lo, std::min(hi, N[i][i])); };
	for (int i = 0; i < 4; i++) { cl(i, 0, 1); } for (int i = 4; i < 10; i++) { cl(i, 1e-6, 1e6); } for (int i = 10; i < 13; i++) { cl(i, 0, 1); }
	double mx = 1e-9; for (int a = 0; a < 3; a++) { if (!inh[a]) { mx = std::max(mx, N[13 + a][13 + a]); } }
	for (int a = 0; a < 3; a++) { if (!inh[a]) { cl(13 + a, std::max(0.01 * mx, 5e-8), biasMax); } }
	if (mag3) { for (int i = 16; i < 22; i++) { cl(i, 0, 1); } } if (wind) { cl(22, 0, 1e6); cl(23, 0, 1e6); }
}
static bool near(double a, double b) { return std::fabs(a - b) < 1e-4 * (std::fabs(a) + std::fabs(b)); }
LAW(step, 320000, 3000000)
{
	Box b = genBox(c); Ekf &e = *b.e; parameters &par = *b.par; Ref &r = b.r0; const Noises s = setNoise(c, b);
	if (c.g.below(12) == 0) { for (int i = 0; i < NX; i++) { for (int j = 0; j < NX; j++) { r.P[i][j] = 0; if (i == j && i >= 13 && i < 16) { r.P[i][j] = (float)1e-6; } e.P(i, j) = (float)r.P[i][j]; } } }
	if (c.g.below(10) == 0) { for (int i = 7; i <= 8; i++) { for (int j = 0; j < NX; j++) { const float v = (float)((j == 7 || j == 8 ? 400 : 20) * r.P[i][j]); if (j == 7 && i == 8) { continue; } r.P[i][j] = r.P[j][i] = e.P(i, j) = e.P(j, i) = v; } } }
	auto &u = e._imu_sample_delayed; const double wr = c.g.pick<double>({0, 0.02, 1, 2, 6}), ar = c.g.pick<double>({0.2, 5, 8, 2, 30});
	for (int i = 0; i < 3; i++) { u.delta_ang(i) = (float)(DT * c.g.sym(wr)); u.delta_vel(i) = (float)(DT * (c.g.sym(ar) - (i == 2 ? 9.8 : 0))); u.delta_vel_clipping[i] = c.g.below(8) == 0; }
	u.delta_ang_dt = u.delta_vel_dt = (float)c.g.real(0.008, 0.012); double uu[6]; for (int i = 0; i < 3; i++) { uu[i] = u.delta_ang(i); uu[3 + i] = u.delta_vel(i); }
	const bool air = c.g.below(3), badv = c.g.below(6) == 0, cfg = c.g.below(10) == 0; e._control_status.flags.in_air = air; e._fault_status.flags.bad_acc_vertical = badv; par.fusion_mode = cfg ? MASK_INHIBIT_ACC_BIAS : 0;
	const double fa = c.g.pick<double>({0, 0.5, 10, 0, 0, 40}), fr = c.g.pick<double>({0, 0.5, 0, 0, 1, 8}), tc = c.g.pick<double>({0.5, 0.05}); par.acc_bias_learn_acc_lim = 25; par.acc_bias_learn_gyr_lim = 3; par.acc_bias_learn_tc = (float)tc; e._accel_magnitude_filt = (float)fa; e._ang_rate_magnitude_filt = (float)fr;
	const double beta = 1 - std::min(1.0, DT / tc), wm = std::max(std::sqrt(uu[0] * uu[0] + uu[1] * uu[1] + uu[2] * uu[2]) / DT, beta * fr), am = std::max(std::sqrt(uu[3] * uu[3] + uu[4] * uu[4] + uu[5] * uu[5]) / DT, beta * fa);
	if (near(wm, 3) || near(am, 25)) { c.discard(); }
	bool inh[3]; double prev[3]; for (int a = 0; a < 3; a++) {
		prev[a] = (float)std::pow(c.g.logu(5e-4, 5e-3), 2); e._prev_dvel_bias_var(a) = (float)prev[a];
		double R[3][3]; rotOf(r.x, R); if (near(std::fabs(R[2][a]), 0.8)) { c.discard(); }
		inh[a] = cfg || wm > 3 || am > 25 || badv || !(air || std::fabs(R[2][a]) > 0.8) || u.delta_vel_clipping[a];
		if (inh[a] && !r.inh[a]) { prev[a] = r.P[13 + a][13 + a]; } else if (!inh[a] && r.inh[a]) { r.P[13 + a][13 + a] = prev[a]; }
	}
	const double gN = std::pow(DT * clamp01(s.gyro), 2), aN = std::pow(DT * (badv ? BAD : clamp01(s.acc)), 2); double gv[6]; for (int i = 0; i < 3; i++) { gv[i] = gN; gv[3 + i] = u.delta_vel_clipping[i] ? std::pow(DT * BAD, 2) : aN; }
	double pn[NX] = {}; for (int i = 0; i < 3; i++) { pn[10 + i] = std::pow(DT * DT * clamp01(s.gb), 2); pn[13 + i] = std::pow(DT * DT * clamp01(s.ab), 2); }
	const double sI = r.P[16][16] + r.P[17][17] + r.P[18][18], sB = r.P[19][19] + r.P[20][20] + r.P[21][21], sW = r.P[22][22] + r.P[23][23]; const double w0 = c.g.pick<double>({1, 3, 0.1}); par.initial_wind_uncertainty = (float)w0;
	if (near(sI, 0.1) || near(sB, 0.1) || near(sW, w0 * w0) || near(r.P[7][7] + r.P[8][8], 1e4)) { c.discard(); }
	const double h0 = c.g.sym(5); e._height_rate_lpf = (float)h0; const double h1 = 0.999 * (float)h0 + 0.001 * r.x[6];
	if (r.mag3) { for (int i = 0; i < 3; i++) { if (sI < 0.1) { pn[16 + i] = std::pow(DT * clamp01(s.mi), 2); } if (sB < 0.1) { pn[19 + i] = std::pow(DT * clamp01(s.mb), 2); } } }
	if (r.wind && sW < w0 * w0) { pn[22] = pn[23] = std::pow(DT * clamp01(s.wind) * (1 + s.wscale * std::fabs(h1)), 2); }
	static thread_local M24 N, T; expected(c, r, uu, gv, pn, inh, prev, N, T); for (int i = 0; i < NX; i++) { T[i][i] += 6 * EPSF * pn[i]; }
	limit(N, inh, std::pow(0.1 * 9.80665 * 0.01, 2), r.mag3, r.wind);
	bool sw = false; for (int a = 0; a < 3; a++) { sw |= inh[a] != r.inh[a]; T[13 + a][13 + a] += 3 * EPSF * N[13 + a][13 + a]; if (!inh[a]) { T[13 + a][13 + a] += 2e-4 * EPSF; } }
	c.nontrivial(true); c.cls(sw ? "bias inhibition changes" : "bias inhibition steady"); if (pn[22] > 0) { c.cls("wind noise"); } if (pn[16] > 0) { c.cls("field noise"); } if (r.P[7][7] + r.P[8][8] > 1e4) { c.cls("position growth stopped"); }
	c.note("increments %g %g %g %g %g %g, clipping %d%d%d, air %d bad %d cfg %d, inhibit now %d%d%d; ", uu[0], uu[1], uu[2], uu[3], uu[4], uu[5], u.delta_vel_clipping[0], u.delta_vel_clipping[1], u.delta_vel_clipping[2], air, badv, cfg, inh[0], inh[1], inh[2]);
	e.predictCovariance();
	for (int i = 0; i < NX; i++) { for (int j = 0; j < NX; j++) { const double g = e.P(i, j); if (!(std::fabs(g - N[i][j]) <= T[i][j] + 1e-32 + (i == j ? 4 * EPSF * N[i][i] : 0))) { c.note("entry %d,%d was %.6g: ", i, j, r.P[i][j]); } c.close(g, N[i][j], T[i][j] + (i == j ? 4 * EPSF * N[i][i] : 0) + 1e-32, "predicted covariance"); PBT_CHECK(c, e.P(i, j) == e.P(j, i), "entry %d,%d not symmetric: %.9g %.9g", i, j, g, (double)e.P(j, i)); } }
	double x[NX]; getState(e, x); for (int i = 0; i < NX; i++) { PBT_CHECK(c, x[i] == r.x[i], "covariance prediction changed state %d", i); }
}
// many steps: the small noise of slowly varying states accumulates without loss, and nothing unobserved ever shrinks
LAW(growth, 2000, 10000)
{
	Box b = genBox(c); Ekf &e = *b.e; parameters &par = *b.par; e._control_status.flags.in_air = true; par.fusion_mode = 0; for (int a = 0; a < 3; a++) { e._accel_bias_inhibit[a] = false; }
	const int n = (int)c.g.range(100, 3000); par.gyro_bias_p_noise = (float)c.g.logu(1e-4, 1e-2); par.accel_bias_p_noise = (float)c.g.logu(3e-4, 1e-2); par.initial_wind_uncertainty = 30; par.wind_vel_p_noise_scaler = 0;
	auto &u = e._imu_sample_delayed; for (int i = 0; i < 3; i++) { u.delta_ang(i) = (float)(DT * c.g.sym(0.5)); u.delta_vel(i) = (float)(DT * (c.g.sym(2) - (i == 2 ? 9.8 : 0))); u.delta_vel_clipping[i] = false; } u.delta_ang_dt = u.delta_vel_dt = 0.01f;
	double P0[NX]; for (int a = 0; a < 3; a++) { e.P(13 + a, 13 + a) = (float)std::pow(c.g.logu(8e-4, 5e-3), 2); for (int j = 0; j < NX; j++) { if (j != 13 + a) { e.P(13 + a, j) = e.P(j, 13 + a) = 0; } } } e.P(13, 13) = std::max(e.P(13, 13), 2e-6f); e.P(14, 14) = std::max(e.P(14, 14), 2e-6f); e.P(15, 15) = std::max(e.P(15, 15), 2e-6f);
	for (int i = 0; i < NX; i++) { P0[i] = e.P(i, i); }
	double last[NX]; for (int i = 0; i < NX; i++) { last[i] = P0[i]; }
	c.nontrivial(); c.note("%d steps, bias noises %g %g", n, par.gyro_bias_p_noise, par.accel_bias_p_noise);
	for (int k = 0; k < n; k++) { e.predictCovariance(); for (int i = 10; i < NX; i++) { if (i >= 16 && i <= 21 && !b.mag3) { continue; } if (i >= 22 && !b.wind) { continue; } PBT_CHECK(c, e.P(i, i) >= (float)last[i], "step %d: variance %d shrank from %.9g to %.9g", k, i, last[i], (double)e.P(i, i)); last[i] = e.P(i, i); } }
	const double lim = std::pow(0.1 * 9.80665 * 0.01, 2);
	for (int i = 10; i < 16; i++) { const double q = std::pow(DT * DT * (i < 13 ? par.gyro_bias_p_noise : par.accel_bias_p_noise), 2); double ex = P0[i] + n * q; if (i >= 13) { ex = std::min(ex, lim); } c.close(e.P(i, i), ex, 8 * EPSF * ex + n * q * 8 * EPSF, "accumulated bias variance"); }
	for (int i = 16; i < NX; i++) { const double q = std::pow(DT * (i < 19 ? par.mage_p_noise : i < 22 ? par.magb_p_noise : par.wind_vel_p_noise), 2); const bool on = i < 22 ? b.mag3 : b.wind; if (!on) { PBT_CHECK(c, e.P(i, i) == 0, "variance %d of an unused state is %g", i, (double)e.P(i, i)); continue; }
		const int g = i < 19 ? 16 : i < 22 ? 19 : 22, m = i < 22 ? 3 : 2; double s = 0; for (int j = g; j < g + m; j++) { s += P0[j]; } const double cap = i < 22 ? 0.1 : 900; // growth stops once the sum of the group exceeds the cap
		double ex; if (s >= cap) { ex = P0[i]; } else { const double kk = std::min((double)n, std::ceil((cap - s) / (m * q))); ex = P0[i] + kk * q; } c.close(e.P(i, i), ex, 2 * n * EPSF * ex + 4 * q, "accumulated field or wind variance"); }
}
int main(int argc, char **argv) { return pbt::run("E05", "case = state, covariance, IMU increment, noise parameters and inhibition condition, or a run of up to 3000 prediction steps; every case exercises the full 24x24 propagation", argc, argv); }
