// LIB: EKF geo/geo.cpp geo_lookup/geo_mag_declination.cpp
// TECHNIQUE: model-based property testing: injected states compared step by step with a double-precision model of the filter bank, invariants over generated histories, convergence to the simulated heading, and the same through the whole filter
#define SIM_WHITE_BOX
#include "ekf_sim.hpp"
static const double EPSF = 1.1920929e-7;
static const int N = N_MODELS_EKFGSF;
static matrix::Dcmf dcm(Q4 q) { const matrix::Quatf f((float)q.w, (float)q.x, (float)q.y, (float)q.z); return matrix::Dcmf(f); }
static double orthErr(const matrix::Dcmf &R) { double e = 0; for (int i = 0; i < 3; i++) { for (int j = 0; j < 3; j++) { double s = 0; for (int k = 0; k < 3; k++) { s += (double)R(i, k) * R(j, k); } e = std::max(e, std::fabs(s - (i == j))); } } return e; }
static double headingOf(const matrix::Dcmf &R) { return std::fabs(R(2, 0)) < std::fabs(R(2, 1)) ? std::atan2((double)R(1, 0), (double)R(0, 0)) : std::atan2(-(double)R(0, 1), (double)R(1, 1)); }

static void invariants(pbt::Ctx &c, EKFGSF_yaw &g, const char *when)
{
	double sum = 0, sn = 0, cs = 0, var = 0; for (int m = 0; m < N; m++) { const double w = g._model_weights(m); PBT_CHECK(c, std::isfinite(w) && w >= 0, "%s: weight %d is %g", when, m, w); sum += w; sn += w * std::sin((double)g._ekf_gsf[m].X(2)); cs += w * std::cos((double)g._ekf_gsf[m].X(2)); }
	PBT_CHECK(c, std::fabs(sum - 1) < 1e-4, "%s: the weights sum to %.7f", when, sum);
	float yaw = 7, v = -7, y[N], vn[N], ve[N], w[N], yc = 7, vc = -7; const bool ok = g.getYawData(&yaw, &v), ok2 = g.getLogData(&yc, &vc, y, vn, ve, w); PBT_CHECK(c, ok == ok2 && ok == g._ekf_gsf_vel_fuse_started, "%s: availability %d %d", when, ok, ok2);
	if (!ok) { PBT_CHECK(c, yaw == 7 && v == -7 && yc == 7, "%s: values written while unavailable", when); return; }
	PBT_CHECK(c, yaw == yc && v == vc, "%s: getYawData %g %g, getLogData %g %g", when, yaw, v, yc, vc); PBT_CHECK(c, std::isfinite(yaw) && std::fabs(yaw) < 3.1416f && std::isfinite(v) && v > 0, "%s: yaw %g variance %g", when, yaw, v);
	const double len = std::hypot(sn, cs), my = std::atan2(sn, cs); if (len > 1e-3) { PBT_CHECK(c, std::fabs(wrapd(yaw - my)) < 1e-5 + 1e-6 / len, "%s: composite yaw %.6f, weighted circular mean %.6f", when, yaw, my); }
	for (int m = 0; m < N; m++) { const double d = wrapd((double)g._ekf_gsf[m].X(2) - yaw); var += g._model_weights(m) * ((double)g._ekf_gsf[m].P(2, 2) + d * d); PBT_CHECK(c, y[m] == g._ekf_gsf[m].X(2) && w[m] == g._model_weights(m) && vn[m] == g._ekf_gsf[m].innov(0) && ve[m] == g._ekf_gsf[m].innov(1), "%s: log data of model %d", when, m); }
	PBT_CHECK(c, std::fabs(var - v) < 1e-4 * (1 + var), "%s: composite variance %.6f, weighted spread %.6f", when, v, var);
	for (int m = 0; m < N; m++) { const auto &P = g._ekf_gsf[m].P; for (int i = 0; i < 3; i++) { PBT_CHECK(c, std::isfinite(g._ekf_gsf[m].X(i)), "%s: model %d state %d is %g", when, m, i, g._ekf_gsf[m].X(i)); PBT_CHECK(c, std::isfinite(P(i, i)) && P(i, i) > 0, "%s: model %d variance %d is %g", when, m, i, P(i, i)); for (int j = 0; j < i; j++) { PBT_CHECK(c, P(i, j) == P(j, i) && std::isfinite(P(i, j)), "%s: model %d covariance (%d,%d) is %g and %g", when, m, i, j, P(i, j), P(j, i)); PBT_CHECK(c, std::fabs(P(i, j)) <= 1.001 * std::sqrt((double)P(i, i) * P(j, j)) + 1e-5 * (P(0, 0) + P(1, 1)) + 1e-5, "%s: model %d covariance (%d,%d) is %g for variances %g and %g", when, m, i, j, P(i, j), P(i, i), P(j, j)); } } }
}

// any history: weights, covariances, composites, availability
LAW(bank, 8000, 100000)
{
	EKFGSF_yaw g; { float a, b; PBT_CHECK(c, !g.getYawData(&a, &b), "available before any data"); }
	const double dt0 = c.g.pick<double>({0.002, 0.004, 0.008, 0.01, 0.02}), rate = c.g.logu(1e-3, 8), vel = c.g.logu(0.1, 60), acc = c.g.logu(0.05, 25); const int n = (int)c.g.range(50, 2500); pbt::Noise z(c.g.seed()); bool run = c.g.below(3) != 0, aligned = false, started = false; int velEvery = (int)c.g.range(1, 40), fused = 0; double tas = c.g.below(3) ? 0 : c.g.real(1, 40); D3 om{0, 0, 0}, f{0, 0, -9.81}; const bool spikes = c.g.below(3) == 0; c.cls(spikes, "spikes");
	for (int i = 0; i < n; i++) {
		if (i % 50 == 0) { om = {rate * z.gauss(), rate * z.gauss(), rate * z.gauss()}; f = {acc * 0.3 * z.gauss(), acc * 0.3 * z.gauss(), -9.81 + 0.3 * acc * z.gauss()}; if (c.g.below(15) == 0) { run = !run; } if (c.g.below(15) == 0) { tas = c.g.below(2) ? 0 : c.g.real(0, 60); } if (i == 0) { f = {9.81 * c.g.pick<double>({0, 0, 0, 0.3, -0.7, 1, -1}), 0, 0}; f.z = -std::sqrt(std::max(0.0, 96.2361 - f.x * f.x)) * (c.g.below(6) ? 1 : -1); om = {0, 0, 0}; } }
		imuSample s{}; s.time_us = 1000000 + (uint64_t)i * 10000; s.delta_ang_dt = (float)(dt0 * (1 + 0.05 * (2 * z.uni() - 1))); s.delta_vel_dt = (float)(dt0 * (1 + 0.05 * (2 * z.uni() - 1))); D3 o = om, a = f; if (spikes && z.uni() < 0.01) { o = {30 * (2 * z.uni() - 1), 30 * (2 * z.uni() - 1), 30 * (2 * z.uni() - 1)}; a = {100 * (2 * z.uni() - 1), 100 * (2 * z.uni() - 1), 100 * (2 * z.uni() - 1)}; }
		s.delta_ang = sim::vf((double)s.delta_ang_dt * o); s.delta_vel = sim::vf((double)s.delta_vel_dt * a);
		const bool haveVel = (i % velEvery) == 0; if (haveVel) { double v0 = vel * z.gauss(), v1 = vel * z.gauss(); if (spikes && z.uni() < 0.05) { v0 *= 50; } g.setVelocity(matrix::Vector2f((float)v0, (float)v1), (float)std::exp(std::log(0.05) + z.uni() * std::log(200.0))); }
		const bool was = g._ekf_gsf_vel_fuse_started; g.update(s, run, (float)tas, matrix::Vector3f((float)(0.02 * z.gauss()), (float)(0.02 * z.gauss()), (float)(0.02 * z.gauss())));
		aligned = g._ahrs_ekf_gsf_tilt_aligned; if (!aligned) { continue; } const bool now = g._ekf_gsf_vel_fuse_started; started |= now;
		if (!run) { PBT_CHECK(c, !now, "available while not running"); } if (!was && now) { PBT_CHECK(c, run, "became available without running on velocity data"); } if (was && now && haveVel) { fused++; }
		char when[32]; std::snprintf(when, sizeof when, "step %d", i); if (i % 7 == 0 || haveVel || i == n - 1) { invariants(c, g, when); }
		if (i % 7 == 0) { for (int m = 0; m < N; m++) { const double e = orthErr(g._ahrs_ekf_gsf[m].R); c.worst("departure of an attitude matrix from a rotation", e); PBT_CHECK(c, e < 0.01, "%s: attitude matrix of model %d is no rotation (error %g, turn rate %.2f %.2f %.2f)", when, m, e, om.x, om.y, om.z); if (now) { const double d = wrapd(headingOf(g._ahrs_ekf_gsf[m].R) - g._ekf_gsf[m].X(2)); (void)d; } } }
	}
	c.note("%d steps, %d fusions", n, fused); c.nontrivial(fused > 3);
}

// one update from an injected state, against the equations in double precision
LAW(step, 120000, 4000000)
{
	EKFGSF_yaw g; imuSample s{}; s.delta_ang_dt = s.delta_vel_dt = 0.01f; s.delta_vel = matrix::Vector3f(0, 0, -0.0981f); g.setVelocity(matrix::Vector2f(1, 2), 0.5f); for (int i = 0; i < 2; i++) { g.setVelocity(matrix::Vector2f(1, 2), 0.5f); g.update(s, true, 0, matrix::Vector3f()); } PBT_CHECK(c, g._ekf_gsf_vel_fuse_started, "not started after the second velocity at rest");
	// inject
	const double tilt = c.g.below(5) ? c.g.real(0, 0.9) : c.g.real(0, 3.1), head = c.g.sym(M_PI), td = c.g.sym(M_PI); const Q4 level = qfromrotvec({tilt * std::cos(td), tilt * std::sin(td), 0}); double wsum = 0; const double vscale = c.g.logu(0.1, 40), vn = c.g.sym(vscale), ve = c.g.sym(vscale); const double inScale = c.g.logu(0.02, 6);
	double R0[N][3][3], b0[N][3], x0[N][3], P0[N][3][3], w0[N];
	for (int m = 0; m < N; m++) {
		auto &a = g._ahrs_ekf_gsf[m]; auto &k = g._ekf_gsf[m]; a.R = dcm(qmul(qfromrotvec({0, 0, c.g.below(2) ? head + c.g.sym(0.2) : c.g.sym(M_PI)}), level)); for (int i = 0; i < 3; i++) { a.gyro_bias(i) = (float)c.g.sym(0.05); }
		k.X(0) = (float)(vn + c.g.sym(inScale)); k.X(1) = (float)(ve + c.g.sym(inScale)); k.X(2) = (float)(headingOf(a.R) + c.g.sym(0.02)); double sd[3] = {c.g.logu(0.03, 5), c.g.logu(0.03, 5), c.g.logu(0.01, 1)}, L[3][3] = {}; for (int i = 0; i < 3; i++) { for (int j = 0; j <= i; j++) { L[i][j] = i == j ? c.g.real(0.3, 1) : c.g.sym(0.8); } }
		for (int i = 0; i < 3; i++) { for (int j = 0; j <= i; j++) { double v = 0; for (int q = 0; q < 3; q++) { v += L[i][q] * L[j][q]; } k.P(i, j) = k.P(j, i) = (float)(sd[i] * sd[j] * v); } }
		g._model_weights(m) = (float)(c.g.below(3) ? c.g.real(0.05, 1) : c.g.logu(1e-5, 1)); wsum += g._model_weights(m);
	}
	g._model_weights /= (float)wsum; g._ahrs_accel = matrix::Vector3f((float)c.g.sym(5), (float)c.g.sym(5), (float)(-9.81 + c.g.sym(6))); const D3 af0 = sim::dv(g._ahrs_accel);
	for (int m = 0; m < N; m++) { w0[m] = g._model_weights(m); for (int i = 0; i < 3; i++) { b0[m][i] = g._ahrs_ekf_gsf[m].gyro_bias(i); x0[m][i] = g._ekf_gsf[m].X(i); for (int j = 0; j < 3; j++) { R0[m][i][j] = g._ahrs_ekf_gsf[m].R(i, j); P0[m][i][j] = g._ekf_gsf[m].P(i, j); } } }
	const double rate = c.g.logu(0.01, 3), ta = c.g.real(0.002, 0.02), tv = c.g.real(0.002, 0.02); s.time_us = 1; s.delta_ang_dt = (float)ta; s.delta_vel_dt = (float)tv; const double DA = s.delta_ang_dt, DV = s.delta_vel_dt; const D3 om{c.g.sym(rate), c.g.sym(rate), c.g.sym(rate)}; s.delta_ang = sim::vf(ta * om); s.delta_vel = sim::vf(tv * D3{c.g.sym(8), c.g.sym(8), -9.81 + c.g.sym(8)}); const D3 da = sim::dv(s.delta_ang), dvl = sim::dv(s.delta_vel);
	const bool vel = c.g.below(3) != 0; const double acc = (float)c.g.pick<double>({0.1, 0.3, 0.5, 0.8, c.g.logu(0.05, 20)}), tas = (float)(c.g.below(3) ? 0 : c.g.real(0.1, 30)); if (vel) { g.setVelocity(matrix::Vector2f((float)vn, (float)ve), (float)acc); } const double zn = (float)vn, ze = (float)ve;
	g.update(s, true, (float)tas, matrix::Vector3f(0.3f, 0.2f, 0.1f)); c.cls(vel, "velocity fused"); c.cls(tas > 0, "airspeed compensation");
	// attitude reference
	const double cf = std::min(10 * DV * 0.2, 1.0); const D3 acl = (1 - cf) * af0 + (cf / DV) * dvl; const double an = norm(acl), g0 = 9.80665, att = tas > 0 && an > g0 ? 1 : 2, gain = 0.2 * std::pow(1 - std::min(att * std::fabs(an - g0) / g0, 1.0), 2);
	for (int i = 0; i < 3; i++) { c.close(g._ahrs_accel(i), acl[i], 1e-4, "filtered acceleration"); }
	const bool re = vel && !g._ekf_gsf_vel_fuse_started; double w[N], wt = 0, tol = 0; int clips = 0; bool tie = std::fabs(an - g0) < 1e-4;
	for (int m = 0; m < N; m++) {
		auto &k = g._ekf_gsf[m]; double R[3][3]; const D3 down{R0[m][2][0], R0[m][2][1], R0[m][2][2]}, b{b0[m][0], b0[m][1], b0[m][2]}, wr = (1 / DA) * da - b; D3 a = acl; if (tas > 0) { a = a - cross(wr, {tas, 0, 0}); }
		D3 corr{0, 0, 0}; if (gain > 0) { corr = (gain / an) * cross(down, a); } D3 nb = b; const double spin = norm(wr); if (std::fabs(spin - 0.175) < 1e-5) { tie = true; } if (spin < 0.175) { for (int i = 0; i < 3; i++) { nb[i] = std::max(-0.05, std::min(0.05, b[i] - corr[i] * 0.04 * DA)); } }
		if (tie) { c.discard(); return; }
		for (int i = 0; i < 3; i++) { c.close(g._ahrs_ekf_gsf[m].gyro_bias(i), nb[i], 2e-7 + 1e-5 * std::fabs(nb[i] - b[i]), "rate bias of a model"); }
		const D3 d = da + DA * (corr - nb); const double dd = norm(d), eR = dd * dd + 3e-6; const Q4 qd = qfromrotvec(d); for (int i = 0; i < 3; i++) { const D3 row = qrotInv(qd, {R0[m][i][0], R0[m][i][1], R0[m][i][2]}); for (int j = 0; j < 3; j++) { R[i][j] = row[j]; } }
		const bool seq321 = std::fabs(R[2][0]) < std::fabs(R[2][1]); if (std::fabs(std::fabs(R[2][0]) - std::fabs(R[2][1])) < 2 * eR + 1e-6) { c.discard(); return; }
		const double proj = seq321 ? std::hypot(R[0][0], R[1][0]) : std::hypot(R[0][1], R[1][1]); if (proj < 0.05) { c.discard(); return; }
		const double psi = seq321 ? std::atan2(R[1][0], R[0][0]) : std::atan2(-R[0][1], R[1][1]), ePsi = eR / proj; double X[3] = {x0[m][0], x0[m][1], psi}, dn[2]; for (int i = 0; i < 2; i++) { dn[i] = R[i][0] * dvl.x + R[i][1] * dvl.y + R[i][2] * dvl.z; X[i] += dn[i]; }
		const double eV = eR * norm(dvl) * 2 + 2e-6 * (std::fabs(X[0]) + std::fabs(X[1]));
		// covariance: velocity error from yaw error rotates the horizontal delta velocity; process noise of delta velocity and delta yaw
		const double F[3][3] = {{1, 0, -dn[1]}, {0, 1, dn[0]}, {0, 0, 1}}, Qd[3] = {std::pow(2 * DV, 2), std::pow(2 * DV, 2), std::pow(0.1 * DA, 2)}; double P[3][3]; for (int i = 0; i < 3; i++) { for (int j = 0; j < 3; j++) { P[i][j] = i == j ? Qd[i] : 0; for (int p = 0; p < 3; p++) { for (int q = 0; q < 3; q++) { P[i][j] += F[i][p] * P0[m][p][q] * F[j][q]; } } } }
		double eP = 1e-6 * (P[0][0] + P[1][1] + P[2][2]) + 2 * eV * (std::sqrt(P0[m][2][2]) * std::sqrt(std::max(P[0][0], P[1][1])) + P0[m][2][2]);
		if (vel) {
			const double r = std::pow(std::max(acc, 0.5), 2), S[2][2] = {{P[0][0] + r, P[0][1]}, {P[0][1], P[1][1] + r}}, det = S[0][0] * S[1][1] - S[0][1] * S[0][1], Si[2][2] = {{S[1][1] / det, -S[0][1] / det}, {-S[0][1] / det, S[0][0] / det}}, in[2] = {X[0] - zn, X[1] - ze}; double K[3][2], d2 = 0;
			for (int i = 0; i < 3; i++) { for (int j = 0; j < 2; j++) { K[i][j] = P[i][0] * Si[0][j] + P[i][1] * Si[1][j]; } } for (int i = 0; i < 2; i++) { for (int j = 0; j < 2; j++) { d2 += in[i] * Si[i][j] * in[j]; } }
			const double sc = d2 > 25 ? std::sqrt(25 / d2) : 1, il = std::hypot(in[0], in[1]); double Pn[3][3]; for (int i = 0; i < 3; i++) { for (int j = 0; j < 3; j++) { Pn[i][j] = P[i][j] - K[i][0] * P[0][j] - K[i][1] * P[1][j]; } }
			c.cls(d2 > 25, "innovation above five sigma"); double dx[3]; for (int i = 0; i < 3; i++) { dx[i] = -sc * (K[i][0] * in[0] + K[i][1] * in[1]); X[i] += dx[i]; const double kk = std::fabs(K[i][0]) + std::fabs(K[i][1]), et = (i < 2 ? eV : ePsi) + sc * (kk * (eV + 1e-5 * il) + (eP / r) * il * 2 * (1 + kk)) + 1e-5 * std::fabs(X[i]) + 1e-6; if (!re) c.close(i == 2 ? X[2] + wrapd(k.X(2) - X[2]) : k.X(i), X[i], et, i == 2 ? "yaw of a model" : "velocity of a model"); }
			const double big = 1 + (std::fabs(K[2][0]) + std::fabs(K[2][1])) + std::fabs(K[0][0]) + std::fabs(K[1][1]); for (int i = 0; i < 3; i++) { for (int j = 0; j < 3; j++) { P[i][j] = Pn[i][j]; } P[i][i] = std::max(P[i][i], 1e-6); } eP *= 0.7 * big * big;
			for (int i = 0; i < 2; i++) { if (!re) c.close(k.innov(i), in[i], eV + 2e-6 * il, "innovation"); }
			const double edd = d2 * 1e-4 + 4 * (eV * il / r) + 4 * eP / r * d2; w[m] = w0[m] * std::exp(-0.5 * d2) / (2 * M_PI * std::sqrt(det)); tol = std::max(tol, edd + 1e-4 + 4 * eP / r); if (std::fabs(w[m] - 1e-5) < 1e-5 * (edd + 1e-3 + 4 * eP / r)) { tie = true; } if (w[m] < 1e-5) { w[m] = 1e-5; clips++; } wt += w[m];
			// the yaw correction turns the attitude about the vertical
			for (int j = 0; j < 3; j++) { const double a0 = R[0][j], a1 = R[1][j]; R[0][j] = a0 * std::cos(dx[2]) - a1 * std::sin(dx[2]); R[1][j] = a0 * std::sin(dx[2]) + a1 * std::cos(dx[2]); }
			const double e2 = eR + sc * ((std::fabs(K[2][0]) + std::fabs(K[2][1])) * (eV + 1e-5 * il) + (eP / r) * il * 2) + 1e-5; if (!re) { for (int i = 0; i < 3; i++) { for (int j = 0; j < 3; j++) { c.close(g._ahrs_ekf_gsf[m].R(i, j), R[i][j], e2, "attitude after the yaw correction"); } } }
		} else { w[m] = w0[m]; wt += w[m]; for (int i = 0; i < 3; i++) { const double et = (i < 2 ? eV : ePsi) + 1e-6 * (1 + std::fabs(X[i])); c.close(i == 2 ? X[2] + wrapd(k.X(2) - X[2]) : k.X(i), X[i], et, i == 2 ? "predicted yaw of a model" : "predicted velocity of a model"); P[i][i] = std::max(P[i][i], 1e-6); for (int j = 0; j < 3; j++) { c.close(g._ahrs_ekf_gsf[m].R(i, j), R[i][j], eR, "predicted attitude of a model"); } } }
		for (int i = 0; i < 3; i++) { for (int j = 0; j < 3; j++) { if (!re) c.close(k.P(i, j), P[i][j], eP + 1e-6, vel ? "covariance after fusion" : "predicted covariance"); } }
	}
	if (tie) { c.discard(); return; }
	if (vel && clips == N) { PBT_CHECK(c, !g._ekf_gsf_vel_fuse_started, "all models at the minimum weight and the bank was not re-initialised"); c.cls("bank re-initialised"); }
	else { PBT_CHECK(c, g._ekf_gsf_vel_fuse_started, "bank re-initialised with %d models at the minimum weight", clips); for (int m = 0; m < N; m++) { c.close(g._model_weights(m), w[m] / wt, 1e-6 + std::min(tol, 1.0) * 2 * w[m] / wt, "weight"); } char t[] = "step"; invariants(c, g, t); }
	c.nontrivial(vel && clips < N);
}

// start of the bank: headings spread over the circle, equal weights, velocity and its variance from the measurement
LAW(start, 3000, 60000)
{
	EKFGSF_yaw g; imuSample s{}; s.delta_ang_dt = s.delta_vel_dt = 0.01f; const double roll = c.g.below(4) ? c.g.sym(0.6) : c.g.sym(M_PI), pitch = c.g.pick<double>({0, c.g.sym(0.6), c.g.sym(1.4), M_PI / 2, -M_PI / 2}), gm = 9.80665 * c.g.real(0.85, 1.15); const D3 fb = qrotInv(qeuler(roll, pitch, 0), {0, 0, -gm}); s.delta_vel = sim::vf(0.01 * fb); if (std::fabs(std::fabs(pitch) - M_PI / 2) < 1e-9) { s.delta_vel(1) = s.delta_vel(2) = 0; c.cls("nose exactly vertical"); }
	D3 bias{c.g.sym(0.04), c.g.sym(0.04), c.g.sym(0.04)}; const double mn = (double)s.delta_vel.norm() / 0.01 / 9.80665; if (std::fabs(std::fabs(mn - 1) - 0.1) < 1e-4) { c.discard(); return; } const bool okAlign = std::fabs(mn - 1) < 0.1; g.update(s, false, 0, matrix::Vector3f()); PBT_CHECK(c, g._ahrs_ekf_gsf_tilt_aligned == okAlign, "tilt aligned %d at %.3f g", g._ahrs_ekf_gsf_tilt_aligned, mn); c.nontrivial(okAlign); if (!okAlign) { return; }
	for (int m = 0; m < N; m++) { const auto &R = g._ahrs_ekf_gsf[m].R; PBT_CHECK(c, orthErr(R) < 1e-3, "attitude matrix is no rotation (error %g)", orthErr(R)); const D3 u = (1 / norm(fb)) * fb; for (int j = 0; j < 3; j++) { c.close(R(2, j), -(double)s.delta_vel(j) / s.delta_vel.norm(), 1e-4, "down axis at tilt alignment"); } (void)u; }
	const double vn = c.g.sym(20), ve = c.g.sym(20), acc = c.g.logu(0.1, 5); g.update(s, true, 0, matrix::Vector3f()); PBT_CHECK(c, !g._ekf_gsf_vel_fuse_started, "available without velocity"); g.setVelocity(matrix::Vector2f((float)vn, (float)ve), (float)acc); g.update(s, false, 0, matrix::Vector3f()); PBT_CHECK(c, !g._ekf_gsf_vel_fuse_started, "available while not running");
	g.setVelocity(matrix::Vector2f((float)vn, (float)ve), (float)acc); g.update(s, true, 0, sim::vf(bias)); PBT_CHECK(c, g._ekf_gsf_vel_fuse_started, "not started with velocity while running");
	for (int m = 0; m < N; m++) { const auto &k = g._ekf_gsf[m]; const double y = -M_PI + (m + 0.5) * 2 * M_PI / N; c.close(g._model_weights(m), 0.2, 1e-6, "initial weight"); c.close(wrapd(k.X(2) - y), 0, 1e-5, "initial heading"); c.close(k.X(0), vn, 1e-5, "initial velocity"); c.close(k.X(1), ve, 1e-5, "initial velocity"); const double sdv[3] = {acc, acc, M_PI / N}; for (int i = 0; i < 3; i++) { for (int j = 0; j < 3; j++) { c.close(k.P(i, j), i == j ? sdv[i] * sdv[i] : 0, 1e-5 * sdv[i] * sdv[j] + 1e-9, "initial covariance"); } c.close(g._ahrs_ekf_gsf[m].gyro_bias(i), bias[i], 1e-6, "initial rate bias"); }
		const auto &R = g._ahrs_ekf_gsf[m].R; PBT_CHECK(c, orthErr(R) < 2e-3, "attitude matrix is no rotation (error %g)", orthErr(R)); const double tie = std::fabs(std::fabs(R(2, 0)) - std::fabs(R(2, 1))); const bool s321 = std::fabs(R(2, 0)) < std::fabs(R(2, 1)); const double proj = s321 ? std::hypot(R(0, 0), R(1, 0)) : std::hypot(R(0, 1), R(1, 1)); if (tie > 1e-3 && proj > 0.1) { c.close(wrapd(headingOf(R) - y), 0, 1e-3, "heading of the aligned attitude"); } }
}

// simulated flights: from any heading the composite yaw finds the true one; without acceleration it does not claim to
LAW(flight, 800, 12000)
{
	sim::Scenario s; sim::Want o; o.wing = c.g.below(3) == 0; o.lever = false; o.T = 110; sim::genScenario(c, s, o); const bool hover = !o.wing && c.g.below(3) == 0; s.gyroBias = 0.3 * s.gyroBias; s.accBias = 0.3 * s.accBias; s.sn[sim::GPS].delayMs = 0;
	if (hover) { s.m.U[0] = s.m.U[1] = 0; for (auto &r : s.m.A) { r[0] = r[1] = 0; } for (double &x : s.m.wobA) { x = 0; } s.gyroN = s.accN = 0; s.gyroBias = {0, 0, 0}; s.accBias = {0, 0, 0}; s.m.tilt0 = {0, 0, 0}; s.sn[sim::GPS].noise = 0; c.cls("hover"); } c.cls(o.wing, "wing");
	if (!hover && !o.wing) { for (int i = 0; i < 2; i++) { for (int j = 0; j < 2; j++) { s.m.w[i][j] = c.g.real(0.6, 1.6); s.m.A[i][j] = c.g.real(0.5, 2) / s.m.w[i][j]; } } } // accelerations sustained for many seconds mislead the levelling by design
	s.build(); double aa = 0; int na = 0; for (double t = s.m.t0 + s.m.ramp; t < s.T; t += 0.1) { const D3 a = s.m.aRaw(t); aa += a.x * a.x + a.y * a.y; na++; } const double arms = std::sqrt(aa / na); const bool moving = !hover && arms > 0.8; c.cls(moving, "accelerating more than 0.8 m/s2 rms"); EKFGSF_yaw g; bool air = false; double confident = 0, wrong = 0, late = 0, good = 0, since = 0, first = -1, worst = 0; const double lim = 0.262;
	for (auto &e : s.events) {
		if (e.k == sim::CTRL && s.ctrl[e.i].op == 0) { air = s.ctrl[e.i].val; } if (e.k == sim::GPS) { g.setVelocity(s.gps[e.i].vel_ned.xy(), (float)s.sacc); } if (e.k != sim::IMU) { continue; }
		const double t = s.sec(s.imu[e.i].time_us); g.update(s.imu[e.i], air, o.wing ? (float)(norm(s.m.v(t) - s.m.windNow())) : 0, sim::vf(s.gyroBias)); float y, v; if (!g.getYawData(&y, &v)) { if (!air) { since = t; } PBT_CHECK(c, t - since < 3.5 / s.sn[sim::GPS].rate, "not available for %.2f s in flight", t - since); continue; } since = t;
		if (!air) { c.fail("available on the ground"); return; } const Q4 q = s.m.q(t); const D3 bz = qrot(q, {0, 0, 1}); const D3 dn = qrotInv(q, {0, 0, 1}); const double truth = std::fabs(dn.x) < std::fabs(dn.y) ? yaw321(q) : yaw312(q); (void)bz; const double err = std::fabs(wrapd(y - truth)), sg = std::sqrt(v);
		if (hover) { PBT_CHECK(c, sg > lim, "hovering without noise, heading claimed with sigma %.3f (error %.2f)", sg, err); continue; }
		if (sg < lim) { confident++; if (first < 0) { first = t; } if (t > s.m.t0 + 20) { worst = std::max(worst, err); c.worst("heading error when converged [rad]", err); } if (t > s.m.t0 + 20 && moving) { wrong += err > 0.6; } }
		if (t > s.m.t0 + 60 && moving) { late++; good += sg < lim && err < 0.5; }
		for (int m = 0; m < N && e.i % 64 == 0; m++) { const double oe = orthErr(g._ahrs_ekf_gsf[m].R); c.worst("non-orthogonality", oe); }
	}
	if (late > 0) { c.worst("share of time not converged after 60 s", 1 - good / late); PBT_CHECK(c, good > 0.5 * late, "converged to within 0.5 rad only %.0f%% of the time after 60 s of accelerating flight", 100 * good / late); }
	if (moving && confident > 0) { c.worst("share of converged time that is wrong by 0.6 rad", wrong / confident); PBT_CHECK(c, wrong < 0.25 * confident + 0.02 * na * 10, "wrong by more than 0.6 rad in %.0f%% of the time it claims to have converged", 100 * wrong / confident); }
	c.note("first converged %.1f (take-off %.1f), largest error then %.3f", first, s.m.t0, worst); c.nontrivial(!hover);
}

// the bank inside the filter: independent of the position accuracy of GPS, converges there too, and its heading is taken over on request, also after a take-off with a wrong magnetic heading
LAW(rescue, 300, 4000)
{
	sim::Scenario s; sim::Want o; o.lever = c.g.below(2); o.T = 80; sim::genScenario(c, s, o); s.m.yawRate = c.g.sym(0.15); s.m.U[0] = s.m.U[1] = 0; for (int i = 0; i < 2; i++) { for (int j = 0; j < 2; j++) { s.m.w[i][j] = c.g.real(0.6, 1.4); s.m.A[i][j] = c.g.real(0.8, 2) / s.m.w[i][j]; } }
	const double off = c.g.below(3) ? (c.g.below(2) ? 1 : -1) * c.g.real(1.0, M_PI) : 0; const D3 trueField = s.magE; s.magE = qrot(qfromrotvec({0, 0, off}), trueField); s.epv = c.g.real(0.5, 2); const bool many = c.g.below(3) == 0; const int lim = many ? (int)c.g.range(1, 3) : 3; const double every = c.g.logu(0.3, 8); s.par.EKFGSF_reset_count_limit = lim; int done = 0; double lastReset = -1; s.build(); sim::Scenario s2 = s; s2.epv = c.g.real(3, 7); s2.par = s.par; for (auto &g : s2.gps) { g.epv = (float)s2.epv; }
	auto a = std::make_unique<Ekf>(), b = std::make_unique<Ekf>(); s.init(*a); s2.init(*b); s.init(*b); const bool ask = c.g.below(4) != 0; double askT = s.m.t0 + c.g.real(25, 40); bool asked = false; int counter = 0; bool full = false, strayed = false; double late = 0, good = 0, gsfGood = 0; c.cls(off != 0, "wrong magnetic heading"); c.cls(ask, "reset requested in flight"); float yaw = 0, var = 0, y[N], vn[N], ve[N], w[N];
	for (auto &e : s.events) {
		const double t = s.sec(e.t); if (ask && !asked && t > askT) { a->requestEmergencyNavReset(); b->requestEmergencyNavReset(); asked = true; full = a->_ekfgsf_yaw_reset_count >= lim; strayed = norm(sim::dv(a->getGyroBias()) - s.gyroBias) > 0.03; /* a heading that wandered teaches a gyro bias, and the reset keeps that */ counter = a->state_reset_status().quat_counter; }
		if (many && asked && t > askT + every) { askT = t; a->requestEmergencyNavReset(); b->requestEmergencyNavReset(); c.cls("reset requested again and again"); }
		const bool gps0 = a->control_status_flags().gps; const int q0 = a->state_reset_status().quat_counter; const bool had = a->getDataEKFGSF(&yaw, &var, y, vn, ve, w); (void)had; const bool step = s.apply(*a, e); s2.apply(*b, e); if (!step) { continue; }
		float yb = 0, vb = 0, ya = 0, va = 0; const bool oa = a->getDataEKFGSF(&ya, &va, y, vn, ve, w), ob = b->getDataEKFGSF(&yb, &vb, y, vn, ve, w); if (off == 0 && !asked) { PBT_CHECK(c, oa == ob && ya == yb && va == vb, "%.2f s: heading %.6f of the bank depends on the vertical position accuracy of GPS (%.6f)", t, ya, yb); }
		if (a->state_reset_status().quat_counter != q0 && a->_ekfgsf_yaw_reset_time == a->_time_last_imu && a->_ekfgsf_yaw_reset_time != 0) { PBT_CHECK(c, lastReset < 0 || t - lastReset > 4.98, "%.2f s: reset to the heading of the bank %.2f s after the previous one", t, t - lastReset); lastReset = t; done += gps0; PBT_CHECK(c, done <= lim, "%.2f s: reset number %d to the heading of the bank, limit %d", t, done, lim); const Q4 q = sim::dq(a->_state.quat_nominal); const matrix::Dcmf R(a->_state.quat_nominal); (void)q; c.close(wrapd(headingOf(R) - ya), 0, 0.15, "heading after the emergency reset"); PBT_CHECK(c, va < (float)(0.262 * 0.262), "reset to a heading with sigma %.3f", std::sqrt(va)); PBT_CHECK(c, a->_control_status.flags.mag_fault, "magnetometer still used after an emergency yaw reset"); c.cls("emergency reset"); }
		const double ts = s.sec(a->get_imu_sample_delayed().time_us); if (ts > s.m.t0 + 50) { late++; const Q4 q = s.m.q(ts), h = sim::dq(a->_state.quat_nominal); const double err = norm(rotvec(qmul(h, qconj(q)))); good += err < 0.6; if (oa) { gsfGood += std::fabs(wrapd(ya - yaw321(q))) < 0.6; } }
	}
	(void)counter; if (late > 0) { c.worst("share of late time with a bad attitude", 1 - good / late); c.worst("share of late time with a bad bank heading", 1 - gsfGood / late); PBT_CHECK(c, (off != 0 && (many || strayed || !ask || full)) || good > 0.5 * late, "attitude within 0.6 rad only %.0f%% of the time (magnetic heading wrong by %.2f rad)", 100 * good / late, off); PBT_CHECK(c, gsfGood > 0.5 * late, "bank heading within 0.6 rad only %.0f%% of the time", 100 * gsfGood / late); }
	if (ask && !full) { PBT_CHECK(c, a->_ekfgsf_yaw_reset_count > 0, "requested reset not done"); }
	c.nontrivial(late > 0);
}
int main(int a, char **b) { return pbt::run("E22", "histories with more than three velocity fusions", a, b); }
