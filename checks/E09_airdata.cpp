// LIB: EKF geo/geo.cpp geo_lookup/geo_mag_declination.cpp
// TECHNIQUE: property-based testing: generated states and covariances, differential against a double-precision Kalman update
#include "ekf_box.hpp"

static const uint32_t WIND = 0xc00000u;
// sets vehicle and wind velocity so that the velocity relative to the air has the given body components (before float rounding)
static void setAir(pbt::Ctx &c, Box &b, D3 vb)
{
	double R[3][3]; double n = std::sqrt(b.q[0] * b.q[0] + b.q[1] * b.q[1] + b.q[2] * b.q[2] + b.q[3] * b.q[3]); double q[4]; for (int i = 0; i < 4; i++) { q[i] = b.q[i] / n; } rotOf(q, R); (void)R;
	const D3 ve = toEarth(q, vb); b.e->_state.vel(0) = (float)(ve.x + b.r0.x[22]); b.e->_state.vel(1) = (float)(ve.y + b.r0.x[23]); b.e->_state.vel(2) = (float)ve.z;
	getState(*b.e, b.r0.x);
}
static D3 relBody(const double *x) { return toBody(x, {x[4] - x[22], x[5] - x[23], x[6]}); }
static double wantInnov(pbt::Ctx &c, double gate, double S) { return c.g.pick<double>({0.3, 0.9, 1.3, 6}) * gate * std::sqrt(S) * c.g.sym(1); }

LAW(airspeed, 500000, 3000000)
{
	Box b = genBox(c, -1, 1); Ekf &e = *b.e; setAir(c, b, {c.g.real(-3, 40), c.g.sym(6), c.g.sym(6)});
	if (c.g.below(12) == 0) { setAir(c, b, {c.g.sym(0.8), c.g.sym(0.8), c.g.sym(0.8)}); }
	Ref r = b.r0; const bool dr = c.g.below(2); e._is_wind_dead_reckoning = dr; const uint32_t mask = dr ? Ref::all() : WIND;
	b.par->eas_noise = (float)c.g.real(0.2, 6); e._airspeed_sample_delayed.eas2tas = (float)c.g.pick<double>({1.0, c.g.real(0.8, 2)}); b.par->tas_innov_gate = (float)c.g.logu(0.5, 6);
	const double sd = std::max(0.5, std::min(5.0, (double)b.par->eas_noise)) * std::max(0.9, (double)e._airspeed_sample_delayed.eas2tas), R = sd * sd, gate = std::max(1.0, (double)b.par->tas_innov_gate);
	auto model = [](const double *x) { return std::sqrt((x[4] - x[22]) * (x[4] - x[22]) + (x[5] - x[23]) * (x[5] - x[23]) + x[6] * x[6]); };
	const double v = model(r.x); if (std::fabs(v - 1) < 1e-3) { c.discard(); }
	const double vmax = std::fabs(r.x[4]) + std::fabs(r.x[5]) + std::fabs(r.x[22]) + std::fabs(r.x[23]) + std::fabs(r.x[6]);
	const uint16_t st0 = e._innov_check_fail_status.value = c.g.below(2) ? 0xffff : 0; e._time_last_arsp_fuse = 0;
	c.note("airspeed %g, dead reckoning %d, R %g, gate %g", v, dr, R, gate);
	float tas; e.get_true_airspeed(&tas); c.close(tas, v, 4 * EPSF * vmax, "reported true airspeed");
	if (v < 1) { e._airspeed_sample_delayed.true_airspeed = (float)c.g.real(0, 30); c.cls("too slow"); c.nontrivial(); e.fuseAirspeed(); same(c, e, r, "low airspeed"); PBT_CHECK(c, e._time_last_arsp_fuse == 0, "counted as fused at low airspeed"); return; }
	double H[NX], hs[NX] = {}; jacobian(model, r.x, H); for (int i : {4, 5, 6, 22, 23}) { hs[i] = 1 + vmax / v; } for (int i = 0; i < NX; i++) { if (hs[i] == 0) { H[i] = 0; } }
	r.innovVar(H, hs, R); if (r.ill()) { c.cls("skip: ill-conditioned"); c.discard(); }
	e._airspeed_sample_delayed.true_airspeed = (float)(v - wantInnov(c, gate, r.S)); const double innov = v - e._airspeed_sample_delayed.true_airspeed, eI = 8 * EPSF * (vmax + 30), lim = gate * std::sqrt(r.S), ratio = innov * innov / (lim * lim);
	const double S = r.S, eS = r.eS; if (std::fabs(std::sqrt(ratio) - 1) < 1e-4 + eI / lim + eS / S) { c.discard(); }
	const bool pass = ratio < 1; if (pass) { r.update(H, hs, innov, eI, mask); if (r.closeCall) { c.cls("skip: tie"); c.discard(); } }
	c.nontrivial(innov != 0); c.note("innovation %g ratio %g", innov, ratio);
	e.fuseAirspeed();
	float gi, gv, gr; e.getAirspeedInnov(gi); e.getAirspeedInnovVar(gv); e.getAirspeedInnovRatio(gr);
	c.close(gi, innov, eI, "innovation"); c.close(gv, S, eS, "innovation variance"); c.close(gr, ratio, (2e-3 + eS / S) * ratio + 2 * std::sqrt(ratio) * eI / lim + 1e-9, "test ratio");
	PBT_CHECK(c, bool(e.innov_check_fail_status_flags().reject_airspeed) == !pass, "airspeed rejection flag is %d at test ratio %g", (int)e.innov_check_fail_status_flags().reject_airspeed, ratio);
	PBT_CHECK(c, (e._innov_check_fail_status.value & ~0x100) == (st0 & ~0x100), "other rejection flags changed");
	PBT_CHECK(c, (e._time_last_arsp_fuse == e._time_last_imu) == pass, "time of last airspeed fusion wrong (test ratio %g)", ratio);
	c.cls(pass ? dr ? "fused into all states" : "fused into wind" : "rejected");
	if (pass) { compare(c, e, r, "airspeed fusion"); } else { same(c, e, b.r0, "rejected"); }
}
LAW(sideslip, 500000, 3000000)
{
	Box b = genBox(c, -1, 1); Ekf &e = *b.e; setAir(c, b, {c.g.real(4, 40) * (c.g.below(8) ? 1 : -1), c.g.sym(c.g.pick<double>({0, 1, 8})), c.g.sym(8)});
	if (c.g.below(12) == 0) { setAir(c, b, {c.g.sym(4), c.g.sym(4), c.g.sym(3)}); }
	Ref r = b.r0; const bool dr = c.g.below(2); e._is_wind_dead_reckoning = dr; const uint32_t mask = dr ? Ref::all() : WIND;
	b.par->beta_noise = (float)c.g.logu(0.02, 1); b.par->beta_innov_gate = (float)c.g.logu(0.5, 8); const double R = (double)b.par->beta_noise * b.par->beta_noise, gate = std::max(1.0, (double)b.par->beta_innov_gate);
	const D3 vb = relBody(r.x); const double v = norm(vb), vmax = std::fabs(r.x[4]) + std::fabs(r.x[5]) + std::fabs(r.x[22]) + std::fabs(r.x[23]) + std::fabs(r.x[6]);
	if (std::fabs(v - 7) < 1e-3) { c.discard(); }
	c.note("velocity through the air %g %g %g, dead reckoning %d, R %g, gate %g", vb.x, vb.y, vb.z, dr, R, gate);
	e._time_last_beta_fuse = 0; const uint16_t st0 = e._innov_check_fail_status.value = c.g.below(2) ? 0xffff : 0;
	if (v < 7) { c.cls("too slow"); c.nontrivial(); e.fuseSideslip(); same(c, e, r, "low airspeed"); PBT_CHECK(c, e._time_last_beta_fuse == 0, "counted as fused at low airspeed"); return; }
	if (std::fabs(vb.x) < 1) { c.discard(); }
	auto model = [](const double *x) { const D3 u = relBody(x); return u.y / u.x; };
	double H[NX], hs[NX] = {}; jacobian(model, r.x, H); const double k = (1 + std::fabs(vb.y / vb.x)) / std::fabs(vb.x);
	for (int i = 0; i < 4; i++) { hs[i] = 2 * vmax * k; } for (int i : {4, 5, 6, 22, 23}) { hs[i] = (1 + vmax / std::fabs(vb.x)) * k; } for (int i = 0; i < NX; i++) { if (hs[i] == 0) { H[i] = 0; } }
	r.innovVar(H, hs, R); if (r.ill() || r.eS > 2e-3 * r.S) { c.cls("skip: ill-conditioned"); c.discard(); }
	const double innov = vb.y / vb.x, eI = 12 * EPSF * vmax * k, lim = gate * std::sqrt(r.S), ratio = innov * innov / (lim * lim), S = r.S, eS = r.eS;
	if (std::fabs(std::sqrt(ratio) - 1) < 1e-4 + eI / lim + eS / S) { c.discard(); }
	const bool pass = ratio < 1; if (pass) { r.update(H, hs, innov, eI, mask); if (r.closeCall) { c.cls("skip: tie"); c.discard(); } }
	c.nontrivial(innov != 0); c.note("innovation %g ratio %g", innov, ratio);
	e.fuseSideslip();
	float gi, gv, gr; e.getBetaInnov(gi); e.getBetaInnovVar(gv); e.getBetaInnovRatio(gr);
	c.close(gi, innov, eI, "innovation"); c.close(gv, S, eS, "innovation variance"); c.close(gr, ratio, (2e-3 + eS / S) * ratio + 2 * std::sqrt(ratio) * eI / lim + 1e-9, "test ratio");
	PBT_CHECK(c, bool(e.innov_check_fail_status_flags().reject_sideslip) == !pass, "sideslip rejection flag is %d at test ratio %g", (int)e.innov_check_fail_status_flags().reject_sideslip, ratio);
	PBT_CHECK(c, (e._innov_check_fail_status.value & ~0x200) == (st0 & ~0x200), "other rejection flags changed");
	PBT_CHECK(c, (e._time_last_beta_fuse == e._time_last_imu) == pass, "time of last sideslip fusion wrong (test ratio %g)", ratio);
	c.cls(pass ? dr ? "fused into all states" : "fused into wind" : "rejected");
	if (pass) { compare(c, e, r, "sideslip fusion"); } else { same(c, e, b.r0, "rejected"); }
}
LAW(drag, 500000, 3000000)
{
	Box b = genBox(c, -1, 1); Ekf &e = *b.e; setAir(c, b, {c.g.sym(c.g.pick<double>({1, 15})), c.g.sym(c.g.pick<double>({1, 15})), c.g.sym(5)}); Ref r = b.r0;
	b.par->drag_noise = (float)c.g.logu(0.1, 5); const double R = std::max((double)b.par->drag_noise, 0.5);
	float bc[2] = {(float)c.g.logu(1.5, 200), (float)c.g.logu(1.5, 200)}; const bool off = c.g.below(12) == 0; if (off) { bc[c.g.below(2)] = (float)c.g.real(0, 0.99); }
	b.par->bcoef_x = bc[0]; b.par->bcoef_y = bc[1]; e._air_density = (float)c.g.pick<double>({1.225, c.g.real(0.05, 1.4)}); const double rho = std::max((double)e._air_density, 0.1);
	e._dt_ekf_avg = (float)c.g.real(0.008, 0.02); const D3 vb = relBody(r.x), v0 = vb; const double vmax = std::fabs(r.x[4]) + std::fabs(r.x[5]) + std::fabs(r.x[22]) + std::fabs(r.x[23]) + std::fabs(r.x[6]);
	double innov[2], S[2], eS[2], eI[2], ratio[2]; bool pass[2] = {}; Ref r1 = r;
	c.note("velocity through the air %g %g %g, ballistic coefficients %g %g, density %g, R %g", vb.x, vb.y, vb.z, bc[0], bc[1], rho, R);
	if (off) { e._drag_sample_delayed.accelXY(0) = e._drag_sample_delayed.accelXY(1) = (float)c.g.sym(5); c.cls("drag model off"); c.nontrivial(); e.fuseDrag(); same(c, e, r, "no drag model"); return; }
	for (int a = 0; a < 2; a++) {
		const double v = a ? v0.y : v0.x, pred = -0.5 * rho / bc[a] * v * std::fabs(v), bias = r.x[13 + a] / e._dt_ekf_avg; auto &z = e._drag_sample_delayed.accelXY(a);
		// the innovation is aimed at with the variance for zero gain, which is near enough
		z = (float)(pred + bias - c.g.pick<double>({0.2, 0.9, 1.2, 5}) * 5 * std::sqrt(R) * c.g.sym(1.3)); const double acc = z - bias, eAcc = 4 * EPSF * (std::fabs(z) + std::fabs(bias)); innov[a] = pred - acc;
		const double spd = std::sqrt(2 * std::fabs(acc) * bc[a] / rho), K = std::max(0.1, rho / bc[a] * spd), eK = K > 0.1 ? K * (0.5 * eAcc / std::max(std::fabs(acc), 1e-9) + 8 * EPSF) : 0; if (eK > 1e-3 * K) { c.discard(); }
		// linearised model: specific force per velocity is -K along the axis
		double H[NX], hs[NX] = {}; jacobian([&](const double *x) { const D3 u = relBody(x); return -K * (a ? u.y : u.x); }, r.x, H);
		const double gr = 1 + eK / K / (r.c * EPSF); for (int i = 0; i < 4; i++) { hs[i] = 2 * K * (vmax + 1e-3) * gr; } for (int i : {4, 5, 6, 22, 23}) { hs[i] = K * gr; } for (int i = 0; i < NX; i++) { if (hs[i] == 0) { H[i] = 0; } }
		if (a == 1) { double tw = std::max(r.tx[22], r.tx[23]); for (int i = 0; i < 4; i++) { hs[i] += 4 * K * tw / (r.c * EPSF); } }
		r.innovVar(H, hs, R); if (r.ill() || r.eS > 5e-3 * r.S) { c.cls("skip: ill-conditioned"); c.discard(); }
		S[a] = r.S; eS[a] = r.eS; eI[a] = 12 * EPSF * (rho / bc[a] * std::fabs(v) * vmax + std::fabs(acc)) + eAcc; const double lim = 5 * std::sqrt(S[a]); ratio[a] = innov[a] * innov[a] / (lim * lim);
		if (std::fabs(std::sqrt(ratio[a]) - 1) < 1e-4 + eI[a] / lim + eS[a] / S[a]) { c.discard(); }
		pass[a] = ratio[a] < 1; if (pass[a]) { r.update(H, hs, innov[a], eI[a], WIND); if (r.closeCall) { c.cls("skip: tie"); c.discard(); } }
	}
	c.nontrivial(); c.note("innovations %g %g ratios %g %g", innov[0], innov[1], ratio[0], ratio[1]);
	e.fuseDrag();
	float gi[2], gv[2], gr[2]; e.getDragInnov(gi); e.getDragInnovVar(gv); e.getDragInnovRatio(gr);
	for (int a = 0; a < 2; a++) { c.close(gi[a], innov[a], eI[a], "innovation"); c.close(gv[a], S[a], eS[a], "innovation variance"); c.close(gr[a], ratio[a], (2e-3 + eS[a] / S[a]) * ratio[a] + 2 * std::sqrt(ratio[a]) * eI[a] / 5 / std::sqrt(S[a]) + 1e-9, "test ratio"); }
	c.cls(pass[0] ? pass[1] ? "both axes" : "X only" : pass[1] ? "Y only" : "rejected");
	if (!pass[0] && !pass[1]) { same(c, e, b.r0, "rejected"); } else { compare(c, e, r, "drag fusion"); }
}
int main(int argc, char **argv) { return pbt::run("E09", "case = attitude, velocity and wind, covariance, measurement, noise, gate, drag coefficients; non-trivial when the innovation is not zero or fusion must be refused", argc, argv); }
