// LIB: EKF geo/geo.cpp geo_lookup/geo_mag_declination.cpp
// TECHNIQUE: property-based testing: generated states and covariances, differential against a double-precision Kalman update
#include "ekf_box.hpp"

// kinds: 0 horizontal velocity, 1 vertical velocity, 2 horizontal position, 3 vertical position
static void velpos(pbt::Ctx &c, int kind)
{
	Box b = genBox(c); Ekf &e = *b.e; Ref r = b.r0;
	const int s0 = kind == 0 ? 4 : kind == 1 ? 6 : kind == 2 ? 7 : 9, n = (kind == 0 || kind == 2) ? 2 : 1;
	matrix::Vector3f innov, var, iv(-1, -1, -1); matrix::Vector2f gate, ratio(-1, -1);
	gate(0) = (float)c.g.logu(0.8, 12); gate(1) = (float)c.g.logu(0.8, 12); const float g = (n == 2) ? gate(0) : gate(1);
	double worst = 0;
	for (int i = 0; i < 3; i++) { innov(i) = (float)c.g.gauss() * 1e3f; var(i) = 1e3f; } // unrelated components carry nonsense
	double S[2];
	for (int i = 0; i < n; i++) {
		const int k = (n == 2) ? i : 2; const double p = r.P[s0 + i][s0 + i];
		var(k) = (float)(p * c.g.logu(1e-3, 1e3)); S[i] = p + var(k); const double f = c.g.pick<double>({0.02, 0.4, 0.95, 1.05, 3, 30});
		innov(k) = (float)((c.g.below(2) ? 1 : -1) * (i == 0 || c.g.below(2) ? f : 0.3) * g * std::sqrt(S[i])); worst = std::max(worst, (double)innov(k) * innov(k) / (double(g) * g * S[i]));
	}
	const bool inhibit = kind == 2 && c.g.below(3) == 0, bad = (kind == 1 || kind == 3) && c.g.below(3) == 0; e._bad_vert_accel_detected = bad;
	const bool odom = kind == 2 && c.g.below(2); e._fuse_hpos_as_odom = odom;
	const uint64_t T0 = e._time_last_imu - 123456; e._time_last_hor_vel_fuse = e._time_last_ver_vel_fuse = e._time_last_hor_pos_fuse = e._time_last_hgt_fuse = e._time_last_delpos_fuse = T0;
	e._innov_check_fail_status.value = c.g.below(2) ? 0xffff : 0; const uint16_t st0 = e._innov_check_fail_status.value;
	c.note("kind %d innov %g %g %g gate %g ratio %g inhibit gate %d bad accel %d odometry %d", kind, innov(0), innov(1), innov(2), g, worst, inhibit, bad, odom);
	if (std::fabs(worst - 1) < 1e-4 || (inhibit && std::fabs(worst - (100 / g) * (100 / g)) < 0.01 * worst)) { c.discard(); return; }
	bool ok;
	switch (kind) {
	case 0: ok = e.fuseHorizontalVelocity(innov, gate, var, iv, ratio); break;
	case 1: ok = e.fuseVerticalVelocity(innov, gate, var, iv, ratio); break;
	case 2: ok = e.fuseHorizontalPosition(innov, gate, var, iv, ratio, inhibit); break;
	default: ok = e.fuseVerticalPosition(innov, gate, var, iv, ratio); break;
	}
	c.nontrivial(true);
	const bool within = worst <= 1;
	const bool want = within || bad || (inhibit && worst <= (100 / g) * (100 / g));
	PBT_CHECK(c, ok == want, "fusion %s although the innovation is %.4g times the gate", ok ? "done" : "refused", std::sqrt(worst));
	for (int i = 0; i < n; i++) { c.close(iv(n == 2 ? i : 2), S[i], 4 * EPSF * S[i], "innovation variance"); }
	c.close(ratio(n == 2 ? 0 : 1), worst, 12 * EPSF * worst, "test ratio");
	if (n == 1) { const double nr = innov(2) / std::sqrt(S[0]); c.close(kind == 1 ? e._vert_vel_innov_ratio : e._vert_pos_innov_ratio, nr, 8 * EPSF * std::fabs(nr), "normalised innovation"); PBT_CHECK(c, (kind == 1 ? e._vert_vel_fuse_time_us : e._vert_pos_fuse_attempt_time_us) == e._time_last_imu, "time of the attempt not recorded"); }
	// untouched outputs
	PBT_CHECK(c, ratio(n == 2 ? 1 : 0) == -1 && iv(n == 2 ? 2 : 0) == -1, "outputs of other components changed");
	const int bit = kind == 0 ? 0 : kind == 1 ? 1 : kind == 2 ? 2 : 3; const bool extreme = inhibit && !want;
	const uint16_t st = extreme ? st0 : want ? uint16_t(st0 & ~(1u << bit)) : uint16_t(st0 | (1u << bit));
	PBT_CHECK(c, e._innov_check_fail_status.value == st, "rejection flags %x, expected %x", e._innov_check_fail_status.value, st);
	const uint64_t now = e._time_last_imu;
	auto t = [&](int k, bool o) { return want && kind == k && (k != 2 || odom == o) ? now : T0; };
	PBT_CHECK(c, e._time_last_hor_vel_fuse == t(0, 0) && e._time_last_ver_vel_fuse == t(1, 0) && e._time_last_hor_pos_fuse == t(2, false) && e._time_last_delpos_fuse == t(2, true) && e._time_last_hgt_fuse == t(3, 0), "time of last fusion wrong");
	if (!want) { same(c, e, b.r0, "rejected"); c.cls("rejected"); return; }
	for (int i = 0; i < n; i++) {
		double H[NX] = {}, hs[NX] = {}; H[s0 + i] = 1; r.S = S[i]; r.eS = 4 * EPSF * S[i];
		double in = innov(n == 2 ? i : 2); const double lim = g * std::sqrt(S[i]); if (bad && !within) { in = std::max(-lim, std::min(lim, in)); c.cls("clamped"); }
		r.update(H, hs, in, 8 * EPSF * std::fabs(in), Ref::all());
	}
	if (r.closeCall) { c.discard(); return; }
	compare(c, e, r, "update");
}
LAW(horizontal_velocity, 480000, 4000000) { velpos(c, 0); }
LAW(vertical_velocity, 480000, 4000000) { velpos(c, 1); }
LAW(horizontal_position, 480000, 4000000) { velpos(c, 2); }
LAW(vertical_position, 480000, 4000000) { velpos(c, 3); }
// ---- whole sources: the observation, variance and gate derived from the sample as well as its fusion
struct Source {
	pbt::Ctx &c; Box b; Ekf &e; parameters &p; Ref r; uint64_t now; bool tie{false}, any{false}, rejected{false};
	explicit Source(pbt::Ctx &cc) : c(cc), b(genBox(cc)), e(*b.e), p(*b.par), r(b.r0), now(e._time_last_imu)
	{
		const uint64_t t = now - 100000; e._time_last_hor_vel_fuse = e._time_last_ver_vel_fuse = e._time_last_hor_pos_fuse = e._time_last_hgt_fuse = e._time_last_delpos_fuse = e._time_last_of_fuse = t;
		e._last_gps_fail_us = 0; e._last_gps_pass_us = now; e._time_last_ext_vision = now; e._time_last_gnd_effect_on = now; e._NED_origin_initialised = true; e._gps_checks_passed = true; e._control_status.flags.in_air = c.g.below(2);
		p.imu_pos_body = v3(c.g.pick<double>({0, 0.3, 3})); for (int i = 0; i < 3; i++) { e._ang_rate_delayed_raw(i) = (float)c.g.sym(3); } p.range_aid = 0; p.mag_fusion_type = 5;
	}
	matrix::Vector3f v3(double a) { matrix::Vector3f v; for (int i = 0; i < 3; i++) { v(i) = (float)c.g.sym(a); } return v; }
	static D3 d(const matrix::Vector3f &v) { return {v(0), v(1), v(2)}; }
	float noise(double nom) { return (float)(c.g.below(8) ? nom * c.g.logu(0.05, 20) : 0.0); }
	// offset of an observation from the state: multiples of its sigma, around the gate now and then
	double off(double S, double g, double big = 1) { return (c.g.below(2) ? 1 : -1) * c.g.pick<double>({0, 0.02, 0.3, 0.7, 0.7, 0.98, 1.02, 3 * big}) * g * std::sqrt(S); }
	// fuse n components from state s0 in the model; S returned
	void fuse(int s0, int n, const double *in, const double *ein, const double *var, double gate, double *S, bool inhibit = false, double varErr = 0)
	{
		double eS[3], ratio = 0, er = 0; for (int i = 0; i < n; i++) { S[i] = r.P[s0 + i][s0 + i] + var[i]; eS[i] = r.tP[s0 + i][s0 + i] + 12 * EPSF * S[i] + varErr; const double q = in[i] * in[i] / (gate * gate * S[i]), e1 = q * eS[i] / S[i] + 2 * std::fabs(in[i]) * ein[i] / (gate * gate * S[i]) + 20 * EPSF * q; if (q > ratio) { ratio = q; } er = std::max(er, e1); }
		const double lim = inhibit ? (100 / gate) * (100 / gate) : 1; if (std::fabs(ratio - lim) < 4 * er + 1e-6 * lim) { tie = true; }
		any = true; if (ratio > lim) { rejected = true; return; }
		for (int i = 0; i < n; i++) { double H[NX] = {}, hs[NX] = {}; H[s0 + i] = 1; r.S = S[i]; r.eS = eS[i]; r.update(H, hs, in[i], ein[i], Ref::all()); }
	}
	bool skip() { if (tie || r.closeCall) { c.discard(); return true; } return false; }
	void rep(const char *w, double got, double want, double tol) { c.close(got, want, tol, w); }
	void end() { c.nontrivial(any); c.cls(rejected, "a component rejected"); compare(c, e, r, "source"); }
};
LAW(gps, 120000, 1500000)
{
	Source s(c); Ekf &e = s.e; auto &p = s.p; Ref &r = s.r; auto &g = e._gps_sample_delayed; auto &f = e._control_status.flags; f.gps = true; p.fusion_mode = 1; e._gps_data_ready = true; g.yaw = NAN; g.time_us = e._imu_sample_delayed.time_us;
	const int oth = (int)c.g.below(6); if (oth == 1) { f.opt_flow = true; } else if (oth == 2) { f.ev_pos = true; } else if (oth == 3) { f.ev_vel = true; } else if (oth == 4) { f.fuse_aspd = f.fuse_beta = true; } const bool other = oth >= 1 && oth <= 4;
	p.gps_pos_body = s.v3(c.g.pick<double>({0, 0.5, 5})); p.gps_vel_noise = s.noise(0.3); p.gps_pos_noise = s.noise(0.5); p.pos_noaid_noise = s.noise(10); p.gps_vel_innov_gate = (float)c.g.logu(0.5, 10); p.gps_pos_innov_gate = (float)c.g.logu(0.5, 10);
	g.sacc = (float)c.g.logu(0.02, 5); g.hacc = (float)c.g.logu(0.02, 50); g.vacc = 1; if (g.sacc < p.gps_vel_noise && p.gps_vel_noise < 1e-3f) { p.gps_vel_noise = 0.01f; }
	const D3 l = Source::d(p.gps_pos_body) - Source::d(p.imu_pos_body), w = Source::d(e._ang_rate_delayed_raw), le = toEarth(r.x, l), ve = toEarth(r.x, cross(w, l)); const double el = 40 * EPSF * (norm(Source::d(p.gps_pos_body)) + norm(Source::d(p.imu_pos_body))), ev = el * (norm(w) + 0.1);
	const double sv = std::max<double>(g.sacc, p.gps_vel_noise), vv[3] = {sv * sv, sv * sv, 2.25 * sv * sv}, lo = std::max<double>(p.gps_pos_noise, 0.01), up = std::max<double>(p.pos_noaid_noise, lo), sp = other ? std::max<double>(g.hacc, lo) : std::min(std::max<double>(g.hacc, lo), up), pv[2] = {sp * sp, sp * sp}; const double gv = std::max(p.gps_vel_innov_gate, 1.f), gp = std::max(p.gps_pos_innov_gate, 1.f);
	double in[5], ei[5], S[5]; for (int i = 0; i < 3; i++) { g.vel(i) = (float)(r.x[4 + i] + ve[i] + s.off(r.P[4 + i][4 + i] + vv[i], gv)); in[i] = r.x[4 + i] - (g.vel(i) - ve[i]); ei[i] = 4 * EPSF * (std::fabs(r.x[4 + i]) + std::fabs(g.vel(i)) + std::fabs(ve[i])) + ev; }
	for (int i = 0; i < 2; i++) { g.pos(i) = (float)(r.x[7 + i] + le[i] + s.off(r.P[7 + i][7 + i] + pv[i], gp)); in[3 + i] = r.x[7 + i] - (g.pos(i) - le[i]); ei[3 + i] = 4 * EPSF * (std::fabs(r.x[7 + i]) + std::fabs(g.pos(i)) + std::fabs(le[i])) + el; }
	c.note("gps innov %g %g %g %g %g other source %d", in[0], in[1], in[2], in[3], in[4], other);
	s.fuse(4, 2, in, ei, vv, gv, S); s.fuse(6, 1, in + 2, ei + 2, vv + 2, gv, S + 2); s.fuse(7, 2, in + 3, ei + 3, pv, gp, S + 3); if (s.skip()) { return; }
	double tS[5]; { Source *q = &s; (void)q; } for (int i = 0; i < 5; i++) { const int k = i < 3 ? 4 + i : 4 + i; tS[i] = r.tP[k][k] + 40 * EPSF * S[i] + 40 * EPSF * s.b.r0.P[k][k]; }
	e.controlGpsFusion(); float h[2], v, q[2], z; e.getGpsVelPosInnov(h, v, q, z); const float gi[5] = {h[0], h[1], v, q[0], q[1]}; e.getGpsVelPosInnovVar(h, v, q, z); const float gs[5] = {h[0], h[1], v, q[0], q[1]};
	static const char *const nm[] = {"north velocity", "east velocity", "down velocity", "north position", "east position"}; for (int i = 0; i < 5; i++) { c.note("%s; ", nm[i]); s.rep("GPS innovation", gi[i], in[i], ei[i] + 1e-12); s.rep("GPS innovation variance", gs[i], S[i], tS[i]); }
	s.end();
}
LAW(height, 160000, 2000000)
{
	Source s(c); Ekf &e = s.e; auto &p = s.p; Ref &r = s.r; auto &f = e._control_status.flags; const int k = (int)c.g.below(4); double obs = 0, mag = 0, var = 1, gate = 1; const double z = r.x[9], P9 = r.P[9][9];
	e._hgt_sensor_offset = (float)c.g.sym(c.g.pick<double>({0, 20, 300})); p.baro_innov_gate = (float)c.g.logu(0.5, 10); p.range_innov_gate = (float)c.g.logu(0.5, 10); p.ev_pos_innov_gate = (float)c.g.logu(0.5, 10); const double ho = e._hgt_sensor_offset; double in, dz = 0;
	f.baro_hgt = k == 0; f.gps_hgt = k == 1; f.rng_hgt = k == 2; f.ev_hgt = k == 3; e._control_status_prev.value = e._control_status.value; p.vdist_sensor_type = k == 0 ? VDIST_SENSOR_BARO : k == 1 ? VDIST_SENSOR_GPS : k == 2 ? VDIST_SENSOR_RANGE : VDIST_SENSOR_EV; e._gps_hgt_intermittent = false; e._baro_hgt_faulty = false; e._baro_data_ready = k == 0 || c.g.below(2); e._gps_data_ready = k == 1; e._delta_time_baro_us = 20000; e._baro_sample_delayed.hgt = (float)c.g.sym(500);
	if (k == 0) { f.gnd_effect = c.g.below(2); e._control_status_prev.value = e._control_status.value; p.gnd_effect_deadzone = (float)c.g.logu(0.1, 10); p.baro_noise = s.noise(2); var = std::pow(std::max<double>(p.baro_noise, 0.01f), 2); gate = std::max(p.baro_innov_gate, 1.f); e._baro_hgt_offset = (float)c.g.sym(c.g.pick<double>({0, 50, 1000})); obs = e._baro_hgt_offset; const double o = s.off(P9 + var, gate); if (f.gnd_effect) { dz = p.gnd_effect_deadzone; } e._baro_sample_delayed.hgt = (float)(-z + obs + o - (c.g.below(2) ? dz : c.g.real(0, 1) * dz)); in = z + e._baro_sample_delayed.hgt - obs; mag = std::fabs(z) + std::fabs(e._baro_sample_delayed.hgt) + std::fabs(obs); if (std::fabs(in) < 1e-5 * mag || std::fabs(in + dz) < 1e-5 * mag) { c.discard(); return; } if (f.gnd_effect && in < 0) { in = in <= -dz ? in + dz : 0; } c.cls(f.gnd_effect && in == 0, "inside the ground effect dead zone"); }
	else if (k == 1) { auto &g = e._gps_sample_delayed; p.gps_pos_noise = s.noise(0.5); p.pos_noaid_noise = s.noise(10); g.vacc = (float)c.g.logu(0.02, 60); const double lo = std::max(1.5 * p.gps_pos_noise, (double)0.01f), up = std::max(1.5 * p.pos_noaid_noise, lo); var = std::pow(std::min(std::max<double>(g.vacc, lo), up), 2); gate = std::max(p.baro_innov_gate, 1.f); e._gps_alt_ref = (float)c.g.real(-100, 3000); g.hgt = (float)(-z + e._gps_alt_ref + ho + s.off(P9 + var, gate)); in = z + g.hgt - e._gps_alt_ref - ho; mag = std::fabs(z) + std::fabs(g.hgt) + std::fabs(e._gps_alt_ref) + std::fabs(ho); }
	else if (k == 2) { p.range_noise = s.noise(0.1); p.range_noise_scaler = c.g.below(2) ? 0 : (float)c.g.real(0, 0.3); p.rng_gnd_clearance = (float)c.g.logu(0.02, 0.5); gate = std::max(p.range_innov_gate, 1.f); auto &rs = e._range_sensor; rs.setPitchOffset((float)c.g.sym(0.3)); rs.setCosMaxTilt(-2.f); estimator::rangeSample q{}; q.rng = (float)c.g.logu(0.02, 100); q.quality = 100; q.time_us = e._imu_sample_delayed.time_us; rs.setLimits(0, 200); rs.setSample(q); rs.runChecks(e._imu_sample_delayed.time_us, e._R_to_earth); rs.setDataReadiness(true); rs.setValidity(true); rs.setRange(q.rng);
		const double dist = (double)q.rng * rs.getCosTilt(), dd = std::max<double>(dist, p.rng_gnd_clearance); var = std::max<double>((double)p.range_noise * p.range_noise + std::pow((double)p.range_noise_scaler * dist, 2), 0.01f); const double o = s.off(P9 + var, gate); e._hgt_sensor_offset = (float)(z + dd + o); in = z + dd - e._hgt_sensor_offset; mag = std::fabs(z) + dd + std::fabs(e._hgt_sensor_offset); }
	else { auto &q = e._ev_sample_delayed; q.posVar = matrix::Vector3f(9e9f, 9e9f, (float)std::pow(c.g.logu(1e-3, 10), 2)); var = std::max<double>(q.posVar(2), (double)0.01f * 0.01f); gate = std::max(p.ev_pos_innov_gate, 1.f); q.pos = s.v3(100); q.pos(2) = (float)(z + s.off(P9 + var, gate)); in = z - q.pos(2); mag = std::fabs(z) + std::fabs(q.pos(2)); p.fusion_mode = 0; }
	const double ei = 8 * EPSF * mag; double S; static const char *const nm[] = {"baro", "gps", "range", "vision"}; c.note("%s height, innovation %g, variance %g, gate %g", nm[k], in, var, gate); c.cls(nm[k]);
	s.fuse(9, 1, &in, &ei, &var, gate, &S); if (s.skip()) { return; }
	e.controlHeightFusion(); float h[2], v, q[2], gi = NAN, gs = NAN; if (k == 0) { e.getBaroHgtInnov(gi); e.getBaroHgtInnovVar(gs); } else if (k == 1) { e.getGpsVelPosInnov(h, v, q, gi); e.getGpsVelPosInnovVar(h, v, q, gs); } else if (k == 2) { e.getRngHgtInnov(gi); e.getRngHgtInnovVar(gs); } else { e.getEvVelPosInnov(h, v, q, gi); e.getEvVelPosInnovVar(h, v, q, gs); }
	s.rep("height innovation", gi, in, ei + 1e-12); s.rep("height innovation variance", gs, S, 40 * EPSF * S); s.end();
}
LAW(vision, 160000, 2000000)
{
	Source s(c); Ekf &e = s.e; auto &p = s.p; Ref &r = s.r; auto &q = e._ev_sample_delayed; auto &f = e._control_status.flags; const bool pos = c.g.below(3) != 0, vel = !pos || c.g.below(2), rot = c.g.below(2), odo = pos && c.g.below(2), prev = !odo || c.g.below(6) != 0, body = c.g.below(2);
	f.ev_pos = pos; f.ev_vel = vel; p.fusion_mode = (odo ? 1 : 0) | (pos ? 8 : 0) | (vel ? 0x100 : 0) | (rot ? 0x40 : 0); e._ev_data_ready = true; q.time_us = e._imu_sample_delayed.time_us; p.ev_pos_body = s.v3(c.g.pick<double>({0, 0.5, 5})); p.ev_pos_innov_gate = (float)c.g.logu(0.5, 10); p.ev_vel_innov_gate = (float)c.g.logu(0.5, 10); const Q4 qq = genAttitude(c); q.quat = matrix::Quatf((float)qq.w, (float)qq.x, (float)qq.y, (float)qq.z); q.vel_frame = body ? estimator::velocity_frame_t::BODY_FRAME_FRD : estimator::velocity_frame_t::LOCAL_FRAME_FRD;
	double R[3][3] = {{1, 0, 0}, {0, 1, 0}, {0, 0, 1}}, Rb[3][3]; e._R_ev_to_ekf.setIdentity(); rotOf(r.x, Rb);
	if (rot) { const Q4 a = qnormalize(qmul(Q4{r.x[0], r.x[1], r.x[2], r.x[3]}, qconj(qnormalize(Q4{q.quat(0), q.quat(1), q.quat(2), q.quat(3)})))); const double aa[4] = {a.w, a.x, a.y, a.z}; rotOf(aa, R); }
	auto mul = [](const double M[3][3], D3 v) { return D3{M[0][0] * v.x + M[0][1] * v.y + M[0][2] * v.z, M[1][0] * v.x + M[1][1] * v.y + M[1][2] * v.z, M[2][0] * v.x + M[2][1] * v.y + M[2][2] * v.z}; }; auto tmul = [](const double M[3][3], D3 v) { return D3{M[0][0] * v.x + M[1][0] * v.y + M[2][0] * v.z, M[0][1] * v.x + M[1][1] * v.y + M[2][1] * v.z, M[0][2] * v.x + M[1][2] * v.y + M[2][2] * v.z}; };
	auto varOf = [&](const double M[3][3], const double C[3][3], int i) { double t = 0; for (int a = 0; a < 3; a++) { for (int k = 0; k < 3; k++) { t += M[i][a] * C[a][k] * M[i][k]; } } return t; };
	const double ER = 60 * EPSF; double in[2], ei[2], S[5], tS[5], vi[3], evi[3]; bool posDone = false;
	double Cp[3][3] = {}; for (int i = 0; i < 3; i++) { q.posVar(i) = (float)std::pow(c.g.logu(2e-3, 3), 2); Cp[i][i] = q.posVar(i); } const double cmax = std::max(Cp[0][0], std::max(Cp[1][1], Cp[2][2]));
	const double gp = std::max(p.ev_pos_innov_gate, 1.f), gv = std::max(p.ev_vel_innov_gate, 1.f);
	q.pos = s.v3(100); if (pos) {
		const double fl = odo ? 0.25 : 1e-4; double pv[2]; for (int i = 0; i < 2; i++) { const double x = odo || rot ? varOf(R, Cp, i) : Cp[i][i]; pv[i] = std::max(x, odo ? 0.25 : (double)0.01f * 0.01f); if (x < fl * 1.001 && x > fl * 0.999) { c.discard(); return; } }
		const D3 tgt{r.x[7] + s.off(r.P[7][7] + pv[0], gp), r.x[8] + s.off(r.P[8][8] + pv[1], gp), c.g.sym(50)}; D3 m; double mg;
		if (odo) { e._hpos_prev_available = prev; e._pos_meas_prev = s.v3(100); e._hpos_pred_prev = matrix::Vector2f((float)(r.x[7] + c.g.sym(3)), (float)(r.x[8] + c.g.sym(3))); const D3 dl = tmul(R, {tgt.x - e._hpos_pred_prev(0), tgt.y - e._hpos_pred_prev(1), c.g.sym(2)}); for (int i = 0; i < 3; i++) { q.pos(i) = (float)(e._pos_meas_prev(i) + dl[i]); } m = mul(R, Source::d(q.pos) - Source::d(e._pos_meas_prev)); m.x += e._hpos_pred_prev(0); m.y += e._hpos_pred_prev(1); mg = norm(Source::d(q.pos)) + norm(Source::d(e._pos_meas_prev)) + std::fabs(e._hpos_pred_prev(0)) + std::fabs(e._hpos_pred_prev(1)); }
		else { const D3 t = rot ? tmul(R, tgt) : tgt; for (int i = 0; i < 3; i++) { q.pos(i) = (float)t[i]; } m = rot ? mul(R, Source::d(q.pos)) : Source::d(q.pos); mg = norm(Source::d(q.pos)); }
		for (int i = 0; i < 2; i++) { in[i] = r.x[7 + i] - m[i]; ei[i] = ER * (std::fabs(r.x[7 + i]) + mg); }
		if (prev) { posDone = true; double tp[2]; for (int i = 0; i < 2; i++) { tp[i] = 60 * EPSF * (cmax + pv[i] + r.P[7 + i][7 + i]); } (void)tp; if (cmax > 1e3 * pv[0] || cmax > 1e3 * pv[1]) { c.discard(); return; } s.fuse(7, 2, in, ei, pv, gp, S, false, 60 * EPSF * cmax); for (int i = 0; i < 2; i++) { tS[i] = tp[i]; } }
	}
	if (vel) {
		double L[3][3], C[3][3]; for (int i = 0; i < 3; i++) { for (int j = 0; j < 3; j++) { L[i][j] = c.g.sym(1); } } const double sc = c.g.logu(0.01, 2); double ct = 0; for (int i = 0; i < 3; i++) { for (int j = 0; j < 3; j++) { double t = 0; for (int k = 0; k < 3; k++) { t += L[i][k] * L[j][k]; } q.velCov(i, j) = (float)(sc * sc * t); C[i][j] = q.velCov(i, j); ct += std::fabs(C[i][j]); } }
		double vv[3]; for (int i = 0; i < 3; i++) { vv[i] = std::max(body ? varOf(Rb, C, i) : rot ? varOf(R, C, i) : C[i][i], (double)0.05f * 0.05f); if (ct > 1e3 * vv[i]) { c.discard(); return; } }
		const D3 l = Source::d(p.ev_pos_body) - Source::d(p.imu_pos_body), lb = cross(Source::d(e._ang_rate_delayed_raw), l), le = mul(Rb, lb); D3 t{0, 0, 0}; for (int i = 0; i < 3; i++) { t[i] = r.x[4 + i] + s.off(r.P[4 + i][4 + i] + vv[i], gv) + le[i]; } const D3 o = body ? tmul(Rb, t) : rot ? tmul(R, t) : t; for (int i = 0; i < 3; i++) { q.vel(i) = (float)o[i]; }
		const D3 m = (body ? mul(Rb, Source::d(q.vel)) : rot ? mul(R, Source::d(q.vel)) : Source::d(q.vel)) - le; for (int i = 0; i < 3; i++) { vi[i] = r.x[4 + i] - m[i]; evi[i] = r.tx[4 + i] + ER * (std::fabs(r.x[4 + i]) + norm(Source::d(q.vel)) + (norm(Source::d(p.ev_pos_body)) + norm(Source::d(p.imu_pos_body))) * (0.1 + norm(Source::d(e._ang_rate_delayed_raw)))); tS[2 + i] = r.tP[4 + i][4 + i] + 60 * EPSF * (ct + r.P[4 + i][4 + i]); }
		s.fuse(4, 2, vi, evi, vv, gv, S + 2, false, 60 * EPSF * ct); const double t6 = r.tP[6][6]; s.fuse(6, 1, vi + 2, evi + 2, vv + 2, gv, S + 4, false, 60 * EPSF * ct); tS[4] += t6;
	}
	c.note("vision%s%s%s%s%s, innovations %g %g, %g %g %g", pos ? " position" : "", vel ? " velocity" : "", rot ? " rotated" : "", odo ? " odometry" : "", vel && body ? " body frame" : "", pos ? in[0] : 0, pos ? in[1] : 0, vel ? vi[0] : 0, vel ? vi[1] : 0, vel ? vi[2] : 0); c.cls(odo ? "odometry" : pos ? "absolute position" : "velocity only"); c.cls(rot, "rotated frame");
	if (s.skip()) { return; }
	e.controlExternalVisionFusion(); float h[2], v, g[2], z, h2[2], v2, g2[2]; e.getEvVelPosInnov(h, v, g, z); e.getEvVelPosInnovVar(h2, v2, g2, z);
	if (posDone) { for (int i = 0; i < 2; i++) { s.rep("vision position innovation", g[i], in[i], ei[i] + 1e-12); s.rep("vision position innovation variance", g2[i], S[i], tS[i]); } }
	if (vel) { const float a[3] = {h[0], h[1], v}, b2[3] = {h2[0], h2[1], v2}; for (int i = 0; i < 3; i++) { s.rep("vision velocity innovation", a[i], vi[i], evi[i] + 1e-12); s.rep("vision velocity innovation variance", b2[i], S[2 + i], tS[2 + i]); } }
	s.end();
}
LAW(auxiliary, 100000, 1000000)
{
	Source s(c); Ekf &e = s.e; auto &p = s.p; Ref &r = s.r; auto &f = e._control_status.flags; const bool fake = c.g.below(2); double in[2], ei[2], var[2], S[2]; double gate;
	if (fake) {
		p.pos_noaid_noise = s.noise(10); p.gps_pos_noise = s.noise(0.5) + 0.01f; e._time_last_fake_pos = s.now - (200001 + c.g.below(190000)); f.vehicle_at_rest = c.g.below(2); f.tilt_align = c.g.below(3) != 0; gate = 3; const double sd = f.in_air && f.tilt_align ? std::max(p.pos_noaid_noise, p.gps_pos_noise) : f.vehicle_at_rest ? 0.1f : 0.5f;
		for (int i = 0; i < 2; i++) { var[i] = sd * sd; e._last_known_posNE(i) = (float)(r.x[7 + i] + s.off(r.P[7 + i][7 + i] + var[i], gate, 10)); in[i] = r.x[7 + i] - e._last_known_posNE(i); ei[i] = 4 * EPSF * (std::fabs(r.x[7 + i]) + std::fabs(e._last_known_posNE(i))); }
		s.fuse(7, 2, in, ei, var, gate, S, true); if (s.skip()) { return; } e.controlFakePosFusion(); float h[2], v, q[2], z, q2[2]; e.getGpsVelPosInnov(h, v, q, z); e.getGpsVelPosInnovVar(h, v, q2, z); for (int i = 0; i < 2; i++) { s.rep("synthetic position innovation", q[i], in[i], ei[i] + 1e-12); s.rep("synthetic position innovation variance", q2[i], S[i], 40 * EPSF * S[i]); }
	} else {
		f.gps = true; p.auxvel_gate = (float)c.g.logu(0.5, 10); gate = p.auxvel_gate; estimator::auxVelSample a{}; a.time_us = e._imu_sample_delayed.time_us - c.g.below(90000); for (int i = 0; i < 3; i++) { a.velVar(i) = (float)std::pow(c.g.logu(0.01, 3), 2); }
		for (int i = 0; i < 2; i++) { var[i] = a.velVar(i); a.vel(i) = (float)(r.x[4 + i] + s.off(r.P[4 + i][4 + i] + var[i], gate)); in[i] = r.x[4 + i] - a.vel(i); ei[i] = 4 * EPSF * (std::fabs(r.x[4 + i]) + std::fabs(a.vel(i))); } a.vel(2) = (float)c.g.sym(100);
		e._auxvel_buffer.allocate(3); e._auxvel_buffer.push(a); s.fuse(4, 2, in, ei, var, gate, S); if (s.skip()) { return; } e.controlAuxVelFusion(); float h[2], h2[2]; e.getAuxVelInnov(h); e.getAuxVelInnovVar(h2); for (int i = 0; i < 2; i++) { s.rep("auxiliary velocity innovation", h[i], in[i], ei[i] + 1e-12); s.rep("auxiliary velocity innovation variance", h2[i], S[i], 40 * EPSF * S[i]); }
	}
	c.cls(fake ? "synthetic position" : "auxiliary velocity"); s.end();
}
int main(int argc, char **argv) { return pbt::run("E06", "case = estimator state, covariance (random correlations up to 0.99), observation, variance and gate for one of four observation kinds, or a sample of a sensor with lever arm, frame and noise parameters; non-trivial when the gate decision is not a rounding tie", argc, argv); }
