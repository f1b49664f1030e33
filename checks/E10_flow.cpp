// LIB: EKF geo/geo.cpp geo_lookup/geo_mag_declination.cpp
// TECHNIQUE: property-based testing: generated states and covariances, differential against a double-precision Kalman update
#include "ekf_box.hpp"

static double noiseVar(const parameters &p, int quality)
{
	const double best = std::max((double)p.flow_noise, 0.05), worst = std::max((double)p.flow_noise_qual_min, 0.05); double w = 255.0 - p.flow_qual_min;
	w = w >= 1 ? std::max(0.0, std::min(1.0, (quality - (double)p.flow_qual_min) / w)) : 0; const double s = best * w + worst * (1 - w); return s * s;
}
LAW(fusion, 960000, 4000000)
{
	Box b = genBox(c); Ekf &e = *b.e;
	// attitude within the tilt range in which flow is used; height above ground up to 100 m
	{ const Q4 q = qeuler(c.g.sym(0.75), c.g.sym(0.75), c.g.sym(M_PI)); const float f[4] = {(float)q.w, (float)q.x, (float)q.y, (float)q.z}; for (int i = 0; i < 4; i++) { e._state.quat_nominal(i) = f[i]; } }
	getState(e, b.r0.x); e._R_to_earth = matrix::Dcmf(e._state.quat_nominal); Ref r = b.r0;
	parameters &p = *b.par; p.flow_noise = (float)c.g.logu(0.02, 0.6); p.flow_noise_qual_min = (float)c.g.logu(0.02, 1); p.flow_qual_min = (int)c.g.pick<int64_t>({1, 0, 100, 254, 255}); p.flow_innov_gate = (float)c.g.logu(0.4, 6); const double gate = std::max(1.0, (double)p.flow_innov_gate);
	p.rng_gnd_clearance = (float)c.g.pick<double>({0.1, 0.02, 0.6}); const bool lever = c.g.below(3); D3 fp{0, 0, 0}, ip{0, 0, 0}; if (lever) { fp = {c.g.sym(0.5), c.g.sym(0.5), c.g.sym(0.3)}; ip = {c.g.sym(0.2), c.g.sym(0.2), c.g.sym(0.2)}; }
	p.flow_pos_body = matrix::Vector3f((float)fp.x, (float)fp.y, (float)fp.z); p.imu_pos_body = matrix::Vector3f((float)ip.x, (float)ip.y, (float)ip.z); const D3 off{(double)p.flow_pos_body(0) - p.imu_pos_body(0), (double)p.flow_pos_body(1) - p.imu_pos_body(1), (double)p.flow_pos_body(2) - p.imu_pos_body(2)};
	auto &f = e._flow_sample_delayed; f.dt = (float)c.g.real(0.01, 0.2); f.quality = (uint8_t)c.g.below(256); D3 rate{c.g.sym(2), c.g.sym(2), c.g.sym(2)}; if (c.g.below(3) == 0) { rate = {0, 0, 0}; }
	f.gyro_xyz = matrix::Vector3f((float)(-rate.x * f.dt), (float)(-rate.y * f.dt), (float)(-rate.z * f.dt)); rate = {-(double)f.gyro_xyz(0) / f.dt, -(double)f.gyro_xyz(1) / f.dt, -(double)f.gyro_xyz(2) / f.dt};
	const double hag0 = c.g.below(8) ? c.g.logu(c.g.below(4) ? 2 : 0.05, 100) : -c.g.real(0, 3); e._terrain_vpos = (float)(r.x[9] + hag0); e._flow_gyro_bias = matrix::Vector3f((float)c.g.sym(0.05), (float)c.g.sym(0.05), 0);
	const D3 offE = toEarth(r.x, off); double hag = (double)e._terrain_vpos - r.x[9] - offE.z; hag = std::max(hag, std::max((double)p.rng_gnd_clearance, 0.1));
	double Rm[3][3]; rotOf(r.x, Rm); const double range = hag / Rm[2][2], R = noiseVar(p, f.quality); const double eRange = range * 4 * EPSF * (2 + (std::fabs(r.x[9]) + std::fabs((double)e._terrain_vpos)) / hag);
	const D3 vs = toBody(r.x, {r.x[4], r.x[5], r.x[6]}) + cross(rate, off); const double pred[2] = {vs.y / range, -vs.x / range}, vmax = std::fabs(r.x[4]) + std::fabs(r.x[5]) + std::fabs(r.x[6]) + norm(rate) * norm(off), sc = vmax / range;
	double H[2][NX], hs[NX] = {}, S[2], eS[2], innov[2], eI[2], ratio[2]; bool pass = true; const uint16_t st0 = e._innov_check_fail_status.value = c.g.below(2) ? 0xffff : 0; e._time_last_of_fuse = 0;
	for (int i = 0; i < 4; i++) { hs[i] = 4 * (vmax + 1e-3) / range; } for (int i = 4; i < 7; i++) { hs[i] = 2 / range; }
	const double relR = eRange / range / (r.c * EPSF);
	for (int a = 0; a < 2; a++) {
		jacobian([&](const double *x) { const D3 v = toBody(x, {x[4], x[5], x[6]}); return (a ? -v.x : v.y) / range; }, r.x, H[a]); for (int i = 7; i < NX; i++) { H[a][i] = 0; }
	}
	double h2[NX]; for (int i = 0; i < NX; i++) { h2[i] = hs[i] * (1 + relR); } h2[0] += 0;
	const bool dbl = c.g.below(4) == 0; // an outlier on one axis only
	for (int a = 0; a < 2; a++) {
		Ref t = r; t.innovVar(H[a], h2, R); if (t.ill() || t.eS > 2e-2 * t.S) { c.cls("skip: ill-conditioned"); c.discard(); } S[a] = t.S; eS[a] = t.eS;
		const double want = c.g.pick<double>({0.3, 0.9, dbl ? 0.5 : 1.2, dbl && a ? 6.0 : 0.9}) * gate * std::sqrt(S[a]) * c.g.sym(1);
		e._flow_compensated_XY_rad(a) = (float)((pred[a] - want - e._flow_gyro_bias(a)) * f.dt); const double obs = (double)e._flow_compensated_XY_rad(a) / f.dt + e._flow_gyro_bias(a); innov[a] = pred[a] - obs; eI[a] = 16 * EPSF * (sc + std::fabs(obs) + std::fabs((double)e._flow_gyro_bias(a))) + std::fabs(pred[a]) * eRange / range + 1e-9;
		const double lim = gate * std::sqrt(S[a]); ratio[a] = innov[a] * innov[a] / (lim * lim); if (std::fabs(std::sqrt(ratio[a]) - 1) < 1e-4 + eI[a] / lim + eS[a] / S[a]) { c.discard(); } if (ratio[a] > 1) { pass = false; }
	}
	c.note("height %g range %g, quality %d (minimum %d) R %g, gate %g, body rate %g %g %g, offset %g %g %g, innovations %g %g ratios %g %g", hag, range, f.quality, p.flow_qual_min, R, gate, rate.x, rate.y, rate.z, off.x, off.y, off.z, innov[0], innov[1], ratio[0], ratio[1]);
	if (pass) { for (int a = 0; a < 2; a++) { r.innovVar(H[a], h2, R); if (r.eS > 5e-2 * r.S || r.ill()) { c.cls("skip: ill-conditioned"); c.discard(); } r.update(H[a], h2, innov[a], eI[a], Ref::all()); } if (r.closeCall) { c.cls("skip: tie"); c.discard(); } }
	c.nontrivial();
	e.fuseOptFlow();
	float gi[2], gv[2], gr; e.getFlowInnov(gi); e.getFlowInnovVar(gv); e.getFlowInnovRatio(gr); const double mx = std::max(ratio[0], ratio[1]); const int m = ratio[0] > ratio[1] ? 0 : 1;
	for (int a = 0; a < 2; a++) { c.close(gi[a], innov[a], eI[a], "innovation"); c.close(gv[a], S[a], eS[a], "innovation variance"); }
	c.close(gr, mx, (2e-3 + eS[m] / S[m]) * mx + 2 * std::sqrt(mx) * (eI[0] + eI[1]) / gate / std::sqrt(std::min(S[0], S[1])) + 1e-9, "test ratio");
	const auto fl = e.innov_check_fail_status_flags(); PBT_CHECK(c, bool(fl.reject_optflow_X) == (ratio[0] > 1) && bool(fl.reject_optflow_Y) == (ratio[1] > 1), "rejection flags X %d Y %d at test ratios %g %g", (int)fl.reject_optflow_X, (int)fl.reject_optflow_Y, ratio[0], ratio[1]);
	PBT_CHECK(c, (e._innov_check_fail_status.value & ~0x1800) == (st0 & ~0x1800), "other rejection flags changed: %x to %x", st0, e._innov_check_fail_status.value);
	PBT_CHECK(c, (e._time_last_of_fuse == e._time_last_imu) == pass, "time of last flow fusion wrong");
	const auto vb = e.getFlowVelBody(); const double o0 = pred[0] - innov[0], o1 = pred[1] - innov[1]; c.close(vb(0), -o1 * range, (12 * EPSF * std::fabs(o1) + eI[1]) * range + std::fabs(o1) * eRange, "velocity from flow X"); c.close(vb(1), o0 * range, (12 * EPSF * std::fabs(o0) + eI[0]) * range + std::fabs(o0) * eRange, "velocity from flow Y");
	c.cls(pass ? "fused" : (ratio[0] > 1) != (ratio[1] > 1) ? "rejected, one axis out" : "rejected");
	if (pass) { compare(c, e, r, "optical flow fusion"); } else { same(c, e, b.r0, "rejected"); }
}
// sensor in pure rotation at a constant distance: the rate left after compensation is zero, with or without sensor gyro and for any sensor gyro bias
LAW(body_rate, 150000, 600000)
{
	Box b = genBox(c, 0, 0); Ekf &e = *b.e; e._control_status.flags.in_air = true; b.par->flow_qual_min = 1; b.par->fusion_mode = 0;
	for (int i = 0; i < 4; i++) { e._state.quat_nominal(i) = i ? 0.f : 1.f; } e._R_to_earth = matrix::Dcmf(e._state.quat_nominal);
	const double dt = c.g.pick<double>({0.01, 0.004, 0.02}); const int per = (int)c.g.range(1, std::min(19, int(0.19 / dt))); const bool own = c.g.below(2); const int cycles = own ? (int)c.g.range(3, 40) : (int)c.g.range(30, 700);
	const D3 bias{c.g.sym(0.09), c.g.sym(0.09), c.g.sym(0.09)}; const double gb[3] = {e._state.delta_ang_bias(0), e._state.delta_ang_bias(1), e._state.delta_ang_bias(2)}; const D3 w0{c.g.sym(1.5), c.g.sym(1.5), c.g.sym(1.5)}, w1{c.g.sym(1.5), c.g.sym(1.5), c.g.sym(1.5)}; const double ph = c.g.real(0.001, 0.5);
	D3 est{0, 0, 0}; c.note("IMU interval %g, %d IMU samples per flow sample, %d flow samples, sensor gyro %d with bias %g %g %g, rates %g %g %g", dt, per, cycles, own ? 0 : 1, bias.x, bias.y, bias.z, w0.x, w0.y, w0.z); c.nontrivial(); c.cls(own ? "gyro of the estimator" : "gyro of the sensor");
	e._flow_max_rate = 1e3f; uint64_t T = e._imu_sample_delayed.time_us; e._delta_time_of = 0; e._imu_del_ang_of.setZero();
	const double fq[3] = {c.g.sym(0.05), c.g.sym(0.05), 0}; // flow from translation, rad/s
	for (int k = 0; k < cycles; k++) {
		D3 sum{0, 0, 0};
		for (int i = 0; i < per; i++) {
			const double s = std::sin(ph * (k * per + i)); const D3 w = w0 + s * w1; const double wv[3] = {w.x, w.y, w.z};
			T += uint64_t(dt * 1e6); e._imu_sample_delayed.time_us = T; e._imu_sample_delayed.delta_ang_dt = (float)dt; for (int a = 0; a < 3; a++) { e._imu_sample_delayed.delta_ang(a) = (float)(wv[a] * dt + gb[a]); }
			sum = sum + dt * w; e._flow_data_ready = false;
			if (i == per - 1) {
				auto &f = e._flow_sample_delayed; f.time_us = T; f.dt = (float)(per * dt); f.quality = 200; const double td = per * dt;
				// the image turns against the body; the sensor gyro reports the same sense
				f.gyro_xyz = own ? matrix::Vector3f(NAN, NAN, NAN) : matrix::Vector3f((float)(-sum.x + bias.x * td), (float)(-sum.y + bias.y * td), (float)(-sum.z + bias.z * td));
				f.flow_xy_rad = matrix::Vector2f((float)(-sum.x + fq[0] * td), (float)(-sum.y + fq[1] * td)); e._flow_data_ready = true;
			}
			e.controlOpticalFlowFusion();
		}
		PBT_CHECK(c, e._flow_data_ready, "good flow sample %d dropped", k);
		if (own) { est = {0, 0, 0}; } else { est = 0.99 * est + 0.01 * bias; }
		const double td = per * dt, left[2] = {fq[0] - (own ? 0 : bias.x - est.x), fq[1] - (own ? 0 : bias.y - est.y)}; const auto comp = e.getFlowCompensated(); const double tol = 1e-5 + 3e-6 / td;
		c.close(comp(0) / td + e._flow_gyro_bias(0), left[0], tol, "compensated rate X"); c.close(comp(1) / td + e._flow_gyro_bias(1), left[1], tol, "compensated rate Y");
	}
}
// unusable samples are dropped in flight
LAW(unusable, 250000, 1000000)
{
	Box b = genBox(c, 0, 0); Ekf &e = *b.e; e._control_status.flags.in_air = true; b.par->fusion_mode = 0; b.par->flow_qual_min = (int)c.g.range(0, 255); const double tilt = c.g.below(2) ? 0 : c.g.real(0, 1.4), az = c.g.sym(M_PI);
	const Q4 q = qmul(qeuler(0, 0, c.g.sym(M_PI)), qfromrotvec({tilt * std::cos(az), tilt * std::sin(az), 0})); const float qf[4] = {(float)q.w, (float)q.x, (float)q.y, (float)q.z}; for (int i = 0; i < 4; i++) { e._state.quat_nominal(i) = qf[i]; } e._R_to_earth = matrix::Dcmf(e._state.quat_nominal);
	auto &f = e._flow_sample_delayed; f.quality = (uint8_t)c.g.below(256); const double acc = c.g.logu(0.004, 1.3); e._delta_time_of = (float)(acc - 0.004); e._imu_del_ang_of.setZero(); e._imu_sample_delayed.delta_ang_dt = 0.004f; e._imu_sample_delayed.delta_ang.setZero(); e._state.delta_ang_bias.setZero();
	f.dt = (float)(acc * c.g.pick<double>({1.0, c.g.real(0.7, 1.3)})); e._flow_max_rate = (float)c.g.real(0.5, 4); const double mag = c.g.real(0, 1.4) * e._flow_max_rate * f.dt, an = c.g.sym(M_PI);
	f.flow_xy_rad = matrix::Vector2f((float)(mag * std::cos(an)), (float)(mag * std::sin(an))); const bool nan = c.g.below(2); const matrix::Vector3f g((float)c.g.sym(0.1), (float)c.g.sym(0.1), (float)c.g.sym(0.1)); f.gyro_xyz = nan ? matrix::Vector3f(NAN, NAN, NAN) : g; f.time_us = e._imu_sample_delayed.time_us; e._flow_data_ready = true;
	auto far = [&](double a, double b2) { if (std::fabs(a - b2) < 1e-4 * std::max(std::fabs(a), std::fabs(b2)) + 1e-6) { c.discard(); } return a < b2; };
	const bool okTilt = far(b.par->range_cos_max_tilt, std::cos(tilt)), okMag = far(mag, (double)e._flow_max_rate * f.dt), okQ = f.quality >= b.par->flow_qual_min, okComp = far(acc, 1.0), okDt = far(std::max(0.8 * acc, 0.001), f.dt) & far(f.dt, std::min(1.2 * acc, 0.2));
	c.note("quality %d of %d, tilt %g, rate %g of %g, interval %g against %g", f.quality, b.par->flow_qual_min, tilt, mag / f.dt, e._flow_max_rate, f.dt, acc); c.nontrivial(); const bool ok = okTilt && okMag && okQ && okComp && okDt; const matrix::Vector2f fl = f.flow_xy_rad;
	e._flow_compensated_XY_rad.setZero();
	e.controlOpticalFlowFusion();
	PBT_CHECK(c, e._flow_data_ready == ok, "sample %s (tilt ok %d, rate ok %d, quality ok %d, interval ok %d, gyro data ok %d)", e._flow_data_ready ? "kept" : "dropped", okTilt, okMag, okQ, okDt, okComp); c.cls(ok ? "kept" : "dropped");
	if (ok) { const auto cp = e.getFlowCompensated(); for (int a = 0; a < 2; a++) { c.close(cp(a), fl(a) - (nan ? 0 : g(a)), 1e-6, "compensated flow"); } }
}
int main(int argc, char **argv) { return pbt::run("E10", "case = attitude, velocity, height, body rate, sensor offset, quality, noise, gate, covariance and flow measurement, or a sequence of IMU and flow samples in rotation; every kept case is non-trivial", argc, argv); }
