// Simulated flights with faults: dropouts, outliers, sustained sensor errors, IMU gaps, shocks and clipping, status and
// configuration changes, API calls.  Every sample stays finite and every parameter in a sensible range.
#pragma once
#include "ekf_sim.hpp"
#include <string>

namespace sim {
struct Op { uint64_t t; int op; int i; double v[3]; };
static const char *const opName[] = {"in_air", "fixed_wing", "fuse_beta", "gnd_effect", "fusion_mode", "vdist", "mag type", "terrain mode", "reset IMU bias", "reset gyro bias", "reset accel bias", "reset mag bias", "set origin", "set origin altitude", "emergency yaw reset", "gps health time", "air density", "flow limits", "range limits", "range aid", "gates", "check mag strength"};
struct Stress : Scenario {
	std::vector<Op> ops; std::string desc; size_t nextOp{0}; unsigned kinds{0};
	void restart() { nextOp = 0; }
	void call(Ekf &f, const Op &o) const
	{
		auto &p = *f.getParamHandle();
		switch (o.op) {
		case 0: f.set_in_air_status(o.i); break; case 1: f.set_is_fixed_wing(o.i); break; case 2: f.set_fuse_beta_flag(o.i); break; case 3: f.set_gnd_effect_flag(o.i); break;
		case 4: p.fusion_mode = o.i; break; case 5: p.vdist_sensor_type = o.i; break; case 6: p.mag_fusion_type = o.i; break; case 7: p.terrain_fusion_mode = o.i; break;
		case 8: f.resetImuBias(); break; case 9: f.resetGyroBias(); break; case 10: f.resetAccelBias(); break; case 11: f.resetMagBias(); break;
		case 12: f.setEkfGlobalOrigin(o.v[0], o.v[1], (float)o.v[2]); break;
#ifdef SIM_WHITE_BOX
		case 14: f.requestEmergencyNavReset(); break;
#endif
		case 15: f.set_min_required_gps_health_time((uint32_t)o.i); break; case 16: f.set_air_density((float)o.v[0]); break; case 17: f.set_optical_flow_limits((float)o.v[0], 0.02f, (float)o.v[1]); break; case 18: f.set_rangefinder_limits((float)o.v[0], (float)o.v[1]); break; case 19: p.range_aid = o.i; break;
		case 20: p.baro_innov_gate = p.gps_pos_innov_gate = p.gps_vel_innov_gate = p.ev_pos_innov_gate = p.ev_vel_innov_gate = p.range_innov_gate = (float)o.v[0]; break; case 21: p.check_mag_strength = o.i; break; default: break;
		}
	}
	// all calls due before an event, then the event; returns true if the filter stepped.  pre is called before each op
	template<class F> bool feed(Ekf &f, const Ev_ &e, F pre) { while (nextOp < ops.size() && ops[nextOp].t <= e.t) { pre(ops[nextOp]); call(f, ops[nextOp]); nextOp++; } return apply(f, e); }
	bool feed(Ekf &f, const Ev_ &e) { return feed(f, e, [](const Op &) {}); }
};

struct StressWant { double T{40}; int maxFaults{6}; bool params{true}, ops{true}, imu{true}, extreme{true}; };

static inline std::string stressParams(pbt::Ctx &c, estimator::parameters &p)
{
	auto &g = c.g; std::string log; auto fn = [&](const char *n, float &x, double lo, double hi) { if (g.below(3) == 0) { x = (float)g.logu(lo, hi); char b[64]; std::snprintf(b, sizeof b, "%s=%.4g ", n, x); log += b; } };
#define f(x, lo, hi) fn(#x, x, lo, hi)
	f(p.gyro_noise, 1e-4, 0.1); f(p.accel_noise, 0.01, 1); f(p.gyro_bias_p_noise, 1e-7, 0.01); f(p.accel_bias_p_noise, 1e-5, 0.01); f(p.mage_p_noise, 1e-6, 0.1); f(p.magb_p_noise, 1e-6, 0.1); f(p.wind_vel_p_noise, 1e-3, 1); f(p.wind_vel_p_noise_scaler, 1e-3, 1); f(p.terrain_p_noise, 0.5, 10); f(p.terrain_gradient, 0.01, 2);
	f(p.switch_on_gyro_bias, 1e-3, 0.2); f(p.switch_on_accel_bias, 1e-3, 0.5); f(p.initial_tilt_err, 0.01, 0.5); f(p.initial_wind_uncertainty, 0.1, 10);
	f(p.gps_vel_noise, 0.01, 5); f(p.gps_pos_noise, 0.01, 10); f(p.pos_noaid_noise, 0.5, 50); f(p.baro_noise, 0.01, 15); f(p.gnd_effect_deadzone, 0.01, 10); f(p.mag_heading_noise, 0.01, 1); f(p.mag_noise, 1e-3, 1);
	f(p.heading_innov_gate, 1, 10); f(p.mag_innov_gate, 1, 10); f(p.gps_pos_innov_gate, 1, 10); f(p.gps_vel_innov_gate, 1, 10); f(p.baro_innov_gate, 1, 10); f(p.tas_innov_gate, 1, 10); f(p.beta_innov_gate, 1, 10); f(p.flow_innov_gate, 1, 10); f(p.range_innov_gate, 1, 10); f(p.ev_pos_innov_gate, 1, 10); f(p.ev_vel_innov_gate, 1, 10);
	f(p.eas_noise, 0.5, 5); f(p.beta_noise, 0.1, 1); f(p.range_noise, 0.01, 1); f(p.flow_noise, 0.05, 1); f(p.drag_noise, 0.5, 10); f(p.bcoef_x, 1, 100); f(p.bcoef_y, 1, 100); f(p.vel_Tau, 0.05, 2); f(p.pos_Tau, 0.05, 2); f(p.acc_bias_lim, 0.1, 0.8); f(p.mag_acc_gate, 0.1, 5); f(p.mag_yaw_rate_gate, 0.05, 1); f(p.rng_gnd_clearance, 0.01, 5); f(p.acc_bias_learn_tc, 0.1, 1);
	if (g.below(4) == 0) { p.rng_sens_pitch = (float)g.sym(0.7); } if (g.below(4) == 0) { p.range_noise_scaler = (float)g.real(0, 0.2); } if (g.below(4) == 0) { p.mag_declination_source = (int)g.below(8); } if (g.below(4) == 0) { p.gps_check_mask = (int)g.below(512); }
	if (g.below(4) == 0) { p.sensor_interval_min_ms = (int)g.range(5, 60); } if (g.below(4) == 0) { p.reset_timeout_max = (unsigned)g.range(1000000, 20000000); } if (g.below(4) == 0) { p.no_aid_timeout_max = (unsigned)g.range(500000, 10000000); }
	if (g.below(4) == 0) { p.static_pressure_coef_xp = (float)g.sym(0.5); p.static_pressure_coef_xn = (float)g.sym(0.5); p.static_pressure_coef_yp = (float)g.sym(0.5); p.static_pressure_coef_yn = (float)g.sym(0.5); p.static_pressure_coef_z = (float)g.sym(0.5); }
#undef f
	return log;
}

static inline const char *genStress(pbt::Ctx &c, Stress &s, StressWant w)
{
	auto &g = c.g; Want o; o.T = w.T; const char *mode = genAny(c, s, o); if (w.params && g.below(2)) { s.desc += stressParams(c, s.par); s.kinds |= 1; }
	if (g.below(6) == 0) { s.par.fusion_mode |= (int)g.below(512); } if (g.below(10) == 0) { s.par.mag_fusion_type = (int)g.below(6); } if (g.below(8) == 0) { s.par.vdist_sensor_type = (int)g.below(4); }
	for (int k = MAG; k < CTRL; k++) { if (!s.sn[k].on && g.below(8) == 0) { s.sn[k].on = true; s.sn[k].rate = g.real(5, 60); s.sn[k].delayMs = g.real(0, 150); } }
	s.setDelays(); s.build(); const double T = s.T;
	const int n = w.maxFaults ? (int)g.below(w.maxFaults + 1) : 0; std::vector<char> dead(s.events.size(), 0);
	auto window = [&](double &a, double &b, double lo, double hi) { a = g.real(g.below(4) ? 10 : 0, T); b = a + g.logu(lo, hi); };
	auto inside = [&](const Ev_ &e, double a, double b) { const double t = s.sec(e.t); return t >= a && t < b; };
	auto rv = [&](double a) { return matrix::Vector3f((float)g.sym(a), (float)g.sym(a), (float)g.sym(a)); };
	for (int f = 0; f < n; f++) {
		double a, b; char buf[160]; const int kind = (int)g.below(w.ops ? 12 : 8); Kind k = (Kind)(MAG + g.below(CTRL - MAG)); for (int t = 0; t < 4 && !s.sn[k].on; t++) { k = (Kind)(MAG + g.below(CTRL - MAG)); }
		if (!w.imu && (kind == 4 || kind == 5)) { continue; }
		s.kinds |= 2u << kind;
		switch (kind) {
		case 0: case 1: // dropout
			window(a, b, 0.2, 25); for (size_t i = 0; i < s.events.size(); i++) { if (s.events[i].k == k && inside(s.events[i], a, b)) { dead[i] = 1; } } std::snprintf(buf, sizeof buf, "%s missing %.2f..%.2f; ", kindName[k], a, b); s.desc += buf; break;
		case 2: case 3: { // outliers or a sustained error
			const bool one = g.below(3) == 0; if (one) { a = g.real(0, T); b = T; } else { window(a, b, 0.2, 15); } const double m = g.logu(0.1, w.extreme ? 5e5 : 100); const bool rnd = g.below(2); const auto d = rv(1); bool done = false; pbt::Noise z(g.seed());
			auto gs = [&](double x) { return (float)(x * (rnd ? z.tri() : 1.0)); };
			for (auto &e : s.events) { if (e.k != k || !inside(e, a, b) || (one && done)) { continue; } done = true;
				switch (k) {
				case MAG: s.mag[e.i].mag += d * gs(std::min(m, 10.0)); break; case BARO: s.baro[e.i].hgt += gs(m); break;
				case GPS: { auto &q = s.gps[e.i]; const int part = (int)(m * 1e3) % 5; if (part == 0) { q.lat = (int)std::max(-9e8, std::min(9e8, q.lat + (double)gs(m) * 90)); } else if (part == 1) { q.alt = (int)std::max(-2e9, std::min(2e9, q.alt + (double)gs(m) * 1e3)); } else if (part == 2) { q.vel_ned += d * gs(std::min(m, 500.0)); } else if (part == 3) { q.fix_type = (uint8_t)((int)m % 4); q.nsats = (uint8_t)((int)m % 7); } else { q.sacc = q.eph = q.epv = (float)std::fabs(gs(m)); } break; }
				case ASP: s.asp[e.i].true_airspeed = std::fabs(s.asp[e.i].true_airspeed + gs(std::min(m, 500.0))); s.asp[e.i].eas2tas = 1; break; case RNG: s.rng[e.i].rng = std::fabs(gs(m)); s.rng[e.i].quality = (int)(m * 10) % 3 ? 100 : 0; break;
				case FLOW: s.flow[e.i].flow_xy_rad += matrix::Vector2f(d(0), d(1)) * gs(std::min(m, 1e3)); if ((int)(m * 1e3) % 3 == 0) { s.flow[e.i].quality = (uint8_t)((int)m % 256); } break;
				case EV: { auto &q = s.ev[e.i]; const int part = (int)(m * 1e3) % 4; if (part == 0) { q.pos += d * gs(m); } else if (part == 1) { q.vel += d * gs(std::min(m, 500.0)); } else if (part == 2) { q.quat = matrix::Quatf(matrix::Eulerf(3 * d(0), d(1), 3 * d(2))); } else { q.posVar = matrix::Vector3f(1, 1, 1) * (float)std::fabs(gs(m)); q.velCov = matrix::eye<float, 3>() * (float)std::fabs(gs(m)); q.angVar = (float)std::fabs(gs(m)); } break; }
				case AUX: s.aux[e.i].vel += d * gs(std::min(m, 500.0)); break; default: break;
				} }
			std::snprintf(buf, sizeof buf, "%s off by %g %.2f..%.2f%s; ", kindName[k], m, a, b, one ? " (one sample)" : ""); s.desc += buf; break; }
		case 4: { // IMU gap
			window(a, b, 0.01, 2); uint64_t last = 0; size_t first = s.imu.size(); for (size_t i = 0; i < s.events.size(); i++) { if (s.events[i].k != IMU) { continue; } if (inside(s.events[i], a, b)) { dead[i] = 1; } else if (s.sec(s.events[i].t) >= b && first == s.imu.size()) { first = s.events[i].i; } else if (s.sec(s.events[i].t) < a) { last = s.events[i].t; } }
			const bool report = g.below(2); if (report && first < s.imu.size() && last) { auto &u = s.imu[first]; const float dt = (float)(1e-6 * (double)(u.time_us - last)), k2 = dt / u.delta_ang_dt; u.delta_ang_dt = u.delta_vel_dt = dt; u.delta_ang *= k2; u.delta_vel *= k2; } std::snprintf(buf, sizeof buf, "imu missing %.3f..%.3f%s; ", a, b, report ? " (interval reported)" : ""); s.desc += buf; break; }
		case 5: { // shock, spin or clipping
			window(a, b, 0.01, 4); const double ac = g.below(2) ? g.logu(1, 500) : 0, om = g.below(2) ? g.logu(0.1, 35) : 0; const auto da = rv(1), dw = rv(1); const bool rnd = g.below(2), clip = g.below(2); pbt::Noise z(g.seed());
			for (auto &e : s.events) { if (e.k == IMU && inside(e, a, b)) { auto &u = s.imu[e.i]; const float r = rnd ? (float)z.tri() : 1.f; u.delta_vel += da * (r * (float)ac * u.delta_vel_dt); u.delta_ang += dw * (r * (float)om * u.delta_ang_dt); if (clip) { u.delta_vel_clipping[0] = z.uni() < 0.5; u.delta_vel_clipping[2] = z.uni() < 0.5; } } }
			std::snprintf(buf, sizeof buf, "imu %s %.2f..%.2f acc %.3g rate %.3g%s; ", rnd ? "vibration" : "shock", a, b, ac, om, clip ? " clipping" : ""); s.desc += buf; break; }
		case 6: { // heading/field disturbance: magnetometer rotated
			window(a, b, 0.5, 20); const double r = g.sym(M_PI), sc = g.below(2) ? 1 : g.real(0.3, 2); for (auto &e : s.events) { if (e.k == MAG && inside(e, a, b)) { s.mag[e.i].mag = vf(sc * qrot(qfromrotvec({0, 0, r}), dv(s.mag[e.i].mag))); } } std::snprintf(buf, sizeof buf, "mag rotated by %.2f scaled %.2f %.2f..%.2f; ", r, sc, a, b); s.desc += buf; break; }
		case 7: { // GPS fix lost
			window(a, b, 0.2, 15); for (auto &e : s.events) { if (e.k == GPS && inside(e, a, b)) { s.gps[e.i].fix_type = (uint8_t)((int)(a * 10) % 3); s.gps[e.i].nsats = 0; } } std::snprintf(buf, sizeof buf, "gps fix lost %.2f..%.2f; ", a, b); s.desc += buf; break; }
		default: { // status, configuration and API
			const int m = (int)g.range(1, 4); for (int j = 0; j < m; j++) { Op q{s.start + (uint64_t)(g.real(g.below(4) ? 10 : 0, T) * 1e6), (int)g.below(22), 0, {0, 0, 0}};
				switch (q.op) {
				case 4: q.i = (int)g.below(512); if (g.below(2)) { q.i = s.par.fusion_mode ^ (1 << g.below(9)); } break; case 5: q.i = (int)g.below(4); break; case 6: q.i = (int)g.below(6); break; case 7: q.i = (int)g.below(4); break;
				case 12: { double la, lo; s.latlon({g.sym(1000), g.sym(1000), 0}, la, lo); q.v[0] = la; q.v[1] = lo; q.v[2] = s.alt0 + g.sym(200); break; } case 15: q.i = (int)g.below(10000000); break; case 16: q.v[0] = g.real(0.5, 1.3); break;
				case 17: q.v[0] = g.real(0.5, 10); q.v[1] = g.real(1, 50); break; case 18: q.v[0] = g.real(0.01, 1); q.v[1] = g.real(2, 50); break; case 20: q.v[0] = g.real(1, 10); break; default: q.i = (int)g.below(2); }
				s.ops.push_back(q); std::snprintf(buf, sizeof buf, "%s %d at %.2f; ", opName[q.op], q.i, s.sec(q.t)); s.desc += buf; }
			break; }
		}
	}
	std::stable_sort(s.ops.begin(), s.ops.end(), [](const Op &x, const Op &y) { return x.t < y.t; });
	size_t o2 = 0; for (size_t i = 0; i < s.events.size(); i++) { if (!dead[i]) { s.events[o2++] = s.events[i]; } } s.events.resize(o2);
	return mode;
}
} // namespace sim
