// LIB: EKF geo/geo.cpp geo_lookup/geo_mag_declination.cpp airdata/WindEstimator.cpp
// FLAGS: -O1 -fsanitize=address,undefined,float-cast-overflow -fno-sanitize-recover=all
// TECHNIQUE: API fuzzing under address and undefined-behaviour sanitizers: random call sequences with arbitrary contents and time stamps and corrupted random flights, followed by re-initialisation with a random good flight whose end must be healthy
#include "ekf_stress.hpp"
#include <airdata/WindEstimator.hpp>
#include <geo/geo.h>
using namespace sim;
using matrix::Vector3f; using matrix::Vector2f;

// arbitrary values: what a broken driver may hand over
struct Bad {
	pbt::Gen &g; double p; // p: probability that a value is bad
	float f(double ok) { if (g.real(0, 1) >= p) { return (float)ok; } switch (g.below(8)) { case 0: return NAN; case 1: return INFINITY; case 2: return -INFINITY; case 3: return 0; case 4: return (float)g.signedLog(1e-30, 1e30); case 5: return (float)g.pick({3.4e38, -3.4e38, 1e-45, -0.0}); case 6: return (float)(-ok * g.logu(1, 1e6)); default: return g.anyFloat(); } }
	Vector3f v(Vector3f a) { return Vector3f(f(a(0)), f(a(1)), f(a(2))); }
	uint64_t t(uint64_t ok) { if (g.real(0, 1) >= p) { return ok; } switch (g.below(8)) { case 0: return 0; case 1: return ok - std::min<uint64_t>(ok, g.below(100000)); case 2: return ok - std::min<uint64_t>(ok, g.below(1000000000)); case 3: return ok + g.below(1000000); case 4: return ok + (uint64_t)g.logu(1e6, 1e17); case 5: return UINT64_MAX - g.below(1000000); case 6: return (1ull << 63) + g.below(1000); default: return g.seed(); } }
	uint8_t u8(int ok) { return g.real(0, 1) >= p ? (uint8_t)ok : (uint8_t)g.below(256); }
	int32_t i32(int32_t ok) { return g.real(0, 1) >= p ? ok : g.below(2) ? (int32_t)g.seed() : (int32_t)g.pick({INT32_MIN, INT32_MAX, 0, -1, 1800000000, -1800000000, 900000000, -900000000}); }
};

static void randomParams(pbt::Ctx &c, estimator::parameters &p)
{
	auto &g = c.g; stressParams(c, p); p.fusion_mode = g.below(3) ? (int)g.below(512) : MASK_USE_GPS; p.vdist_sensor_type = (int)g.below(4); p.mag_fusion_type = (int)g.below(6); p.terrain_fusion_mode = (int)g.below(4); p.range_aid = (int)g.below(2); p.synthesize_mag_z = (int)g.below(2); p.check_mag_strength = (int)g.below(2); p.mag_declination_source = (int)g.below(8); p.gps_check_mask = (int)g.below(512);
	auto d = [&](float &x) { if (g.below(2)) { x = (float)g.real(0, 300); } if (g.below(8) == 0) { x = 0; } };
	d(p.mag_delay_ms); d(p.baro_delay_ms); d(p.gps_delay_ms); d(p.airspeed_delay_ms); d(p.range_delay_ms); d(p.flow_delay_ms); d(p.ev_delay_ms); d(p.auxvel_delay_ms);
	if (g.below(2)) { p.sensor_interval_min_ms = (int)g.range(5, 100); } p.flow_qual_min = (int)g.below(256); if (g.below(2)) { p.rng_sens_pitch = (float)g.sym(1.5); }
	auto l = [&](Vector3f &x) { if (g.below(2)) { x = Vector3f((float)g.sym(2), (float)g.sym(2), (float)g.sym(2)); } }; l(p.imu_pos_body); l(p.gps_pos_body); l(p.rng_pos_body); l(p.flow_pos_body); l(p.ev_pos_body);
}

// everything that can be asked
static void ask(pbt::Ctx &c, Ekf &f) { snapshot(f); f.isHorizontalAidingActive(); f.isOnlyActiveSourceOfHorizontalAiding(c.g.below(2)); f.isOtherSourceOfHorizontalAidingThan(c.g.below(2)); if (c.g.below(4) == 0) { f.print_status(); } f.clear_warning_events(); f.clear_information_events(); }

static void randomCall(pbt::Ctx &c, Ekf &f, Bad &b, uint64_t t)
{
	auto &g = c.g; auto &p = *f.getParamHandle(); auto n3 = [&](double s) { return Vector3f((float)(s * g.gauss()), (float)(s * g.gauss()), (float)(s * g.gauss())); };
	switch (g.below(34)) {
	case 0: case 1: { estimator::magSample s; s.time_us = b.t(t); s.mag = b.v(Vector3f(0.2f, 0, 0.4f) + n3(0.02)); for (int i = (int)g.below(40) ? 1 : (int)g.range(1, 600); i > 0; i--) { f.setMagData(s); } break; }
	case 2: case 3: { estimator::baroSample s; s.time_us = b.t(t); s.hgt = b.f(100 + g.gauss()); for (int i = (int)g.below(40) ? 1 : (int)g.range(1, 600); i > 0; i--) { f.setBaroData(s); } break; }
	case 4: case 5: { estimator::gps_message s; s.time_usec = b.t(t); s.lat = b.i32(474000000); s.lon = b.i32(85000000); s.alt = b.i32(488000); s.yaw = b.f(0.3); s.yaw_offset = b.f(0); s.fix_type = b.u8(3); s.eph = b.f(1); s.epv = b.f(1); s.sacc = b.f(0.3); s.vel_m_s = b.f(1); s.vel_ned = b.v(n3(1)); s.vel_ned_valid = g.below(2); s.nsats = b.u8(12); s.pdop = b.f(1.2); f.setGpsData(s); break; }
	case 6: { estimator::airspeedSample s; s.time_us = b.t(t); s.true_airspeed = b.f(15); s.eas2tas = b.f(1); f.setAirspeedData(s); break; }
	case 7: { estimator::rangeSample s; s.time_us = b.t(t); s.rng = b.f(2 + 0.1 * g.gauss()); s.quality = (int8_t)b.u8(100); f.setRangeData(s); break; }
	case 8: { estimator::flowSample s; s.time_us = b.t(t); s.quality = b.u8(200); s.flow_xy_rad = Vector2f(b.f(0.01 * g.gauss()), b.f(0.01 * g.gauss())); s.gyro_xyz = b.v(n3(0.01)); s.dt = b.f(0.05); f.setOpticalFlowData(s); break; }
	case 9: case 10: { estimator::extVisionSample s; s.time_us = b.t(t); s.pos = b.v(n3(1)); s.vel = b.v(n3(1)); s.quat = matrix::Quatf(b.f(1), b.f(0.1), b.f(0), b.f(0.2)); s.posVar = b.v(Vector3f(0.01f, 0.01f, 0.01f)); for (int i = 0; i < 3; i++) { for (int j = 0; j < 3; j++) { s.velCov(i, j) = b.f(i == j ? 0.01 : 0); } } s.angVar = b.f(0.01); s.vel_frame = g.below(2) ? estimator::velocity_frame_t::BODY_FRAME_FRD : estimator::velocity_frame_t::LOCAL_FRAME_FRD; f.setExtVisionData(s); break; }
	case 11: { estimator::auxVelSample s; s.time_us = b.t(t); s.vel = b.v(n3(1)); s.velVar = b.v(Vector3f(0.1f, 0.1f, 0.1f)); f.setAuxVelData(s); break; }
	case 12: f.set_in_air_status(g.below(4)); break; case 13: f.set_is_fixed_wing(g.below(2)); break; case 14: f.set_fuse_beta_flag(g.below(2)); break; case 15: f.set_gnd_effect_flag(g.below(2)); break;
	case 16: if (g.below(4) == 0) { f.resetImuBias(); } break; case 17: if (g.below(4) == 0) { f.resetGyroBias(); } break; case 18: if (g.below(4) == 0) { f.resetAccelBias(); } break; case 19: if (g.below(4) == 0) { f.resetMagBias(); } break;
	case 20: if (g.below(4) == 0) { double la = 47 + g.sym(1), lo = 8 + g.sym(1); if (g.real(0, 1) < b.p) { la = g.pick<double>({NAN, 1e300, 91, -90, 90, 0}); } if (g.real(0, 1) < b.p) { lo = g.pick<double>({NAN, 1e300, 181, -180, 541, -1000}); } f.setEkfGlobalOrigin(la, lo, b.f(400)); } break;
	case 21: f.set_air_density(b.f(1.2)); break; case 22: f.set_optical_flow_limits(b.f(5), b.f(0.1), b.f(20)); break; case 23: f.set_rangefinder_limits(b.f(0.1), b.f(20)); break; case 24: f.set_min_required_gps_health_time((uint32_t)g.below(10000000)); break;
	case 25: case 26: ask(c, f); break; case 27: f.update(); break;
	case 28: if (g.below(8) == 0) { f.init(b.t(t)); } break; case 29: if (g.below(30) == 0) { randomParams(c, p); } break;
	case 30: p.fusion_mode = g.below(3) ? p.fusion_mode ^ (1 << g.below(9)) : (int)g.below(512); break; case 31: if (g.below(4) == 0) { p.vdist_sensor_type = (int)g.below(4); } break; case 32: if (g.below(4) == 0) { p.mag_fusion_type = (int)g.below(6); } break;
	case 33: if (g.below(4) == 0) { f.set_in_air_status(true); } break;
	default: break;
	}
}

// re-initialisation with good data must give a healthy estimator, whatever happened before
static void recover(pbt::Ctx &c, Ekf &f, uint64_t now)
{
	auto &g = c.g; Scenario s; Want o; o.T = 42; o.gps = true; const int mode = (int)g.below(4); o.ev = mode == 1; o.flow = o.range = mode == 2; o.wing = mode == 3; genScenario(c, s, o); static const char *const names[] = {"GPS", "GPS and vision", "GPS and flow", "fixed wing"};
	if (o.ev) { s.par.fusion_mode = MASK_USE_GPS | MASK_USE_EVPOS | MASK_USE_EVVEL; } s.setDelays(); if (g.below(4) && now < (1ull << 40)) { s.start = now + (g.below(2) ? 5000 : g.below(100000000)); }
	s.build(); s.init(f); f.clear_warning_events(); f.set_min_required_gps_health_time(g.below(2) ? 10000000 : 5000000); f.set_air_density(1.225f);
	const bool ok = f.init(s.start); PBT_CHECK(c, ok, "re-initialisation refused"); c.cls(names[mode]);
	double badTilt = 0, badYaw = 0, badV = 0, badP = 0; int n = 0, aiding = 0; D3 off{0, 0, 0}; double fail = 0; const char *dbg = getenv("DBG");
	for (auto &e : s.events) { s.apply(f, e); if (e.k != IMU) { continue; } const double t = s.sec(e.t);
		if (dbg && (e.i % 400) == 0) { auto v = f.getVelocity(); fprintf(stderr, "%.2f ctrl %llx fault %x q %.3f %.3f %.3f %.3f v %.2f %.2f %.2f bias %.3f %.3f\n", t, (unsigned long long)f.control_status().value, (unsigned)f.fault_status().value, f.getQuaternion()(0), f.getQuaternion()(1), f.getQuaternion()(2), f.getQuaternion()(3), v(0), v(1), v(2), f.getGyroBias()(2), f.getAccelBias()(2)); }
		auto fl = f.control_status_flags(); if (t > 9) { PBT_CHECK(c, fl.tilt_align && f.attitude_valid(), "attitude not valid %.2f s after re-initialisation", t); PBT_CHECK(c, std::isfinite(f.getQuaternion()(0)), "attitude not finite %.2f s after re-initialisation", t); }
		if (t < s.T - 5) { continue; }
		const D3 v = s.vAt(t, -1.0 * dv(s.par.imu_pos_body)); const D3 dvl = dv(f.getVelocity()) - v; const D3 er = rotvec(qmul(dq(f.getQuaternion()), qconj(s.m.q(t)))); badTilt = std::max(badTilt, std::hypot(er.x, er.y)); badYaw = std::max(badYaw, std::fabs(er.z)); badV = std::max(badV, norm(dvl)); n++; aiding += fl.gps; fail += (f.fault_status().value & 0x1ffff) != 0;
		const auto V = f.getVelocityDerivative(), T = f.getOutputTrackingError(), M = f.getImuVibrationMetrics(); for (int i = 0; i < 3; i++) { PBT_CHECK(c, std::isfinite(V(i)) && std::isfinite(T(i)) && std::isfinite(M(i)) && std::isfinite(f.getPosition()(i)), "output %d not finite after re-initialisation: velocity derivative %g tracking error %g vibration %g position %g", i, V(i), T(i), M(i), f.getPosition()(i)); }
	}
	(void)badP; PBT_CHECK(c, n > 100, "no flight"); PBT_CHECK(c, aiding == n, "GPS aids only %d of %d of the last samples after re-initialisation (%s)", aiding, n, names[mode]); PBT_CHECK(c, f.local_position_is_valid() && f.global_position_is_valid(), "position not valid at the end of the good flight");
	c.worst("tilt error", badTilt / 0.15); c.worst("yaw error", badYaw / 0.5); c.worst("velocity error", badV / 2);
	PBT_CHECK(c, badTilt < 0.15 && badYaw < 0.5 && badV < 2, "errors after re-initialisation (%s): tilt %.3f rad, yaw %.3f rad, velocity %.3f m/s", names[mode], badTilt, badYaw, badV);
	PBT_CHECK(c, fail < 0.1 * n, "numerical faults in %g of %d samples after re-initialisation", fail, n);
	auto a = snapshot(f, 0, false); for (size_t i = 0; i < a.v.size(); i++) { if (!std::strcmp(a.n[i], "state") || !std::strcmp(a.n[i], "covariance")) { PBT_CHECK(c, std::isfinite(a.v[i]), "%s not finite after re-initialisation", a.n[i]); } }
}

// the good flights themselves are fine
LAW(fresh, 60, 2000) { auto f = std::make_unique<Ekf>(); if (c.g.below(2)) { randomParams(c, *f->getParamHandle()); } recover(c, *f, 0); c.nontrivial(true); }

LAW(calls, 400, 12000)
{
	auto &g = c.g; auto f = std::make_unique<Ekf>(); Bad b{g, g.below(5) == 0 ? 0.0 : g.logu(0.001, 0.7)}; uint64_t t = g.below(4) ? 1000000 + g.below(100000000) : g.below(1000);
	if (g.below(4)) { randomParams(c, *f->getParamHandle()); } const int n = (int)g.logu(50, 12000), dt = (int)g.pick({2500, 4000, 5000, 10000}); const double imuShare = g.real(0.2, 0.9); int imus = 0, steps = 0; bool goodStart = g.below(4); const double p0 = b.p; const int nGood = goodStart ? (int)g.below(n) : 0;
	for (int i = 0; i < n; i++) {
		b.p = i < nGood ? 0 : p0;
		if (g.real(0, 1) < imuShare) { if (b.p > 0 && g.real(0, 1) < b.p * 0.1) { t = b.t(t); } t += dt; estimator::imuSample s; s.time_us = b.t(t); const float d = 1e-6f * dt; s.delta_ang_dt = b.f(d); s.delta_vel_dt = b.f(d); s.delta_ang = b.v(Vector3f((float)(1e-4 * g.gauss()), (float)(1e-4 * g.gauss()), (float)(1e-4 * g.gauss()))); s.delta_vel = b.v(Vector3f(0, 0, -9.81f * d)); if (g.real(0, 1) < b.p) { s.delta_vel_clipping[g.below(3)] = true; } f->setIMUData(s); if (g.real(0, 1) >= b.p * 0.1) { steps += f->update(); } imus++; }
		else { randomCall(c, *f, b, t); }
	}
	ask(c, *f); c.cls(steps > 50, "filter ran"); c.cls(b.p > 0.05, "mostly bad data"); c.cls(b.p == 0, "good data, bad order"); c.nontrivial(n > 100);
	recover(c, *f, t);
}

LAW(flights, 200, 6000)
{
	auto &g = c.g; Stress s; StressWant w; w.T = 30; const char *mode = genStress(c, s, w); c.cls(mode); auto f = std::make_unique<Ekf>(); s.init(*f); const double p = g.logu(1e-4, 0.05), from = g.real(0, s.T); Bad b{g, g.real(0.1, 1)}; int n = 0; uint64_t shift = 0;
	for (auto &e0 : s.events) { Ev_ e = e0; if (s.sec(e.t) > from && g.real(0, 1) < p && e.k < CTRL) { n++;
			switch (e.k) {
			case IMU: { auto &q = s.imu[e.i]; if (g.below(4) == 0) { shift += g.below(3) ? (uint64_t)g.logu(1, 1e8) : 0; q.time_us += shift; } else { q.time_us = b.t(q.time_us); } q.delta_ang = b.v(q.delta_ang); q.delta_vel = b.v(q.delta_vel); q.delta_ang_dt = b.f(q.delta_ang_dt); q.delta_vel_dt = b.f(q.delta_vel_dt); break; }
			case MAG: { auto &q = s.mag[e.i]; q.time_us = b.t(q.time_us); q.mag = b.v(q.mag); break; } case BARO: { auto &q = s.baro[e.i]; q.time_us = b.t(q.time_us); q.hgt = b.f(q.hgt); break; }
			case GPS: { auto &q = s.gps[e.i]; q.time_usec = b.t(q.time_usec); q.lat = b.i32(q.lat); q.lon = b.i32(q.lon); q.alt = b.i32(q.alt); q.vel_ned = b.v(q.vel_ned); q.eph = b.f(q.eph); q.epv = b.f(q.epv); q.sacc = b.f(q.sacc); q.yaw = b.f(q.yaw); q.yaw_offset = b.f(q.yaw_offset); q.pdop = b.f(q.pdop); q.vel_m_s = b.f(q.vel_m_s); break; }
			case ASP: { auto &q = s.asp[e.i]; q.time_us = b.t(q.time_us); q.true_airspeed = b.f(q.true_airspeed); q.eas2tas = b.f(q.eas2tas); break; } case RNG: { auto &q = s.rng[e.i]; q.time_us = b.t(q.time_us); q.rng = b.f(q.rng); break; }
			case FLOW: { auto &q = s.flow[e.i]; q.time_us = b.t(q.time_us); q.dt = b.f(q.dt); q.gyro_xyz = b.v(q.gyro_xyz); q.flow_xy_rad(0) = b.f(q.flow_xy_rad(0)); q.flow_xy_rad(1) = b.f(q.flow_xy_rad(1)); break; }
			case EV: { auto &q = s.ev[e.i]; q.time_us = b.t(q.time_us); q.pos = b.v(q.pos); q.vel = b.v(q.vel); for (int i = 0; i < 4; i++) { q.quat(i) = b.f(q.quat(i)); } q.posVar = b.v(q.posVar); q.angVar = b.f(q.angVar); for (int i = 0; i < 3; i++) { q.velCov(i, i) = b.f(q.velCov(i, i)); } break; }
			case AUX: { auto &q = s.aux[e.i]; q.time_us = b.t(q.time_us); q.vel = b.v(q.vel); q.velVar = b.v(q.velVar); break; } default: break;
			} }
		s.feed(*f, e); if (g.below(400) == 0) { ask(c, *f); } }
	c.nontrivial(n > 0); c.cls(n > 100, "many corrupted samples"); recover(c, *f, s.start + (uint64_t)(s.T * 1e6));
}

// stand-alone emergency yaw estimator, wind estimator and geo functions
LAW(helpers, 400, 12000)
{
	auto &g = c.g; Bad b{g, g.logu(0.005, 1)}; auto any = [&](double ok) { return g.real(0, 1) >= b.p ? ok : g.below(3) ? (double)b.f(ok) : (double)g.anyFloat() * g.pick<double>({1, 1e30, 1e-30}); };
	{
		WindEstimator w; uint64_t t = g.below(2) ? 1000000 : g.below(1000); for (int i = 0; i < 300; i++) { t += g.below(200000); const uint64_t u = b.t(t); matrix::Vector3f v = b.v(Vector3f(10, 2, 0)); matrix::Vector2f vv(b.f(0.3), b.f(0.3)); switch (g.below(6)) { case 0: w.update(u); break; case 1: case 2: w.fuse_airspeed(u, b.f(12), v, vv); break; case 3: case 4: w.fuse_beta(u, v, matrix::Quatf(b.f(1), b.f(0), b.f(0), b.f(0.1))); break; default: { float a[2]; w.get_wind(a); w.get_wind_var(a); w.set_wind_p_noise(b.f(0.1)); w.set_tas_gate(b.u8(3)); w.set_beta_gate(b.u8(1)); w.enforce_airspeed_scale(b.f(-1)); break; } } }
	}
	{
		EKFGSF_yaw y; for (int i = 0; i < 300; i++) { estimator::imuSample s; s.time_us = b.t(1000000 + i * 10000); s.delta_ang = b.v(Vector3f(0, 0, 0.001f)); s.delta_vel = b.v(Vector3f(0, 0, -0.0981f)); s.delta_ang_dt = b.f(0.01); s.delta_vel_dt = b.f(0.01); y.update(s, g.below(2), b.f(10), b.v(Vector3f())); if (g.below(5) == 0) { y.setVelocity(Vector2f(b.f(1), b.f(1)), b.f(0.3)); } if (g.below(20) == 0) { float a, v2, m[5], n[5], e[5], ww[5]; y.getLogData(&a, &v2, m, n, e, ww); y.getYawData(&a, &v2); } }
	}
	for (int i = 0; i < 200; i++) {
		const double la = any(g.sym(90)), lo = any(g.sym(180)), la2 = any(g.sym(90)), lo2 = any(g.sym(180)); float x = 0, y = 0, z = 0; double p = 0, q = 0; map_projection_reference_s r{}; crosstrack_error_s ct{};
		get_mag_declination_degrees((float)la, (float)lo); get_mag_inclination_radians((float)la, (float)lo); get_mag_strength_tesla((float)la, (float)lo); if (g.below(2)) { map_projection_init(&r, la2, lo2); } map_projection_project(&r, la, lo, &x, &y); map_projection_reproject(&r, b.f(100), b.f(-50), &p, &q);
		get_distance_to_next_waypoint(la, lo, la2, lo2); get_bearing_to_next_waypoint(la, lo, la2, lo2); create_waypoint_from_line_and_dist(la, lo, la2, lo2, b.f(10), &p, &q); waypoint_from_heading_and_distance(la, lo, b.f(1), b.f(100), &p, &q); get_vector_to_next_waypoint(la, lo, la2, lo2, &x, &y); add_vector_to_global_position(la, lo, b.f(1), b.f(1), &p, &q);
		get_distance_to_line(&ct, la, lo, la2, lo2, any(g.sym(90)), any(g.sym(180))); get_distance_to_arc(&ct, la, lo, la2, lo2, b.f(100), b.f(0.3), b.f(1)); get_distance_to_point_global_wgs84(la, lo, b.f(0), la2, lo2, b.f(10), &x, &z);
	}
	c.nontrivial(true);
}
int main(int argc, char **argv) { return pbt::run("E03", "an episode is non-trivial with more than 100 calls or at least one corrupted sample", argc, argv); }
