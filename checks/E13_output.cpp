// LIB: EKF geo/geo.cpp geo_lookup/geo_mag_declination.cpp
// TECHNIQUE: model-based property testing: published outputs compared after every IMU sample with a double-precision output-predictor model over random simulated flights with faults
#include "ekf_stress.hpp"
#include "output_model.hpp"
using namespace sim;

LAW(model, 1800, 20000)
{
	Stress s; StressWant w; w.T = 30; const char *mode = genStress(c, s, w); c.cls(mode); auto f = std::make_unique<Ekf>(); s.init(*f); OutputModel m; m.N = imuBufferLength(*f->getParamHandle()); int n = 0, rs = 0; double svm = 1, spm = 1, fast = -1e9; const char *d = s.desc.c_str();
	for (auto &e : s.events) {
		const bool step = s.feed(*f, e);
		if (e.k != IMU) { continue; } const auto &u = s.imu[e.i]; const double t = s.sec(e.t);
		if (!m.started) { if (f->covariances()(4, 4) <= 0) { continue; } m.start(*f, u); m.rc.n[4] = f->state_reset_status().quat_counter; }
		const int r = m.resets(*f); if ((r & 8) && m.N == 1) { m.vnow.p = f->getStateAtFusionHorizonAsVector()(9); for (auto &w : m.vbuf) { w.p = m.vnow.p; } } rs += r != 0; m.step(*f, u, step); n += step;
		const auto q = dq(f->getQuaternion()); const D3 er = rotvec(qmul(q, qconj(m.now.q))), ev = dv(f->getVelocity()) - m.velocity(), ep = dv(f->getPosition()) - m.position();
		const double sv = svm = std::max(svm, 1 + norm(m.now.v)), sp = spm = std::max(spm, 1 + norm(m.now.p));
		// turning by radians within the fusion delay the corrections act against themselves and rounding grows
		if (norm(dv(u.delta_ang)) > 6 * u.delta_ang_dt) { fast = t; } const double grow = t - fast < 6 ? 50 : 1;
		auto chk = [&](const char *what, double err, double tol) { tol *= grow; c.worst(what, err / tol); PBT_CHECK(c, err <= tol, "%s off by %g (tolerance %g) at %.3f s, resets %d [%s]", what, err, tol, t, r, d); };
		chk("attitude", norm(er), 3e-4); chk("velocity", norm(ev), 5e-5 * sv); chk("position", norm(ep), 5e-5 * sp); chk("vertical velocity", std::fabs(f->getVerticalPositionDerivative() - m.vertVel()), n < 50 ? 1e-2 * sp : m.N == 1 ? 2e-2 * sv : 1e-4 * sv + 1e-5 * sp);
		chk("velocity derivative", norm(dv(f->getVelocityDerivative()) - m.deriv), 3e-4 * (10 + norm(m.deriv)));
		if (step) { const auto k = f->getOutputTrackingError(); for (int i = 0; i < 3; i++) { chk(i == 0 ? "attitude tracking error" : i == 1 ? "velocity tracking error" : "position tracking error", std::fabs(k(i) - m.track[i]), (i == 0 ? 3e-4 : i == 1 ? 5e-5 * sv : 5e-5 * sp)); } }
	}
	c.nontrivial(n > 500); c.cls(rs > 0, "resets");
}

// the published solution against the delayed estimate carried forward, without any correction, by the IMU samples since then
LAW(propagated, 750, 8000)
{
	Scenario s; Want o; o.T = 30; const char *mode = genAny(c, s, o); s.setDelays(); s.build(); c.cls(mode); auto f = std::make_unique<Ekf>(); s.init(*f); int n = 0; std::deque<estimator::imuSample> h; std::deque<std::pair<uint64_t, matrix::Vector3f>> tr; ResetCount k, k0; uint64_t lastReset = 0;
	for (auto &e : s.events) {
		if (e.k != IMU) { s.apply(*f, e); continue; } const auto &u = s.imu[e.i];
		// the attitude predicted with new IMU data before the update is the one the update publishes
		f->setIMUData(u); const Q4 pred = dq(f->calculate_quaternion()); ResetCount before; before.read(*f); const bool step = f->update(); ResetCount after; after.read(*f); h.push_back(u);
		if (f->attitude_valid() && !after.since(before, 4)) { const double ed = norm(rotvec(qmul(dq(f->getQuaternion()), qconj(pred)))), tol = step ? 1e-3 : 2e-6; c.worst(step ? "attitude predicted ahead of a step" : "attitude predicted", ed / tol); PBT_CHECK(c, ed < tol, "attitude predicted ahead of the update %.3g rad from the published one at %.3f s", ed, s.sec(e.t)); } const auto &del = f->get_imu_sample_delayed(); while (!h.empty() && h.front().time_us <= del.time_us) { h.pop_front(); }
		if (step) { tr.push_back({u.time_us, f->getOutputTrackingError()}); while (tr.front().first + 2 * (u.time_us - del.time_us) + 200000 < u.time_us) { tr.pop_front(); } }
		k.read(*f); for (int i = 0; i < 5; i++) { if (k.since(k0, i)) { lastReset = u.time_us; } } k0 = k; const double t = s.sec(e.t); if (!step || t < 15 || u.time_us - lastReset < 3000000) { continue; }
		const auto x = f->getStateAtFusionHorizonAsVector(); Q4 q{x(0), x(1), x(2), x(3)}; D3 v{x(4), x(5), x(6)}, p{x(7), x(8), x(9)}; const D3 gb = dv(f->getGyroBias()), ab = dv(f->getAccelBias());
		for (auto &w : h) { q = qnormalize(qmul(q, qfromrotvec(dv(w.delta_ang) - w.delta_ang_dt * gb))); const D3 v0 = v; v = v + qrot(q, dv(w.delta_vel) - w.delta_vel_dt * ab) + w.delta_vel_dt * D3{0, 0, 9.80665}; p = p + (0.5 * w.delta_vel_dt) * (v + v0); }
		const D3 r = dv(f->getParamHandle()->imu_pos_body); v = v - qrot(q, cross((1.0 / u.delta_ang_dt) * dv(u.delta_ang), r)); p = p - qrot(q, r);
		const double eA = norm(rotvec(qmul(dq(f->getQuaternion()), qconj(q)))), eV = norm(dv(f->getVelocity()) - v), eP = norm(dv(f->getPosition()) - p), lag = 1e-6 * (double)(u.time_us - del.time_us); n++;
		double tk[3]{}; for (auto &w : tr) { for (int i = 0; i < 3; i++) { tk[i] = std::max(tk[i], (double)w.second(i)); } } const double tA = 0.002 + 3 * tk[0], tV = 0.02 + 2 * tk[1] + 15 * lag * tA, tP = 0.02 + 2 * tk[2] + lag * (2 * tk[1] + tV);
		c.worst("attitude", eA / tA); c.worst("velocity", eV / tV); c.worst("position", eP / tP); PBT_CHECK(c, eA < tA && eV < tV && eP < tP, "published attitude %.4f rad (%.4f allowed), velocity %.3f m/s (%.3f), position %.3f m (%.3f) from the propagated estimate at %.3f s", eA, tA, eV, tV, eP, tP, t);
		PBT_CHECK(c, h.size() > 0 || del.time_us >= u.time_us, "no IMU data newer than the fusion horizon");
	}
	if (!n) { c.discard(); return; } c.nontrivial(true);
}

// the fusion horizon lags the newest IMU data by the largest delay of the sensors in use
LAW(lag, 4500, 40000)
{
	auto &g = c.g; auto f = std::make_unique<Ekf>(); auto &p = *f->getParamHandle(); p.fusion_mode = (int)g.below(512); p.vdist_sensor_type = (int)g.below(4); p.mag_fusion_type = (int)g.below(6); p.range_aid = (int)g.below(2);
	const double top = g.pick<double>({30, 100, 300, 1000}); auto d = [&](float &x) { x = g.below(8) ? (float)(g.below(2) ? std::floor(g.real(0, top)) : g.real(0, top)) : 0; }; d(p.mag_delay_ms); d(p.baro_delay_ms); d(p.gps_delay_ms); d(p.airspeed_delay_ms); d(p.range_delay_ms); d(p.flow_delay_ms); d(p.ev_delay_ms); d(p.auxvel_delay_ms); p.sensor_interval_min_ms = (int)g.range(5, 40);
	double m = std::max(std::max(p.baro_delay_ms, p.auxvel_delay_ms), p.airspeed_delay_ms); const char *who = "always used";
	auto use = [&](bool on, float x, const char *n) { if (on && x > m) { m = x; who = n; } }; use(p.mag_fusion_type != MAG_FUSE_TYPE_NONE, p.mag_delay_ms, "mag"); use(p.range_aid || p.vdist_sensor_type == VDIST_SENSOR_RANGE || (p.terrain_fusion_mode & 1), p.range_delay_ms, "range"); use((p.fusion_mode & MASK_USE_GPS) || p.vdist_sensor_type == VDIST_SENSOR_GPS, p.gps_delay_ms, "gps"); use((p.fusion_mode & MASK_USE_OF) || (p.terrain_fusion_mode & 2), p.flow_delay_ms, "flow"); use((p.fusion_mode & (MASK_USE_EVPOS | MASK_USE_EVYAW | MASK_USE_EVVEL)) || p.vdist_sensor_type == VDIST_SENSOR_EV, p.ev_delay_ms, "vision"); c.cls(who);
	const int dt = (int)g.pick({1000, 2000, 2500, 4000, 5000, 10000}); uint64_t t = g.below(2) ? 1000000 : g.seed() >> 12; const uint64_t t0 = t; bool filled = false; int n = 0;
	for (int i = 0; i < (int)((1.5e3 * m + 5e5) / dt); i++) { t += dt; estimator::imuSample u; u.time_us = t; u.delta_ang_dt = u.delta_vel_dt = 1e-6f * dt; u.delta_vel = matrix::Vector3f(0, 0, -9.80665f * 1e-6f * dt); f->setIMUData(u); f->update(); if (t - t0 < (uint64_t)(1e3 * m + 1e5 + 0.1 * 1e3 * m)) { continue; }
		filled = true; n++; const bool odd = dt == 4000; const double lag = 1e-3 * (double)(t - f->get_imu_sample_delayed().time_us), lo = (odd ? 0.75 : 1) * m - 1e-3 * dt - 0.001, hi = (odd ? 1.3 : 1) * m + 20 + 2e-3 * dt;
		PBT_CHECK(c, lag >= lo && lag <= hi, "fusion horizon lags by %.3f ms (%.3f..%.3f expected), the largest delay is %.3f ms (%s), IMU interval %d us", lag, lo, hi, m, who, dt); }
	c.nontrivial(filled && n > 5 && m > 0);
}
int main(int argc, char **argv) { return pbt::run("E13", "a flight is non-trivial with more than 500 filter steps", argc, argv); }
