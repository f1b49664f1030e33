// LIB: EKF geo/geo.cpp geo_lookup/geo_mag_declination.cpp
// TECHNIQUE: property-based testing: simulated flights with generated motion, place, sensor suite, delays, lever arms, biases and noise; the estimate compared with the true motion
#include "ekf_sim.hpp"
#include "output_model.hpp"
using namespace sim;

LAW(converge, 1600, 16000)
{
	auto &g = c.g; Scenario s; Want w; w.T = g.pick<double>({60, 80, 110}); const char *mode = genAny(c, s, w); auto &P = s.par; const bool wing = s.m.kind == Motion::WING;
	P.fusion_mode &= ~MASK_USE_DRAG; // the simulated flights have no drag
	if (P.fusion_mode & MASK_ROTATE_EV) { P.fusion_mode &= ~MASK_ROTATE_EV; s.evYaw = 0; } // the rotation is taken from the heading estimate: the position error grows with the distance
	// without a field or vision heading nothing corrects the heading. With GPS the start of GPS use resets a heading that was not taken from the field to the velocity-based estimate, whatever vision says
	if (P.mag_fusion_type == MAG_FUSE_TYPE_INDOOR || (P.mag_fusion_type == MAG_FUSE_TYPE_NONE && (!(P.fusion_mode & MASK_USE_EVYAW) || s.sn[GPS].on))) { P.mag_fusion_type = MAG_FUSE_TYPE_AUTO; }
	// flow samples whose interval does not match the time between the samples taken are dropped by design; flow and range sensors stay above the ground
	if (s.sn[FLOW].on) { s.sn[FLOW].rate = g.real(15, 33); } s.groundH = 0.6; s.setDelays(); s.build();
	const bool gps = P.fusion_mode & MASK_USE_GPS, flowOnly = !gps && s.sn[FLOW].on, evVelOnly = !gps && s.sn[EV].on && !(P.fusion_mode & MASK_USE_EVPOS);
	c.cls(mode); c.note("%s; fusion mode %x, height %d, mag %d, wind %.1f %.1f, lat %.1f", mode, P.fusion_mode, P.vdist_sensor_type, P.mag_fusion_type, s.m.wind.x, s.m.wind.y, s.lat0);
	// listed finding: a vision velocity in the body frame is turned with the estimated heading and fused as if it did not depend on it
	if (s.evBodyVel && (P.fusion_mode & MASK_USE_EVVEL) && (gps || !(P.fusion_mode & MASK_USE_EVYAW)) && pbt::known(c, "body-frame-vision-velocity")) { s.evBodyVel = false; s.build(); }
	auto f = std::make_unique<Ekf>(); s.init(*f); ResetCount r0, r; double settle = s.m.t0 + s.m.ramp * 1.3 + (wing ? 25 : 20); for (double t = s.m.t0; t < s.T && -s.p(t).z < 3; t += 0.1) { settle = std::max(settle, t + 15); } /* heading and field are aligned in flight 1.5 m above the ground */ bool first = true; D3 off{0, 0, 0}; double z0 = 0; long n = 0, rej = 0;
	double worst[10] = {}; static const char *const name[10] = {"tilt (deg)", "heading (deg)", "horizontal velocity", "vertical velocity", "horizontal position", "height", "wind", "gyro bias", "vertical accelerometer bias", "share of steps with a rejected sensor"};
	for (auto &e : s.events) {
		if (!s.apply(*f, e)) { continue; }
		if (s.sec(e.t) < settle) { continue; }
		const double th = s.sec(f->get_imu_sample_delayed().time_us); const auto x = f->getStateAtFusionHorizonAsVector(); const Q4 dq = qmul({x(0), x(1), x(2), x(3)}, qconj(s.m.q(th)));
		const D3 p{x(7), x(8), x(9)}, vt = s.m.v(th), pt = s.p(th); n++;
		if (first) { // the origin and the height offset found up to now must stay
			first = false; r0.read(*f); z0 = p.z - pt.z; uint64_t ot = 0; double la = 0, lo = 0; float al = 0;
			if (f->getEkfGlobalOrigin(ot, la, lo, al)) { off = {(la - s.lat0) * M_PI / 180 * REARTH, wrapd((lo - s.lon0) * M_PI / 180) * REARTH * std::cos(s.lat0 * M_PI / 180), 0}; }
			if (flowOnly || evVelOnly) { off = {pt.x - p.x, pt.y - p.y, 0}; }
		}
		r.read(*f); for (int i = 0; i < 5; i++) { PBT_CHECK(c, !r.since(r0, i), "%s reset at %.2f s, with all sensors consistent since take-off at %.1f s (state horizon error: vel %.2f %.2f %.2f)", ResetCount::name(i), s.sec(e.t), s.m.t0, x(4) - vt.x, x(5) - vt.y, x(6) - vt.z); }
		rej += f->innov_check_fail_status().value != 0;
		const D3 gb = dv(f->getGyroBias()) - s.gyroBias, ab = dv(f->getAccelBias()) - s.accBias;
		const double err[9] = {57.3 * std::acos(std::min(1.0, qrot(dq, {0, 0, 1}).z)), 57.3 * std::fabs(rotvec(dq).z), std::hypot(x(4) - vt.x, x(5) - vt.y), std::fabs(x(6) - vt.z), std::hypot(p.x + off.x - pt.x, p.y + off.y - pt.y), std::fabs(p.z - pt.z - z0),
			wing ? std::hypot(x(22) - s.m.windNow().x, x(23) - s.m.windNow().y) : 0, norm(gb), std::fabs(ab.z)};
		for (int i = 0; i < 9; i++) { worst[i] = std::max(worst[i], err[i]); }
	}
	worst[9] = n ? (double)rej / n : 0; const bool fl = s.sn[FLOW].on, vg = gps && s.sn[EV].on;
	const double lim[10] = {fl ? 7.0 : 2.5, flowOnly ? 25.0 : wing ? 4.0 : fl ? 12.0 : 10.0, flowOnly ? 2.0 : vg ? 2.0 : fl ? 0.8 : gps ? 0.45 : 0.2, flowOnly ? 0.6 : 0.4, flowOnly || evVelOnly ? 1e9 : vg ? 6.0 : 1.3, P.vdist_sensor_type == VDIST_SENSOR_GPS ? 1.2 : P.vdist_sensor_type == VDIST_SENSOR_EV ? 0.9 : 0.5, 0.3, fl ? 0.02 : 0.015, 0.13, 0.01};
	if (n) { for (int i = 0; i < 10; i++) { if (lim[i] < 1e8) { c.worst(std::string(mode) + " " + name[i], worst[i] / lim[i]); PBT_CHECK(c, worst[i] <= lim[i], "error of %s up to %.4g (limit %.4g) from %.1f s to %.1f s, with all sensors consistent since take-off at %.1f s", name[i], worst[i], lim[i], settle, s.T, s.m.t0); } } }
	c.nontrivial(n > 100);
}

// a vision frame turned against north, estimated from the heading: close to its origin the position stays right, whatever the sensor position on the vehicle
LAW(rotated, 300, 4000)
{
	auto &g = c.g; Scenario s; Want w; w.T = 50; w.ev = true; w.gps = false; genScenario(c, s, w); auto &P = s.par; P.mag_declination_deg = (float)(std::atan2(s.magE.y, s.magE.x) * 180 / M_PI); P.mag_declination_source = 0;
	P.fusion_mode = MASK_USE_EVPOS | MASK_ROTATE_EV; s.evYaw = g.sym(M_PI); for (int i = 0; i < 2; i++) { s.m.U[i] = 0; for (int j = 0; j < 2; j++) { s.m.A[i][j] = 0; } } s.m.yawRate = g.sym(0.4); P.ev_pos_body = matrix::Vector3f((float)g.sym(0.6), (float)g.sym(0.6), (float)g.sym(0.4)); s.groundH = 0.6; s.build();
	auto f = std::make_unique<Ekf>(); s.init(*f); const double settle = s.m.t0 + s.m.ramp * 1.3 + 12; double wp = 0, wv = 0; long n = 0; c.note("vision frame turned by %.2f, sensor at %.2f %.2f %.2f", s.evYaw, (double)P.ev_pos_body(0), (double)P.ev_pos_body(1), (double)P.ev_pos_body(2));
	for (auto &e : s.events) {
		if (!s.apply(*f, e) || s.sec(e.t) < settle) { continue; }
		const double th = s.sec(f->get_imu_sample_delayed().time_us); const auto x = f->getStateAtFusionHorizonAsVector(); const D3 vt = s.m.v(th), pt = s.p(th); n++;
		wp = std::max(wp, std::hypot(x(7) - pt.x, x(8) - pt.y)); wv = std::max(wv, std::hypot(x(4) - vt.x, x(5) - vt.y));
	}
	const double lp = 0.3 + 0.02 * s.m.H, lv = 0.4; /* the rotation also takes up tilt errors */ c.worst("position", wp / lp); c.worst("velocity", wv / lv); PBT_CHECK(c, wp <= lp, "horizontal position %.3f m off while hovering at the origin of the vision frame", wp); PBT_CHECK(c, wv <= lv, "horizontal velocity %.3f m/s off while hovering", wv); c.nontrivial(n > 100 && std::fabs(s.evYaw) > 0.3);
}
// sensors mounted away from the IMU give the same estimate as the same sensors at the IMU, whatever the place of the IMU in the body
LAW(lever, 700, 8000)
{
	auto &g = c.g; Scenario s; Want w; w.T = 55; w.noise = false; w.lever = false; w.bias = false; const char *mode = genAny(c, s, w); auto &P = s.par; P.fusion_mode &= ~(MASK_USE_DRAG | MASK_ROTATE_EV); s.evYaw = 0; s.terrainSlope = {0, 0, 0};
	if (P.mag_fusion_type >= MAG_FUSE_TYPE_INDOOR) { P.mag_fusion_type = MAG_FUSE_TYPE_AUTO; } if (s.evBodyVel) { s.evBodyVel = false; } if (s.sn[FLOW].on) { s.sn[FLOW].rate = g.real(15, 33); } for (auto &x : s.sn) { x.jitter = 0; x.delayMs = 5 * std::floor(x.delayMs / 5); }
	s.groundH = 1.5; s.setDelays(); Scenario o = s; auto l = [&](double a) { return matrix::Vector3f((float)g.sym(a), (float)g.sym(a), (float)g.sym(a)); };
	const matrix::Vector3f shift = l(2); auto &Q = o.par; Q.imu_pos_body = shift; Q.gps_pos_body = shift + l(1.2); Q.rng_pos_body = shift + l(0.8); Q.flow_pos_body = shift + l(0.8); Q.ev_pos_body = shift + l(0.8);
	s.build(); o.build(); c.cls(mode); c.note("%s; fusion mode %x, height %d, mag %d; IMU at %.2f %.2f %.2f", mode, P.fusion_mode, P.vdist_sensor_type, P.mag_fusion_type, (double)shift(0), (double)shift(1), (double)shift(2));
	auto a = std::make_unique<Ekf>(), b = std::make_unique<Ekf>(); s.init(*a); o.init(*b); double settle = s.m.t0 + s.m.ramp * 1.3 + 20; for (double t = s.m.t0; t < s.T && -s.p(t).z < 3; t += 0.1) { settle = std::max(settle, t + 15); } long n = 0; D3 mean{0, 0, 0}; double d[6] = {}; bool first = true; D3 p0{0, 0, 0};
	if (s.events.size() != o.events.size()) { c.discard(); return; }
	for (size_t i = 0; i < s.events.size(); i++) {
		const bool st = s.apply(*a, s.events[i]); o.apply(*b, o.events[i]); const double t = s.sec(s.events[i].t); if (!st || t < settle) { continue; }
		const auto x = a->getStateAtFusionHorizonAsVector(), y = b->getStateAtFusionHorizonAsVector(); auto org = [&](Ekf &f) { uint64_t ot = 0; double la = s.lat0, lo = s.lon0; float al = 0; f.getEkfGlobalOrigin(ot, la, lo, al); return f.global_origin_valid() ? D3{(la - s.lat0) * M_PI / 180 * REARTH, wrapd((lo - s.lon0) * M_PI / 180) * REARTH * std::cos(s.lat0 * M_PI / 180), 0} : D3{0, 0, 0}; };
		const D3 dp = D3{y(7) - x(7), y(8) - x(8), y(9) - x(9)} + org(*b) - org(*a); if (first) { p0 = dp; first = false; }
		const Q4 q = qmul({x(0), x(1), x(2), x(3)}, qconj({y(0), y(1), y(2), y(3)})); n++;
		const double e[6] = {norm(rotvec(q)) * 57.3, std::hypot(x(4) - y(4), x(5) - y(5)), std::fabs(x(6) - y(6)), std::hypot(dp.x, dp.y), std::fabs(dp.z - p0.z), s.sn[RNG].on || s.sn[FLOW].on ? std::fabs((double)a->getTerrainVertPos() - x(9) - b->getTerrainVertPos() + y(9)) : 0};
		for (int k = 0; k < 6; k++) { d[k] = std::max(d[k], e[k]); }
	}
	static const char *const name[6] = {"attitude (deg)", "horizontal velocity", "vertical velocity", "horizontal position", "height", "height above ground"};
	const bool wing = s.m.kind == Motion::WING, fl = s.sn[FLOW].on, gps = P.fusion_mode & MASK_USE_GPS, vg = gps && s.sn[EV].on, alt = P.vdist_sensor_type == VDIST_SENSOR_GPS; const bool flowOnly = fl && !gps, evVelOnly = !gps && s.sn[EV].on && !(P.fusion_mode & MASK_USE_EVPOS);
	const double lim[6] = {fl ? 30 : 2.5, fl ? 0.8 : vg ? 0.35 : wing ? 0.2 : 0.08, fl ? 0.4 : wing ? 0.1 : 0.025, flowOnly || evVelOnly ? 1e9 : vg || fl ? 1.3 : wing ? 0.3 : 0.12, fl ? 0.4 : wing ? 0.2 : alt ? 0.08 : 0.04, fl ? 0.4 : wing ? 0.2 : 0.06}; // about three times the largest difference seen; with flow a rejected sample makes a difference
	if (n) { for (int k = 0; k < 6; k++) { if (lim[k] < 1e8) { c.worst(std::string(mode) + " " + name[k], d[k] / lim[k]); PBT_CHECK(c, d[k] <= lim[k], "estimates with sensors away from the IMU and at the IMU differ in %s by %.4g (limit %.4g) from %.1f s to %.1f s", name[k], d[k], lim[k], settle, s.T); } } } c.nontrivial(n > 100);
}
int main(int argc, char **argv) { return pbt::run("E14", "case = a flight; non-trivial if the estimate was compared 100 times", argc, argv); }
