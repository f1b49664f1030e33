// LIB: EKF geo/geo.cpp geo_lookup/geo_mag_declination.cpp
// TECHNIQUE: stateful property-based testing: flights with any aiding, magnetometer selection and field disturbances, against a model of how the magnetometer may be used; metamorphic pairs of flights whose magnetometer data differ only where they must not be used
#define SIM_WHITE_BOX
#include "pbt.hpp"
#include "dmath.hpp"
#include <string>
#include "ekf_sim.hpp"
using namespace sim;

struct Dist { double a, b; D3 d; };
static D3 bodyField(const Scenario &s, double t) { return qrotInv(s.m.q(t), s.magE); }
// field out of the accepted strength, on [a, b)
static void disturb(Scenario &s, const std::vector<Dist> &v) { for (auto &e : s.events) { if (e.k == MAG) { const double t = s.sec(e.t); for (auto &x : v) { if (t >= x.a && t < x.b) { s.mag[e.i].mag = vf(dv(s.mag[e.i].mag) + x.d); } } } } }

LAW(mode, 700, 14000)
{
	auto &g = c.g; Scenario s; Want w; w.T = g.pick<double>({50, 70}); w.land = g.below(3) == 0; const char *name = genAny(c, s, w); auto &P = s.par; if (g.below(2)) { P.mag_fusion_type = g.pick({0, 0, 1, 2, 3, 4, 5}); } const bool evYaw = P.fusion_mode & MASK_USE_EVYAW; (void)evYaw;
	const bool gentle = g.below(2) && s.m.kind == Motion::MULTI; if (gentle) { s.m.yawRate = g.pick<double>({0, 0.5, -0.5, 0.6}); s.m.yawA = 0; for (int i = 0; i < 2; i++) { for (int j = 0; j < 2; j++) { s.m.A[i][j] *= g.below(2) ? 0 : 0.2; } } }
	P.check_mag_strength = g.below(2); if (g.below(3) == 0) { P.mag_declination_source = g.pick({0, 3, 4, 7}); } s.setDelays(); s.build();
	std::vector<Dist> ds; const int nd = (int)g.below(3); for (int i = 0; i < nd; i++) { const double a = g.real(2, s.T - 3); D3 d{g.gauss(), g.gauss(), g.gauss()}; ds.push_back({a, a + g.logu(0.3, 20), d * (g.pick<double>({0.1, 0.3, 1, 2}) / std::max(1e-6, norm(d)))}); } disturb(s, ds);
	c.note("%s; fusion mode %x height %d mag %d strength check %d declination %d, %d disturbances%s", name, P.fusion_mode, P.vdist_sensor_type, P.mag_fusion_type, P.check_mag_strength, P.mag_declination_source, nd, gentle ? ", steady" : ""); c.cls(std::string("type ") + std::to_string(P.mag_fusion_type));
	auto f = std::make_unique<Ekf>(); s.init(*f); const int type = P.mag_fusion_type; bool barredWas = false, hdgSeen = false, d3Seen = false, distSeen = false; double useFrom = 1e9, quietFrom = -1, turnFrom = 1e9, alignedFrom = 1e9, alignedLast = -1e9, notD3 = -1e9, aloftFrom = 1e9, lastYaw = 1e9, gpsFrom = -1e9; bool gpsWas = false; uint64_t lastMag = 0; double tPrev = -1; D3 vPrev{0, 0, 0}; long n = 0, n3 = 0, nh = 0; double acc = 0; bool dirty = false; float expStrength = get_mag_strength_gauss((float)s.lat0, (float)s.lon0);
	for (auto &e : s.events) {
		if (!s.apply(*f, e)) { continue; }
		const double t = s.sec(e.t), td = s.sec(f->get_imu_sample_delayed().time_us); const auto fl = f->control_status_flags(); n++;
		PBT_CHECK(c, !(fl.mag_hdg && fl.mag_3D), "heading and three-axis fusion at the same time at %.3f s", t);
		const bool barred = fl.ev_yaw || fl.gps_yaw || fl.mag_fault || !fl.yaw_align, barred2 = barred && barredWas; barredWas = barred; PBT_CHECK(c, !(barred2 && (fl.mag_hdg || fl.mag_3D)), "magnetometer in use at %.3f s with vision heading %d, antenna heading %d, fault %d, aligned %d", t, fl.ev_yaw, fl.gps_yaw, fl.mag_fault, fl.yaw_align);
		if (type >= MAG_FUSE_TYPE_NONE) { PBT_CHECK(c, !fl.mag_hdg && !fl.mag_3D && !fl.mag_dec, "magnetometer in use at %.3f s although the choice is none", t); }
		if (type == MAG_FUSE_TYPE_HEADING || type == MAG_FUSE_TYPE_INDOOR) { PBT_CHECK(c, !fl.mag_3D && !fl.mag_dec, "three-axis fusion at %.3f s, choice %d", t, type); }
		if (type == MAG_FUSE_TYPE_3D) { PBT_CHECK(c, !fl.mag_hdg, "heading fusion at %.3f s, choice 3D", t); }
		// in use as soon as it may be
		const bool may = type < MAG_FUSE_TYPE_NONE && fl.yaw_align && !fl.mag_fault && !fl.ev_yaw && !fl.gps_yaw; if (!may) { useFrom = 1e9; } else if (useFrom > 1e8) { useFrom = t; }
		if (t - useFrom > 0.5) { PBT_CHECK(c, fl.mag_hdg || fl.mag_3D, "magnetometer not in use at %.3f s, choice %d, usable since %.3f s", t, type, useFrom); }
		// declination
		if (fl.gps != gpsWas) { gpsWas = fl.gps; gpsFrom = t; }
		const bool fresh = f->_mag_sample_delayed.time_us != lastMag; lastMag = f->_mag_sample_delayed.time_us;
		if (fresh && t - useFrom > 0.5 && t - gpsFrom > 0.5) { const bool want = fl.mag_3D && (!fl.gps || (P.mag_declination_source & MASK_FUSE_DECL)); PBT_CHECK(c, fl.mag_dec == want, "declination fusion %d at %.3f s: three-axis %d, gps %d, choice %d", fl.mag_dec, t, fl.mag_3D, fl.gps, P.mag_declination_source); }
		// strength
		if (type < MAG_FUSE_TYPE_NONE && fl.tilt_align && f->_filter_initialised) {
			const double len = norm(dv(f->_mag_sample_delayed.mag)), want = f->global_origin_valid() ? expStrength : 0.45, tol = f->global_origin_valid() ? 0.2 : 0.4; const double over = std::fabs(len - want) - tol; /* the origin is taken between two steps, the strength is that of the nearest degree */
			if (!P.check_mag_strength) { PBT_CHECK(c, !fl.mag_field_disturbed, "field reported disturbed at %.3f s without a check", t); }
			else if (std::fabs(over) > 0.005 && fresh) { PBT_CHECK(c, fl.mag_field_disturbed == (over > 0), "field of %.3f Gauss, expected %.3f +- %.2f, reported disturbed %d at %.3f s", len, want, tol, fl.mag_field_disturbed, t); distSeen |= over > 0; }
		}
		for (auto &x : ds) { dirty |= t > x.a; } /* a wrong field may teach wrong gyro biases */
		if (fl.mag_field_disturbed) { dirty = true; alignedFrom = aloftFrom = 1e9; }
		// alignment in flight
		if (!fl.in_air && type < MAG_FUSE_TYPE_NONE) { PBT_CHECK(c, !fl.mag_aligned_in_flight, "aligned in flight at %.3f s on ground", t); }
		const bool inhibited = (type == MAG_FUSE_TYPE_INDOOR && !fl.gps && !fl.ev_pos && !fl.ev_vel) || fl.mag_field_disturbed; const bool aloft = fl.in_air && may && !inhibited && f->getTerrainVertPos() - f->_state.pos(2) > 1.55f; if (!aloft) { aloftFrom = 1e9; } else if (aloftFrom > 1e8) { aloftFrom = t; }
		if (t - aloftFrom > 0.5 && (s.m.kind == Motion::MULTI)) { PBT_CHECK(c, fl.mag_aligned_in_flight, "not aligned in flight at %.3f s, 1.5 m above ground since %.3f s", t, aloftFrom); }
		if (fl.mag_aligned_in_flight) { if (alignedFrom > 1e8) { alignedFrom = t; } } else { alignedFrom = 1e9; }
		// choice of the filter: three axes when heading or bias can be observed
		if (tPrev >= 0 && td > tPrev + 1e-4) {
			const double yr = wrapd(yaw321(s.m.q(td)) - lastYaw) / (td - tPrev); const D3 v = s.m.v(td); acc = std::hypot(v.x - vPrev.x, v.y - vPrev.y) / (td - tPrev);
			if (std::fabs(yr) > 0.2 * P.mag_yaw_rate_gate || acc > 0.2 * P.mag_acc_gate) { quietFrom = td; } if (std::fabs(yr) < 1.6 * P.mag_yaw_rate_gate) { turnFrom = 1e9; } else if (turnFrom > 1e8) { turnFrom = td; }
		}
		tPrev = td; lastYaw = yaw321(s.m.q(td)); vPrev = s.m.v(td);
		if (!fl.mag_3D) { notD3 = t; }
		if ((type == 0 || type == 3) && t - useFrom > 0.5) {
			if (quietFrom >= 0 && td - quietFrom > 8 && !dirty) { PBT_CHECK(c, !fl.mag_3D || t - notD3 < 6, "three-axis fusion at %.3f s without turning or accelerating since %.3f s", t, quietFrom); /* noise may hold it for moments */ nh++; }
			if (td - turnFrom > 3 && t - alignedFrom > 3 && !dirty) { PBT_CHECK(c, fl.mag_3D, "no three-axis fusion at %.3f s although turning since %.3f s and aligned since %.3f s", t, turnFrom, alignedFrom); n3++; }
			if (fl.mag_aligned_in_flight) { alignedLast = t; } PBT_CHECK(c, !fl.mag_3D || t - alignedLast < 0.3, "three-axis fusion at %.3f s before the alignment in flight", t);
		}
		hdgSeen |= fl.mag_hdg; d3Seen |= fl.mag_3D;
	}
	c.cls(hdgSeen, "heading fusion"); c.cls(d3Seen, "three-axis fusion"); c.cls(distSeen, "field disturbed"); c.cls(n3 > 0, "turning"); c.cls(nh > 0, "steady"); c.nontrivial(n > 1000);
}

// data of a magnetometer that must not be used has no effect: outside the accepted strength, or indoors without a source that needs north
LAW(unused, 250, 5000)
{
	auto &g = c.g; Scenario s; Want w; w.T = 45; const bool indoor = g.below(3) == 0; genScenario(c, s, [&] { w.gps = !indoor; w.flow = indoor; return w; }()); auto &P = s.par; P.mag_declination_deg = (float)(std::atan2(s.magE.y, s.magE.x) * 180 / M_PI); P.mag_fusion_type = indoor ? MAG_FUSE_TYPE_INDOOR : (int)g.pick({1, 1, 4}); P.check_mag_strength = !indoor || g.below(2); s.setDelays(); s.build(); Scenario o = s;
	const double a = s.m.t0 + s.m.ramp + g.real(6, 12), b = indoor ? s.T : a + g.logu(0.5, 20); const double ext = norm(s.magE);
	// averages of the two stay out of the accepted range as well
	auto dir = [&] { D3 d{g.gauss(), g.gauss(), g.gauss()}; return d * (1 / std::max(1e-6, norm(d))); }; const bool strong = ext < 0.3 || g.below(2); D3 f1 = dir() * (strong ? ext + g.real(0.25, 1) : g.real(0.01, ext - 0.25)), f2 = dir() * (ext - 0.25);
	if (indoor) { f2 = dir() * g.real(0.01, 1); } else if (strong) { D3 u = cross(f1, dir()); f2 = f1 * g.real(1, 1.5) + u * g.real(0, 3); }
	size_t changed = 0; for (auto &e : s.events) { if (e.k == MAG && s.sec(e.t) >= a && s.sec(e.t) < b) { const bool same = !indoor && s.sec(e.t) < a + 0.5; s.mag[e.i].mag = vf(f1); o.mag[e.i].mag = vf(same ? f1 : f2); changed += !same; /* an average with samples from before may be in the accepted range */ } }
	c.note("%s %.1f..%.1f s, fields %.2f %.2f %.2f and %.2f %.2f %.2f", indoor ? "indoors" : "disturbed", a, b, f1.x, f1.y, f1.z, f2.x, f2.y, f2.z);
	auto x = std::make_unique<Ekf>(), y = std::make_unique<Ekf>(); s.init(*x); o.init(*y); long n = 0; double last = -1e9; bool inhib = false;
	for (size_t i = 0; i < s.events.size(); i++) {
		const bool st = s.apply(*x, s.events[i]); o.apply(*y, o.events[i]); const double t = s.sec(s.events[i].t); if (t >= b) { break; } if (!st || t < a) { continue; } last = t; n++; (void)last;
		if (indoor && !inhib) { inhib = x->_is_yaw_fusion_inhibited; if (!inhib) { c.discard(); return; } }
		if (!indoor && t > a + 0.6) { PBT_CHECK(c, x->control_status_flags().mag_field_disturbed && y->control_status_flags().mag_field_disturbed, "field of %.2f and %.2f Gauss instead of %.2f not reported at %.3f s", norm(f1), norm(f2), ext, t); }
		const auto p = x->getStateAtFusionHorizonAsVector(), q = y->getStateAtFusionHorizonAsVector(); for (int k = 0; k < 24; k++) { PBT_CHECK(c, p(k) == q(k), "state %d depends on magnetometer data that must not be used: %.9g and %.9g at %.3f s (data differ from %.3f s)", k, p(k), q(k), t, a); }
	}
	c.cls(indoor ? "indoors" : "disturbed"); c.nontrivial(n > 20 && changed > 5);
}
int main(int argc, char **argv) { return pbt::run("E24", "case = a flight or a pair of flights; non-trivial if the filter made 1000 steps (pairs: 20 steps with differing data)", argc, argv); }
