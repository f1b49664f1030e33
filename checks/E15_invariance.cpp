// LIB: EKF geo/geo.cpp geo_lookup/geo_mag_declination.cpp
// TECHNIQUE: metamorphic property-based testing: whole simulated flights with shifted clock, moved longitude or rotated heading against the original flight
#include "ekf_sim.hpp"
using namespace sim;

// same calls, all timestamps shifted: outputs are bit-identical at every filter step
LAW(clock, 500, 4000)
{
	Scenario s; Want w; w.T = c.g.real(25, 45); const char *nm = genAny(c, s, w); c.cls(nm);
	s.start = 20000000 + c.g.below(1000) * 1000; s.build();
	uint64_t shift;
	switch (c.g.below(4)) { case 0: shift = 1000 * (1 + c.g.below(100000)); break; case 1: shift = 1000 * (uint64_t)c.g.logu(1e3, 1e8); break; case 2: shift = 1000 * (uint64_t)c.g.logu(1e8, 1e12); break; default: shift = 1000ull * ((1ull << c.g.below(43)) + c.g.below(1000)); }
	c.note("%s, %.1f s flight, clock starts at %.6f s, shifted by %llu us", nm, s.T, s.start * 1e-6, (unsigned long long)shift);
	std::unique_ptr<Ekf> a(new Ekf), b(new Ekf); s.init(*a); s.init(*b); int steps = 0; bool nav = false;
	for (auto &e : s.events) {
		const bool ua = s.apply(*a, e), ub = s.apply(*b, e, (int64_t)shift); PBT_CHECK(c, ua == ub, "filter step at %.3f s happens in only one of the two runs", s.sec(e.t));
		if (!ua && e.k != IMU) { continue; }
		steps += ua; if (ua && steps % 4 && steps > 300) { continue; }
		const Snap x = snapshot(*a), y = snapshot(*b, (int64_t)shift); const int d = firstDiff(x, y);
		PBT_CHECK(c, d < 0, "%.3f s after the start, %s is %.9g, but %.9g when the clock is shifted by %llu us", s.sec(e.t), x.n[d], x.v[d], y.v[d], (unsigned long long)shift);
		nav |= a->local_position_is_valid() && a->control_status_flags().in_air;
	}
	c.nontrivial(nav && steps > 1000);
}
// the whole scenario moved along its parallel: same longitude differences, so the same estimates
LAW(longitude, 300, 2500)
{
	Scenario s; Want w; w.T = c.g.real(25, 40); w.gps = true; const char *nm = genAny(c, s, w); c.cls(nm); if (!s.sn[GPS].on) { c.discard(); }
	s.par.mag_declination_source = 0; s.par.mag_declination_deg = (float)(std::atan2(s.magE.y, s.magE.x) * 180 / M_PI); s.par.synthesize_mag_z = 0; s.par.check_mag_strength = 0; s.start = 20000000 + c.g.below(1000) * 1000; s.build();
	const int64_t shift = c.g.below(3) ? (int64_t)c.g.below(3600000000ull) - 1800000000ll : (c.g.below(2) ? 1 : -1) * 1800000000ll - (int64_t)std::llround(s.lon0 * 1e7) + (int64_t)c.g.range(-2000, 2000);
	Scenario r = s; bool wraps = false; for (auto &x : r.gps) { int64_t l = (int64_t)x.lon + shift; while (l > 1800000000ll) { l -= 3600000000ll; } while (l < -1800000000ll) { l += 3600000000ll; } wraps |= std::llabs(l - r.gps[0].lon) > 1800000000ll; x.lon = (int32_t)l; }
	c.cls(wraps, "crosses the date line"); c.note("%s at %.3f N %.3f E, moved %.4f degrees along the parallel%s", nm, s.lat0, s.lon0, shift * 1e-7, wraps ? ", flight crosses the date line" : "");
	std::unique_ptr<Ekf> a(new Ekf), b(new Ekf); s.init(*a); r.init(*b); int steps = 0; bool nav = false; double drift = 0;
	for (size_t i = 0; i < s.events.size(); i++) {
		const bool ua = s.apply(*a, s.events[i]); r.apply(*b, r.events[i]); if (!ua || ++steps % 10) { continue; }
		const double t = s.sec(s.events[i].t); auto x = a->getStateAtFusionHorizonAsVector(), y = b->getStateAtFusionHorizonAsVector();
		// positions projected in double precision differ by nanometres; float rounding of the filter states is all that may grow from there
		for (int k = 0; k < 24; k++) { const double tol = k < 4 ? 2e-3 : k < 7 ? 0.02 : k < 10 ? 0.05 : k < 16 ? 2e-5 : k < 22 ? 5e-3 : 0.05; const double e = std::fabs(x(k) - y(k)); drift = std::max(drift, e / tol);
			PBT_CHECK(c, e <= tol, "%.2f s: state %d is %.8g, but %.8g after moving everything %.4f degrees in longitude", t, k, x(k), y(k), shift * 1e-7); }
		PBT_CHECK(c, a->control_status().value == b->control_status().value, "%.2f s: status 0x%x, but 0x%x after moving everything in longitude", t, a->control_status().value, b->control_status().value);
		nav |= a->control_status_flags().gps && a->control_status_flags().in_air;
		if (a->global_origin_valid()) { uint64_t ot; double la, lo, la2, lo2; float al, al2; a->getEkfGlobalOrigin(ot, la, lo, al); b->getEkfGlobalOrigin(ot, la2, lo2, al2); c.close(la2, la, 1e-9, "origin latitude"); c.close(std::remainder(lo2 - lo - shift * 1e-7, 360.0), 0, 1e-9, "origin longitude moved with the scenario"); c.close(al2, al, 0.05, "origin altitude"); }
	}
	c.worst("state difference after moving in longitude", drift); c.nontrivial(nav);
}
// the whole scenario (motion, wind, magnetic field) turned about the vertical
LAW(heading, 600, 4000)
{
	Scenario s; Want w; w.T = c.g.real(28, 45); w.jitter = false; const char *nm = genAny(c, s, w); c.cls(nm);
	s.par.mag_declination_source = c.g.below(2) ? 0 : MASK_FUSE_DECL; s.par.mag_declination_deg = (float)(std::atan2(s.magE.y, s.magE.x) * 180 / M_PI); s.par.synthesize_mag_z = 0; s.par.check_mag_strength = 0;
	if (s.par.mag_fusion_type == MAG_FUSE_TYPE_INDOOR || s.par.mag_fusion_type == MAG_FUSE_TYPE_NONE) { s.par.mag_fusion_type = MAG_FUSE_TYPE_AUTO; }
	if (s.par.mag_fusion_type == MAG_FUSE_TYPE_3D) { s.par.mag_fusion_type = MAG_FUSE_TYPE_HEADING; } // 3-axis fusion at rest leaves the heading nearly free: it may then wander differently // the first heading must come from the field, or it does not turn with the scenario
	if (s.sn[EV].on) { c.discard(); } // with vision, heading and position hang on single events (the sample at which alignment happens), so rounding decides them
	s.start = 20000000; s.earthRate = true; Scenario r = s; const double rot = s.gpsYaw || c.g.below(3) ? c.g.sym(M_PI) : M_PI / 2 * (double)c.g.range(-1, 2); r.m.rot = rot; r.magE = r.m.rotz(s.magE); r.par.mag_declination_deg = (float)(wrapd(std::atan2(s.magE.y, s.magE.x) + rot) * 180 / M_PI); s.build(); r.build();
	// antenna baseline parked exactly east or west: that observation is skipped (see E08)
	if (s.gpsYaw) { for (double z : {0.0, rot}) { if (std::fabs(std::cos(s.m.psi0 + s.gpsYawOffset + z)) < 0.05) { c.discard(); } } }
	c.note("%s turned by %.1f degrees", nm, rot * 180 / M_PI);
	std::unique_ptr<Ekf> a(new Ekf), b(new Ekf); s.init(*a); r.init(*b); int steps = 0, apart = 0, Q = 0; bool nav = false; const int LAST = 25; double hist[24][25] = {};
	for (size_t i = 0; i < s.events.size(); i++) {
		const bool ua = s.apply(*a, s.events[i]); r.apply(*b, r.events[i]); if (!ua || ++steps % 10) { continue; }
		const double t = s.sec(s.events[i].t); auto x = a->getStateAtFusionHorizonAsVector(), y = b->getStateAtFusionHorizonAsVector();
		if (!a->control_status_flags().yaw_align || !b->control_status_flags().yaw_align) { PBT_CHECK(c, t < 12, "heading not aligned %.1f s after the start", t); continue; }
		// a threshold (tilt variance, acceleration, innovation gate) may be crossed some steps earlier in one of the runs, so only differences that last count
		const bool st = (a->control_status().value ^ b->control_status().value) & ~0x70u; apart = st ? apart + 1 : 0; PBT_CHECK(c, apart < LAST, "%.2f s: status 0x%x, but 0x%x in the turned scenario for 2.5 s (%s)", t, a->control_status().value, b->control_status().value, nm);
		if (t < 4) { continue; }
		Q = 0;
		auto both = [&](int k) { return std::make_pair(s.m.rotz({0, 0, 0}), r.m.rotz({x(k), x(k + 1), x(k + 2)})); };
		auto cmp = [&](const char *what, D3 want, D3 got, double tol) {
			for (int k = 0; k < 3; k++) {
				const double e = std::fabs(want[k] - got[k]) / tol; double *h = hist[Q++]; for (int i = LAST - 1; i > 0; i--) { h[i] = h[i - 1]; } h[0] = e;
				const double m = *std::min_element(h, h + LAST); c.worst(what, m); PBT_CHECK(c, m <= 1, "%.2f s: %s [%d] is %.6g in the turned scenario, %.6g expected (turned by %.2f deg, %s)", t, what, k, got[k], want[k], rot * 180 / M_PI, nm);
			}
		};
		// what is poorly observed may drift apart once a threshold was crossed at another step, but within its reported uncertainty
		const auto P = a->covariances_diagonal(); auto sd = [&](int k, int n) { double m = 0; for (int i = k; i < k + n; i++) { m = std::max(m, (double)P(i)); } return 1.5 * std::sqrt(m); };
		const Q4 qe = qmul(qfromrotvec({0, 0, rot}), {x(0), x(1), x(2), x(3)}); cmp("attitude", {0, 0, 0}, rotvec(qmul({y(0), y(1), y(2), y(3)}, qconj(qe))), (s.sn[GPS].on ? 0.05 : 0.1) + sd(0, 4));
		cmp("velocity", both(4).second, {y(4), y(5), y(6)}, 0.1 + sd(4, 3)); cmp("position", both(7).second, {y(7), y(8), y(9)}, 0.3 + sd(7, 3)); cmp("gyro bias", {x(10), x(11), x(12)}, {y(10), y(11), y(12)}, 6e-5 + sd(10, 3)); cmp("accel bias", {x(13), x(14), x(15)}, {y(13), y(14), y(15)}, 1.2e-3 + sd(13, 3));
		cmp("wind", r.m.rotz({x(22), x(23), 0}), {y(22), y(23), 0}, 0.2 + sd(22, 2)); cmp("earth field", both(16).second, {y(16), y(17), y(18)}, 0.02 + sd(16, 3)); cmp("magnetometer bias", {x(19), x(20), x(21)}, {y(19), y(20), y(21)}, 0.02 + sd(19, 3));
		nav |= a->local_position_is_valid() && a->control_status_flags().in_air;
	}
	c.nontrivial(nav);
}
int main(int a, char **b) { return pbt::run("E15", "a flight in which the filter aligned and navigated in the air", a, b); }
