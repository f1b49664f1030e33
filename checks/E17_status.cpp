// LIB: EKF geo/geo.cpp geo_lookup/geo_mag_declination.cpp
// TECHNIQUE: stateful property-based testing: flights with consistent sensors under generated schedules of sensors stopping and resuming and of sources being selected and deselected, against a model of which sources have been delivering data
#include "pbt.hpp"
#include "dmath.hpp"
#include <string>
#include "ekf_sim.hpp"
using namespace sim;

struct Cut { int k; double a, b; };
struct Sel { double t; int mask; };
// arrivals of a sensor as the filter may see them
struct Sched {
	std::vector<Cut> cuts; std::vector<double> arr[NKIND];
	double last(int k, double t) const { auto i = std::upper_bound(arr[k].begin(), arr[k].end(), t); return i == arr[k].begin() ? -1e9 : *(i - 1); }
	double firstAfter(int k, double t) const { auto i = std::upper_bound(arr[k].begin(), arr[k].end(), t); return i == arr[k].end() ? 1e9 : *i; }
	// delivering throughout [a, b] without a gap of more than g
	bool steady(int k, double a, double b, double g) const { auto i = std::upper_bound(arr[k].begin(), arr[k].end(), a); double p = i == arr[k].begin() ? -1e9 : *(i - 1); for (;; ++i) { const double n = i == arr[k].end() ? 1e9 : *i; if (std::min(n, b) - p > g) { return false; } if (n >= b) { return true; } p = n; } }
};
enum { FL_GPS, FL_FLOW, FL_EVP, FL_EVV, FL_EVY, FL_GPSY, NFL };
static const char *const flName[NFL] = {"gps", "opt_flow", "ev_pos", "ev_vel", "ev_yaw", "gps_yaw"};
static const int flMask[NFL] = {MASK_USE_GPS, MASK_USE_OF, MASK_USE_EVPOS, MASK_USE_EVVEL, MASK_USE_EVYAW, MASK_USE_GPSYAW}, flKind[NFL] = {GPS, FLOW, EV, EV, EV, GPS};
static const double M = 0.6; // longest fusion lag, one sample interval and one filter step

LAW(schedule, 1200, 30000)
{
	auto &g = c.g; Scenario s; Want w; const double quiet = 40; w.T = g.pick<double>({75, 90}); const char *mode = genAny(c, s, w); if (g.below(5) == 0) { s.par.reset_timeout_max = (unsigned)g.range(2000000, 12000000); } if (g.below(5) == 0) { s.par.no_aid_timeout_max = (unsigned)g.range(500000, 3000000); }
	s.par.fusion_mode &= ~MASK_USE_DRAG; /* no drag in these flights */ s.setDelays(); s.build(); c.cls(mode); const int mask0 = s.par.fusion_mode, hgt = s.par.vdist_sensor_type; const double end = s.T - quiet;
	Sched d; std::vector<Sel> sel; std::string note; char b[160]; std::vector<int> on; for (int k = MAG; k < CTRL; k++) { if (s.sn[k].on) { on.push_back(k); } }
	const int n = (int)g.below(6); for (int i = 0; i < n; i++) { const double a = g.real(g.below(4) ? 15 : 1, end - 0.5), e = std::min(end, a + g.logu(0.3, 25)); if (g.below(3) == 0) { for (int k : {GPS, EV, FLOW, ASP, AUX}) { d.cuts.push_back({k, a, e}); } std::snprintf(b, sizeof b, "no aiding %.2f..%.2f; ", a, e); } else { const int k = on[g.below(on.size())]; d.cuts.push_back({k, a, e}); std::snprintf(b, sizeof b, "%s off %.2f..%.2f; ", kindName[k], a, e); } note += b; }
	if (g.below(5) == 0) { const double a = g.real(12, end - 8), e = std::min(end, a + g.real(8, 25)); d.cuts.push_back({BARO, a, e}); const int k = hgt == VDIST_SENSOR_RANGE ? RNG : EV; d.cuts.push_back({k, a, e}); std::snprintf(b, sizeof b, "barometer and %s off %.2f..%.2f; ", kindName[k], a, e); note += b; }
	if (g.below(3) == 0) { const int m = (int)g.range(1, 3); for (int i = 0; i < m; i++) { int x = mask0; for (int f = 0; f < NFL; f++) { if (g.below(2)) { x &= ~flMask[f]; } } sel.push_back({g.real(g.below(3) ? 15 : 1, end), x}); } std::sort(sel.begin(), sel.end(), [](const Sel &p, const Sel &q) { return p.t < q.t; }); for (auto &x : sel) { std::snprintf(b, sizeof b, "fusion mode %x at %.2f; ", x.mask, x.t); note += b; } sel.push_back({end, mask0}); c.cls("sources deselected"); }
	for (auto &e : s.events) {
		const double t = s.sec(e.t); bool cut = false; for (auto &q : d.cuts) { cut |= q.k == e.k && t >= q.a && t < q.b; } if (cut) { e.k = NKIND; continue; }
		int m = mask0; for (auto &q : sel) { if (q.t <= t) { m = q.mask; } } if (e.k == GPS && !(m & MASK_USE_GPS) && hgt != VDIST_SENSOR_GPS) { continue; } // not taken unless selected
		d.arr[e.k].push_back(t);
	}
	c.note("%s; fusion mode %x height %d mag %d; %s", mode, mask0, hgt, s.par.mag_fusion_type, note.c_str());
	auto f = std::make_unique<Ekf>(); s.init(*f); size_t ns = 0; double off[NFL]; for (double &x : off) { x = 1e9; } for (int i = 0; i < NFL; i++) { if (!(mask0 & flMask[i])) { off[i] = -1e9; } }
	double otherSince = 1e9, tiltSince = 1e9, noneSince = -1e9; uint32_t seen = 0; long steps = 0; double hgtBad = 1e9; bool lostAll = false, backGps = false; const double rt = s.par.reset_timeout_max * 1e-6, na = s.par.no_aid_timeout_max * 1e-6, vt = s.par.valid_timeout_max * 1e-6; int activeWas = -1, resetAct = -1; double activeSince = 0, lastReset = -1e9; uint8_t posdWas = 0;
	for (auto &e : s.events) {
		const double t = s.sec(e.t); while (ns < sel.size() && sel[ns].t <= t) { f->getParamHandle()->fusion_mode = sel[ns].mask; for (int i = 0; i < NFL; i++) { if (sel[ns].mask & flMask[i]) { off[i] = 1e9; } else if (off[i] > 1e8) { off[i] = t; } } ns++; }
		if (e.k == NKIND || !s.apply(*f, e)) { continue; }
		const auto fl = f->control_status_flags(); const bool set[NFL] = {(bool)fl.gps, (bool)fl.opt_flow, (bool)fl.ev_pos, (bool)fl.ev_vel, (bool)fl.ev_yaw, (bool)fl.gps_yaw}; steps++; seen |= f->control_status().value; auto &D = d;
		for (int i = 0; i < NFL; i++) {
			if (!set[i]) { continue; }
			// selected, or not yet noticed: the choice is looked at when data of the source comes in
			const double nx = off[i] < -1e8 ? -1e9 : D.firstAfter(flKind[i], off[i]); PBT_CHECK(c, off[i] > 1e8 || t < std::max(nx, off[i]) + M, "%s is set at %.3f s, deselected since %.3f s with data at %.3f s [%s]", flName[i], t, off[i], nx, note.c_str());
		}
		auto fresh = [&](int fi, double lim) { const double age = t - D.last(flKind[fi], t); PBT_CHECK(c, !set[fi] || age < lim + M, "%s is set at %.3f s, the last data came %.3f s ago [%s]", flName[fi], t, age, note.c_str()); };
		fresh(FL_GPS, 10); fresh(FL_FLOW, 10); fresh(FL_EVP, rt); fresh(FL_EVV, rt); fresh(FL_EVY, rt); fresh(FL_GPSY, 10);
		PBT_CHECK(c, !fl.fuse_aspd || t - D.last(ASP, t) < 10 + M, "airspeed fusion is set at %.3f s, the last data came %.3f s ago", t, t - D.last(ASP, t));
		const bool other = fl.opt_flow || fl.ev_pos || fl.ev_vel || (fl.fuse_aspd && fl.fuse_beta); if (!other) { otherSince = 1e9; } else if (otherSince > 1e8) { otherSince = t; }
		PBT_CHECK(c, !(set[FL_GPS] && t - otherSince > M) || t - D.last(GPS, t) < 1 + M, "gps is set at %.3f s beside other aiding, the last data came %.3f s ago [%s]", t, t - D.last(GPS, t), note.c_str());
		// one height source, and one with data
		if (!fl.tilt_align) { tiltSince = 1e9; } else if (tiltSince > 1e8) { tiltSince = t; }
		const int hs = fl.baro_hgt + fl.gps_hgt + fl.rng_hgt + fl.ev_hgt, act = fl.baro_hgt ? BARO : fl.gps_hgt ? GPS : fl.rng_hgt ? RNG : EV; if (fl.tilt_align) { PBT_CHECK(c, hs == 1, "%d height sources at %.3f s: baro %d gps %d range %d vision %d [%s]", hs, t, fl.baro_hgt, fl.gps_hgt, fl.rng_hgt, fl.ev_hgt, note.c_str()); }
		if (act != activeWas) { activeWas = act; hgtBad = activeSince = t; } // the time out starts with the last fusion
		PBT_CHECK(c, !fl.rng_hgt || hgt == VDIST_SENSOR_RANGE || s.par.range_aid, "range height without being selected at %.3f s", t); PBT_CHECK(c, !fl.ev_hgt || hgt == VDIST_SENSOR_EV, "vision height without being selected at %.3f s", t);
		PBT_CHECK(c, !fl.gps_hgt || f->global_origin_valid(), "gps height without an origin at %.3f s", t); // the last resort of every mode
		// the source in use is used: the height is not reset again and again while it delivers (consistent) data
		{ float dz; uint8_t cz; f->get_posD_reset(&dz, &cz); if (cz != posdWas) { if (t - lastReset > 4 && t - lastReset < 6 && !f->fault_status_flags().bad_acc_vertical && act == resetAct && t - activeSince > 12 && t - tiltSince > 12) { PBT_CHECK(c, !d.steady(act, t - 12, t, act == BARO ? 0.3 : act == EV ? 0.3 : 0.5) || act == RNG, "height reset at %.3f s, %.3f s after the one before, although %s is the height source since %.3f s and delivers [%s]", t, t - lastReset, kindName[act], activeSince, note.c_str()); } posdWas = cz; lastReset = t; resetAct = act; } }
		if (fl.tilt_align && t - tiltSince > 6 && t - hgtBad > 6 + M) {
			const double age = t - D.last(act, t); const bool baro = D.steady(BARO, t - 6 - M, t, 0.3), gps = D.steady(GPS, t - 6 - M, t, 0.5) && f->global_origin_valid(); const bool spare = act == BARO ? gps : baro;
			PBT_CHECK(c, age < 6 + M || !spare || (act == EV && pbt::known(c, "vision-height-loss")), "%s is the height source at %.3f s, its last data came %.3f s ago while another source delivers [%s]", kindName[act], t, age, note.c_str());
		}
		// validity
		const double la = std::max(std::max(std::max(D.last(GPS, t), D.last(EV, t)), std::max(D.last(FLOW, t), D.last(ASP, t))), D.last(AUX, t)); const bool valid = f->local_position_is_valid();
		if (t - la > na + M) { PBT_CHECK(c, f->inertial_dead_reckoning(), "not dead reckoning at %.3f s, %.3f s after the last aiding data [%s]", t, t - la, note.c_str()); }
		if (t - la > na + vt + M) { lostAll = true; PBT_CHECK(c, !valid && !f->global_position_is_valid(), "position valid at %.3f s, %.3f s after the last aiding data [%s]", t, t - la, note.c_str()); }
		const bool any = fl.gps || other; if (any) { noneSince = 1e9; } else if (noneSince > 1e8) { noneSince = t; }
		PBT_CHECK(c, any || t - noneSince < na + vt + 0.1 || !valid, "position valid at %.3f s without a horizontal aiding source for %.3f s [%s]", t, t - noneSince, note.c_str());
		PBT_CHECK(c, valid || !f->global_position_is_valid(), "global position valid without local at %.3f s", t);
		if (lostAll && fl.gps && t - la < 1) { backGps = true; }
		// restored data brings the sources back. Not asserted where the attitude reached while nothing was measured can keep the data from being usable: a heading the field does
		// not correct, optical flow as the only aiding (needs tilt and height above ground first), vision frame rotated by the estimated heading, vision height (known finding vision-height-loss)
		const bool heading = s.par.mag_fusion_type <= MAG_FUSE_TYPE_3D, gpsBack = (mask0 & MASK_USE_GPS) && s.sn[GPS].on && heading, evBack = (mask0 & (MASK_USE_EVPOS | MASK_USE_EVVEL)) && s.sn[EV].on && heading && !(mask0 & MASK_ROTATE_EV);
		if (t > s.T - 0.5 && hgt != VDIST_SENSOR_EV && (gpsBack || evBack)) {
			c.cls("recovery"); PBT_CHECK(c, valid, "position not valid at the end, %.1f s after all data was restored [%s]", quiet, note.c_str());
			PBT_CHECK(c, !(mask0 & MASK_USE_GPS) || !s.sn[GPS].on || fl.gps, "gps not in use %.1f s after all data was restored [%s]", quiet, note.c_str());
			PBT_CHECK(c, !s.sn[EV].on || (!!(mask0 & MASK_USE_EVPOS) == fl.ev_pos && !!(mask0 & MASK_USE_EVVEL) == fl.ev_vel), "vision not in use %.1f s after all data was restored [%s]", quiet, note.c_str());
			const bool aid = s.par.range_aid; PBT_CHECK(c, hgt == VDIST_SENSOR_BARO ? (fl.baro_hgt || aid) : hgt == VDIST_SENSOR_GPS ? (fl.gps_hgt || aid) : hgt == VDIST_SENSOR_RANGE ? (fl.rng_hgt || !d.steady(RNG, 14, t, 8) /* after 10 s a reading is not accepted before it changes */) : fl.ev_hgt, "height source baro %d gps %d range %d vision %d, height mode %d, %.1f s after all data was restored [%s]", fl.baro_hgt, fl.gps_hgt, fl.rng_hgt, fl.ev_hgt, hgt, quiet, note.c_str());
		}
	}
	c.nontrivial(n > 0 && steps > 1000); if (lostAll) { c.cls("all aiding lost"); } if (backGps) { c.cls("GPS back after all aiding was lost"); } if (seen & (1 << 11)) { c.cls("gps height used"); }
}
// the wind estimate of a fixed wing aircraft is kept while airspeed or sideslip measures it, dropped 10 s after both are gone, and taken up again with either
LAW(wind, 150, 4000)
{
	auto &g = c.g; Scenario s; Want w; w.wing = true; w.T = 100; genScenario(c, s, w); s.betaFrom = s.m.t0 + s.m.ramp * 1.1 + g.real(0, 3); s.setDelays(); s.build();
	const double conv = s.m.t0 + s.m.ramp + 20; struct Gap { double a, b; }; std::vector<Gap> off[2]; for (auto &o : off) { double t = conv; const int n = (int)g.below(3); for (int i = 0; i < n; i++) { Gap x; x.a = t + g.real(1, 20); x.b = x.a + g.logu(2, 30); t = x.b; if (x.b < s.T - 5) { o.push_back(x); } } }
	for (int k = 0; k < 2; k++) { for (auto &x : off[k]) { c.note("%s off %.2f..%.2f; ", k ? "sideslip" : "airspeed", x.a, x.b); } }
	auto in = [](const std::vector<Gap> &v, double t) { for (auto &x : v) { if (t >= x.a && t < x.b) { return true; } } return false; };
	auto f = std::make_unique<Ekf>(); s.init(*f); double last[2] = {-1e9, -1e9}, first[2] = {1e9, 1e9}; bool was = false, kept = false, lost = false, again = false; D3 wp{0, 0, 0}; const D3 wt = s.m.windNow(); double lastOn = 1e9; long n = 0;
	for (auto &e : s.events) {
		const double t = s.sec(e.t); if (e.k == ASP) { if (in(off[0], t)) { continue; } if (t - last[0] > 1.5) { first[0] = t; } last[0] = t; }
		if (t > s.betaFrom && e.k == IMU) { const bool on = !in(off[1], t); f->set_fuse_beta_flag(on); if (on) { if (t - last[1] > 1.5) { first[1] = t; } last[1] = t; } }
		if (!s.apply(*f, e)) { continue; }
		const auto fl = f->control_status_flags(); const D3 ws{f->getWindVelocity()(0), f->getWindVelocity()(1), 0}; n++;
		if (t > conv) {
			const double age[2] = {t - last[0], t - last[1]}, quiet = std::min(age[0], age[1]);
			PBT_CHECK(c, quiet < 10 + M || !fl.wind, "wind is estimated at %.3f s, the last airspeed came %.3f s and the last sideslip %.3f s ago", t, age[0], age[1]);
			for (int k = 0; k < 2; k++) { PBT_CHECK(c, age[k] > 0.5 || t - first[k] < 1.5 || fl.wind, "wind is not estimated at %.3f s although %s is measured since %.3f s", t, k ? "sideslip" : "airspeed", first[k]); }
			if (quiet > 10 + M) { lost = true; }
			if (fl.wind && was) { const double jump = norm(ws - wp); if (t - first[0] > 3 && t - first[1] > 3) { c.worst("jump of the wind estimate (m/s)", jump); } PBT_CHECK(c, quiet > 9 || t - first[0] < 3 || t - first[1] < 3 || jump < 1.5, "wind estimate jumps by %.3f m/s at %.3f s, the last airspeed came %.3f s and the last sideslip %.3f s ago", jump, t, age[0], age[1]); if (age[0] > 11 && age[1] < 1) { kept = true; } }
			if (fl.wind && !was) { again |= lost; lastOn = t; }
			if (fl.wind && !lost && age[0] < 1 && t - first[0] > 10) { const double er = norm(ws - wt); c.worst("error of the wind estimate (m/s)", er); PBT_CHECK(c, er < 6, "wind estimate wrong by %.2f m/s at %.3f s", er, t); }
			if (fl.wind && lost && t - lastOn > 15 && age[0] < 1) { const double er = norm(ws - wt); c.worst("error of the wind estimate taken up again (m/s)", er); PBT_CHECK(c, er < 6, "wind estimate wrong by %.2f m/s at %.3f s", er, t); }
		}
		was = fl.wind; wp = ws;
	}
	c.cls(kept, "kept by sideslip alone"); c.cls(lost, "wind lost"); c.cls(again, "wind taken up again"); c.nontrivial(n > 1000 && (!off[0].empty() || !off[1].empty()));
}
int main(int argc, char **argv) { return pbt::run("E17", "case = a flight with a schedule of sensor outages and selections; non-trivial if there was an outage and the filter made 1000 steps", argc, argv); }
