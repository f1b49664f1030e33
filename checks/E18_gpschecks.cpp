// LIB: EKF geo/geo.cpp geo_lookup/geo_mag_declination.cpp
// TECHNIQUE: model-based property testing: a double-precision model of the checks, their filters and timers runs beside the code over generated message histories, first message by message with the vehicle state injected, then through whole simulated flights
#define SIM_WHITE_BOX
#include "ekf_sim.hpp"
using estimator::gps_message;

// the checks as documented; val() ties are reported so that comparisons at a limit are skipped
struct Checks {
	estimator::parameters p; uint32_t need{10000000}; double pn[2]{}, alt{0}; uint64_t tPrev{0}; bool have{false}; double dpos[3]{}, vNE[2]{}, vD{0}, metric[3]{}; uint64_t fail{0}, pass{0}; unsigned flags{0}; bool tie{false}, updated{false}; unsigned tieBits{0}; double slack{1e-3};
	void near_(unsigned bit, double v, double lim) { const double d = std::fabs(v - lim); if (d <= slack * (0.02 + std::fabs(lim)) || !std::isfinite(d)) { tieBits |= bit; } }
	void set(unsigned bit, double v, double lim) { if (v > lim) { flags |= bit; } else { flags &= ~bit; } near_(bit, v, lim); }
	static double clampd(double v, double l) { return std::max(-l, std::min(l, v)); }
	// returns whether the data counts as good; ties in enabled checks set tie
	bool message(const gps_message &g, uint64_t now, bool air, bool rest, double vel)
	{
		tieBits = 0; flags = (flags & 0x1C0) ; // drift results persist
		if (g.fix_type < 3) { flags |= 1; } if ((int)g.nsats < p.req_nsats) { flags |= 2; } auto ex = [&](unsigned b, float v, float l) { if (v > l) { flags |= b; } }; ex(4, g.pdop, p.req_pdop); ex(8, g.eph, p.req_hacc); ex(16, g.epv, p.req_vacc); ex(32, g.sacc, p.req_sacc);
		const double dt = std::max(1e-3, std::min(10.0, ((double)now - (double)tPrev) * 1e-6)), k = dt / 10, la = g.lat * 1e-7, lo = g.lon * 1e-7, al = g.alt * 1e-3;
		if (!air && rest) {
			double d[3] = {0, 0, 0}; if (have && tPrev > 0) { const double R = 6371000, a1 = pn[0] * M_PI / 180, a2 = la * M_PI / 180, dl = std::remainder(lo - pn[1], 360.0) * M_PI / 180; const double cd = std::sin(a1) * std::sin(a2) + std::cos(a1) * std::cos(a2) * std::cos(dl), y = std::cos(a2) * std::sin(dl), x = std::cos(a1) * std::sin(a2) - std::sin(a1) * std::cos(a2) * std::cos(dl), s = std::hypot(x, y), c = std::atan2(s, cd); const double kk = s > 1e-14 ? c / s : 1; d[0] = kk * x * R; d[1] = kk * y * R; d[2] = alt - al; }
			const double lim[3] = {p.req_hdrift * 10, p.req_hdrift * 10, p.req_vdrift * 10}; for (int i = 0; i < 3; i++) { dpos[i] = k * clampd(d[i] / dt, lim[i]) + (1 - k) * dpos[i]; }
			metric[0] = std::hypot(dpos[0], dpos[1]); metric[1] = std::fabs(dpos[2]); set(64, metric[0], p.req_hdrift); set(128, metric[1], p.req_vdrift);
			for (int i = 0; i < 2; i++) { vNE[i] = k * clampd(g.vel_ned(i), lim[0]) + (1 - k) * vNE[i]; } metric[2] = std::hypot(vNE[0], vNE[1]); set(256, metric[2], p.req_hdrift); updated = true;
		} else { for (double &v : dpos) { v = 0; } vNE[0] = vNE[1] = 0; if (air) { flags &= ~0x1C0u; } updated = !air; }
		pn[0] = la; pn[1] = lo; alt = al; have = true; tPrev = now;
		vD = k * clampd(g.vel_ned(2) - vel, 10 * p.req_vdrift) + (1 - k) * vD; if (std::fabs(vD) > p.req_vdrift) { flags |= 512; } near_(512, std::fabs(vD), p.req_vdrift);
		const unsigned enabled = 1u | ((unsigned)p.gps_check_mask & 0x1ff) << 1; if (tieBits & enabled) { tie = true; } if (fail == 0) { fail = now; } if (flags & enabled) { fail = now; } else { pass = now; } return fail + need < now;
	}
};
static void genLimits(pbt::Ctx &c, estimator::parameters &p)
{
	p.gps_check_mask = c.g.pick<int>({21, 0, 511, (int)c.g.below(512), (int)c.g.below(512), 1 << c.g.below(9)}); p.req_nsats = (int)c.g.range(0, 12); p.req_pdop = (float)c.g.real(0.8, 4); p.req_hacc = (float)c.g.real(0.5, 10); p.req_vacc = (float)c.g.real(0.5, 10); p.req_sacc = (float)c.g.real(0.2, 3); p.req_hdrift = (float)c.g.logu(0.05, 2); p.req_vdrift = (float)c.g.logu(0.05, 2);
}
// mask bit i enables check flag i+1 except that bit layout is nsats,pdop,hacc,vacc,sacc,hdrift,vdrift,hspd,vspd
static void compare(pbt::Ctx &c, Checks &m, Ekf &f, const char *when)
{
	uint16_t v = 0; f.get_gps_check_status(&v); for (int b = 0; b < 10; b++) { if (m.tieBits & (1u << b)) { m.flags = (m.flags & ~(1u << b)) | (v & (1u << b)); continue; } static const char *const nm[] = {"fix", "satellites", "pdop", "horizontal accuracy", "vertical accuracy", "speed accuracy", "horizontal drift", "vertical drift", "horizontal speed", "vertical speed"}; PBT_CHECK(c, !!(v & (1u << b)) == !!(m.flags & (1u << b)), "%s: %s check %s, expected %s (metrics %.4f %.4f %.4f %.4f, limits %g %g)", when, nm[b], v & (1u << b) ? "fails" : "passes", m.flags & (1u << b) ? "fail" : "pass", m.metric[0], m.metric[1], m.metric[2], m.vD, f._params.req_hdrift, f._params.req_vdrift); }
	float d[3]; bool blocked = false; const bool up = f.get_gps_drift_metrics(d, &blocked); PBT_CHECK(c, up == m.updated, "%s: drift metrics updated %d, expected %d", when, up, m.updated); m.updated = false; PBT_CHECK(c, blocked == !f._control_status.flags.vehicle_at_rest, "%s: drift metrics blocked %d", when, blocked); PBT_CHECK(c, !f.get_gps_drift_metrics(d, &blocked), "%s: drift metrics updated twice", when);
	for (int i = 0; i < 3; i++) { static const char *const nm[] = {"horizontal drift", "vertical drift", "horizontal speed"}; c.close(d[i], m.metric[i], 2e-4 + 1e-4 * m.metric[i] + 2e-3 * (m.slack > 1e-3), nm[i]); }
}

// message by message, vehicle state injected
LAW(messages, 12000, 200000)
{
	auto f = std::make_unique<Ekf>(); Checks m; auto &p = *f->getParamHandle(); genLimits(c, p); p.vdist_sensor_type = c.g.below(3) ? VDIST_SENSOR_BARO : VDIST_SENSOR_GPS; p.mag_fusion_type = c.g.below(3) ? 0 : MAG_FUSE_TYPE_NONE; m.p = p; if (c.g.below(2)) { m.need = (uint32_t)c.g.below(20000000); f->set_min_required_gps_health_time(m.need); }
	uint64_t t = 1000000 + c.g.below(1ull << (10 + c.g.below(38))); double lat = c.g.sym(85), lon = c.g.below(4) ? c.g.sym(180) : 180 - c.g.logu(1e-7, 1e-4), alt = c.g.real(-100, 4000); const int n = (int)c.g.range(5, 120); bool origin = false, filt = c.g.below(4) != 0, air = false, rest = true; double vz = 0, vn = 0, ve = 0, slope[3] = {}, jump = 0; gps_message g{}; const double good = c.g.pick<double>({0, 0.02, 0.3}); bool decl = false; f->_state.vel.setZero();
	auto quality = [&](bool ok) { g.fix_type = ok ? (uint8_t)c.g.range(3, 6) : (uint8_t)c.g.range(0, 6); auto q = [&](double lim) { return (float)(ok ? lim * c.g.real(0, 1) : lim * c.g.real(0, 2)); }; g.nsats = (uint8_t)(ok ? p.req_nsats + c.g.below(10) : c.g.below(20)); g.pdop = q(p.req_pdop); g.eph = q(p.req_hacc); g.epv = q(p.req_vacc); g.sacc = q(p.req_sacc); if (c.g.below(20) == 0) { g.eph = p.req_hacc; g.epv = p.req_vacc; g.sacc = p.req_sacc; g.pdop = p.req_pdop; g.nsats = (uint8_t)p.req_nsats; } };
	quality(true); int passed = 0; uint64_t origins = 0;
	for (int i = 0; i < n; i++) {
		const uint64_t d = c.g.pick<uint64_t>({100000, 200000, 200000, 1000000, c.g.below(400000), c.g.below(3000000), c.g.below(15000000)}); t += d; if (c.g.real(0, 1) < good) { quality(false); } else if (c.g.below(10) == 0) { quality(true); }
		if (c.g.below(12) == 0) { for (double &s : slope) { s = c.g.below(2) ? 0 : (c.g.below(2) ? 1 : -1) * c.g.logu(0.02, 20); } vn = c.g.below(2) ? 0 : c.g.signedLog(0.02, 20); ve = c.g.below(2) ? 0 : c.g.signedLog(0.02, 20); } if (c.g.below(10) == 0) { vz = c.g.below(2) ? 0 : c.g.signedLog(0.01, 10); f->_state.vel(2) = (float)(c.g.below(2) ? vz : c.g.sym(2)); }
		if (c.g.below(15) == 0) { air = c.g.below(4) == 0; } if (c.g.below(15) == 0) { rest = c.g.below(4) != 0; } if (c.g.below(30) == 0) { filt = true; } jump = c.g.below(40) == 0 ? c.g.sym(1e3) : 0;
		lat += (slope[0] * d * 1e-6 + jump) / 111194.93; lat = std::max(-88.0, std::min(88.0, lat)); lon = std::remainder(lon + slope[1] * d * 1e-6 / 111194.93 / std::cos(lat * M_PI / 180), 360.0); alt -= slope[2] * d * 1e-6;
		g.time_usec = t; g.lat = (int32_t)std::llround(lat * 1e7); g.lon = (int32_t)std::llround(lon * 1e7); g.alt = (int32_t)std::llround(alt * 1e3); g.vel_ned = matrix::Vector3f((float)vn, (float)ve, (float)vz); g.vel_ned_valid = true;
		f->_time_last_imu = t; f->_filter_initialised = filt; f->_control_status.flags.in_air = air; f->_control_status.flags.vehicle_at_rest = rest; const bool aiding = f->isHorizontalAidingActive(); if (c.g.below(8) == 0) { f->_control_status.flags.opt_flow = !f->_control_status.flags.opt_flow; f->_state.pos = matrix::Vector3f((float)c.g.sym(200), (float)c.g.sym(200), (float)c.g.sym(50)); } (void)aiding;
		const bool aid = f->isHorizontalAidingActive(), hadDecl = decl; const bool got = f->collect_gps(g); m.tie = false; const bool ok = m.message(g, t, air, rest, f->_state.vel(2)); char w[48]; std::snprintf(w, sizeof w, "message %d", i); compare(c, m, *f, w); if (m.tie) { m.fail = f->_last_gps_fail_us; m.pass = f->_last_gps_pass_us; } // at a limit: follow the code
		const bool okNow = m.fail + m.need < t; (void)ok; PBT_CHECK(c, f->_gps_checks_passed == okNow, "%s: checks %s, expected %s (last failure %.3f s ago, required %.3f s)", w, f->_gps_checks_passed ? "passed" : "not passed", okNow ? "passed" : "not passed", (double)(t - m.fail) * 1e-6, m.need * 1e-6); passed += okNow;
		const bool setNow = !origin && filt && okNow; PBT_CHECK(c, f->global_origin_valid() == (origin || setNow), "%s: origin valid %d, expected %d", w, f->global_origin_valid(), origin || setNow); PBT_CHECK(c, got == ((origin || setNow) && g.fix_type >= 3), "%s: data accepted %d with fix type %d", w, got, g.fix_type);
		if (setNow) {
			origin = true; origins++; uint64_t ot; double ola, olo; float oal; PBT_CHECK(c, f->getEkfGlobalOrigin(ot, ola, olo, oal), "%s: no origin", w); PBT_CHECK(c, ot == t, "%s: origin time", w); const double k = 111194.93, en = (ola - lat) * k, ee = std::remainder(olo - lon, 360.0) * k * std::cos(lat * M_PI / 180), sh = aid ? 1 : 0, px = f->_state.pos(0), py = f->_state.pos(1);
			c.close(en + sh * px, 0, 0.1, "origin north"); c.close(ee + sh * py, 0, 0.1 + 200 * 200 / 6.4e6 * std::fabs(std::tan(lat * M_PI / 180)) * sh, "origin east"); c.close(oal, alt + f->_state.pos(2), 2e-3 + 1e-6 * std::fabs(alt), "origin altitude"); c.close(f->_mag_declination_gps, get_mag_declination_radians((float)(g.lat * 1e-7), (float)(g.lon * 1e-7)), 1e-6, "declination of the origin"); PBT_CHECK(c, f->_gps_origin_eph == g.eph && f->_gps_origin_epv == g.epv, "%s: accuracy of the origin", w);
			if (p.mag_fusion_type != MAG_FUSE_TYPE_NONE && !hadDecl) { PBT_CHECK(c, f->_mag_yaw_reset_req, "%s: no yaw reset requested with the first declination", w); } if (p.vdist_sensor_type == VDIST_SENSOR_GPS) { PBT_CHECK(c, f->_control_status.flags.gps_hgt && !f->_control_status.flags.baro_hgt && !f->_control_status.flags.rng_hgt && !f->_control_status.flags.ev_hgt, "%s: GPS not the height source", w); } decl = true; c.cls(aid, "origin set while already aiding");
			const double er = 7.29211585e-5, L = ola * M_PI / 180; c.close(f->_earth_rate_NED(0), er * std::cos(L), 3e-8, "earth rate"); c.close(f->_earth_rate_NED(2), -er * std::sin(L), 3e-8, "earth rate");
		} else if (!origin && g.fix_type >= 2 && g.eph < 1000) { PBT_CHECK(c, std::isfinite(f->_mag_declination_gps), "%s: no declination from a rough fix", w); c.close(f->_mag_declination_gps, get_mag_declination_radians((float)(g.lat * 1e-7), (float)(g.lon * 1e-7)), 1e-6, "declination of a rough fix"); if (!hadDecl && p.mag_fusion_type != MAG_FUSE_TYPE_NONE) { PBT_CHECK(c, f->_mag_yaw_reset_req, "%s: no yaw reset requested with the first declination", w); } decl = true; }
		f->_mag_yaw_reset_req = false;
	}
	c.cls(origins > 0, "origin set"); c.note("%d messages, %d with all checks passed for long enough", n, passed); c.nontrivial(passed > 0 && passed < n);
}

// whole flights with outages in the reported quality: nothing is used before the checks passed
LAW(flight, 1000, 12000)
{
	sim::Scenario s; sim::Want o; o.T = 60; o.flow = c.g.below(4) == 0; sim::genScenario(c, s, o); genLimits(c, s.par); s.par.req_nsats = std::min(s.par.req_nsats, 8); if (c.g.below(4) == 0) { s.par.vdist_sensor_type = VDIST_SENSOR_GPS; } s.m.t0 = c.g.pick<double>({13, 25, 40}); s.build();
	// quality over time
	double until = 0; int mode = 0; const double bad = c.g.real(0.1, 0.7); pbt::Noise z(c.g.seed()); double dn = 0, lastT = 0, dvn = 0;
	for (auto &g : s.gps) {
		const double t = s.sec(g.time_usec); if (t > until) { until = t + (z.uni() < 0.3 ? 0.2 + z.uni() : 1 + 18 * z.uni()); mode = z.uni() < bad ? 1 + (int)(z.uni() * 8) : 0; dvn = mode == 7 ? 3 * (z.uni() - 0.5) : 0; }
		auto &p = s.par; g.nsats = (uint8_t)(p.req_nsats + 2); g.pdop = p.req_pdop * 0.8f; g.eph = std::min(1.f, p.req_hacc * 0.8f); g.epv = std::min(1.5f, p.req_vacc * 0.8f); g.sacc = std::min(0.3f, p.req_sacc * 0.8f);
		if (mode == 1) { g.fix_type = (uint8_t)(z.uni() * 3); } if (mode == 2) { g.nsats = (uint8_t)std::max(0, p.req_nsats - 1); } if (mode == 3) { g.pdop = p.req_pdop * 1.3f; } if (mode == 4) { g.eph = p.req_hacc * 1.3f; } if (mode == 5) { g.epv = p.req_vacc * 1.3f; } if (mode == 6) { g.sacc = p.req_sacc * 1.3f; } if (mode == 7) { g.vel_ned(0) += (float)dvn; dn += dvn * (t - lastT); } lastT = t; g.lat += (int32_t)std::llround(dn / 111194.93 * 1e7);
	}
	Checks m; m.slack = 5e-3; auto f = std::make_unique<Ekf>(); s.init(*f); m.p = s.par; if (c.g.below(2)) { m.need = (uint32_t)c.g.below(20000000); f->set_min_required_gps_health_time(m.need); } bool origin = false, everGps = false, everPass = false; uint64_t last = 0; int msgs = 0, fails = 0;
	for (auto &e : s.events) {
		if (e.k == sim::GPS) {
			const auto &g = s.gps[e.i]; const bool ready = f->_initialised && !f->_gps_buffer_fail; bool air = f->_control_status.flags.in_air, rest = f->_control_status.flags.vehicle_at_rest; const double vel = f->_state.vel(2); const bool filt = f->_filter_initialised; const uint64_t now = f->_time_last_imu; const bool in = ready && g.time_usec - last > f->_min_obs_interval_us; s.apply(*f, e); if (!in) { continue; } last = g.time_usec; m.tie = false; m.message(g, now, air, rest, vel); msgs++; fails += m.fail == now; char w[48]; std::snprintf(w, sizeof w, "%.2f s", s.sec(g.time_usec)); compare(c, m, *f, w); if (m.tie) { m.fail = f->_last_gps_fail_us; m.pass = f->_last_gps_pass_us; }
			const bool ok = m.fail + m.need < now; everPass |= ok && filt; const bool want = origin || (ok && filt); PBT_CHECK(c, f->global_origin_valid() == want, "%s: origin valid %d, expected %d (last failed check %.2f s ago, %.2f s required)", w, f->global_origin_valid(), want, (double)(now - m.fail) * 1e-6, m.need * 1e-6); origin = want;
		} else { const bool was = f->_control_status.flags.gps; s.apply(*f, e); const bool is = f->_control_status.flags.gps; everGps |= is; const double t = s.sec(e.t); PBT_CHECK(c, !is || origin, "%.2f s: GPS aiding without an origin", t); PBT_CHECK(c, !f->_control_status.flags.gps_hgt || origin, "%.2f s: GPS height before the checks passed", t); if (!was && is) { PBT_CHECK(c, m.fail + 5000000 < f->_time_last_imu, "%.2f s: GPS aiding started %.2f s after a failed check", t, (double)(f->_time_last_imu - m.fail) * 1e-6); PBT_CHECK(c, f->_control_status.flags.yaw_align && f->_control_status.flags.tilt_align, "%.2f s: GPS aiding started before alignment", t); } PBT_CHECK(c, f->global_origin_valid() == origin, "%.2f s: origin validity changed without a GPS message", t); PBT_CHECK(c, f->global_position_is_valid() <= origin, "%.2f s: global position valid without an origin", t); }
	}
	if (everPass && m.fail + 6000000 < f->_time_last_imu && !s.gps.empty() && s.sec(s.gps.back().time_usec) > s.T - 1 && f->_control_status.flags.yaw_align) { PBT_CHECK(c, f->_control_status.flags.gps, "GPS not used although the checks have passed for %.1f s", (double)(f->_time_last_imu - m.fail) * 1e-6); c.cls("used at the end"); }
	c.cls(everGps, "GPS used"); c.note("%d messages, %d failed", msgs, fails); c.nontrivial(fails > 1 && fails < msgs);
}
int main(int a, char **b) { return pbt::run("E18", "histories in which the checks both pass and fail", a, b); }
