// LIB: EKF geo/geo.cpp geo_lookup/geo_mag_declination.cpp
// TECHNIQUE: metamorphic property testing: pairs of generated flights, one with a gross outlier, the other without that sample or with another outlier in its place, must give identical estimates
#define SIM_WHITE_BOX
#include "ekf_sim.hpp"
#include "output_model.hpp"
using namespace sim;

// value used by the filter, given as one more component of a sample
struct Kick { int what; double size; D3 dir; };
// what: bit mask of the measurements the sample carries (GPS, vision): 1 horizontal position, 2 height, 4 velocity, 8 heading
// vertical outliers are downwards: an upward one is evidence of a falling inertial solution (clipped accelerometer) by design and makes the filter less confident for 10 s
static void kick(pbt::Ctx &c, Scenario &o, int k, uint32_t j, int what)
{
	auto &g = c.g; const double a = g.sym(M_PI), z = g.logu(1, 20); const double hor[2] = {std::cos(a), std::sin(a)};
	switch (k) {
	case MAG: { // the level part gets another direction and the field another strength at any attitude and dip
		auto &m = o.mag[j].mag; const Q4 q = o.m.q(o.sec(o.mag[j].time_us)); const D3 e = qrot(q, dv(m)); const double b = std::atan2(e.y, e.x) + (g.below(2) ? 1 : -1) * g.real(1.7, 3.1), r = g.real(0.7, 2);
		m = vf(qrotInv(q, D3{r * std::cos(b), r * std::sin(b), e.z + g.sym(0.5)})); break; }
	case BARO: o.baro[j].hgt -= (float)(30 * z); break;
	case GPS:
		if (what & 1) { o.gps[j].lat += (int)(hor[0] * z * 3e4 * 1e2 / 11.1 / 2); o.gps[j].lon += (int)(hor[1] * z * 3e4 * 1e2 / 11.1 / 2 / std::cos(o.lat0 * M_PI / 180)); } // 150 m and more
		if (what & 2) { o.gps[j].alt -= (int)(1e5 * z); } if (what & 4) { o.gps[j].vel_ned += matrix::Vector3f((float)(hor[0] * 20 * z), (float)(hor[1] * 20 * z), (float)(20 * z)); }
		if (what & 8) { o.gps[j].yaw = (float)wrapd(o.gps[j].yaw + (g.below(2) ? 1 : -1) * g.real(1.2, 3)); }
		break;
	case ASP: o.asp[j].true_airspeed += (float)(40 * z); break;
	case RNG: o.rng[j].rng *= (float)g.real(0.02, 0.3); break;
	case FLOW: { const int ax = (int)g.below(2); o.flow[j].flow_xy_rad(ax) = (float)((g.below(2) ? 1 : -1) * g.real(3.4, 4.5) * o.flow[j].dt); break; }
	case EV:
		if (what & 1) { o.ev[j].pos(0) += (float)(hor[0] * 30 * z); o.ev[j].pos(1) += (float)(hor[1] * 30 * z); } if (what & 2) { o.ev[j].pos(2) += (float)(30 * z); }
		if (what & 4) { const D3 d{hor[0] * 20 * z, hor[1] * 20 * z, 20 * z}; o.ev[j].vel = vf(dv(o.ev[j].vel) + (o.evBodyVel ? qrotInv(o.m.q(o.sec(o.ev[j].time_us) - 1e-3 * o.sn[EV].delayMs), d) : d)); }
		if (what & 8) { const Q4 q = qmul(qfromrotvec({0, 0, (g.below(2) ? 1 : -1) * g.real(1.2, 3)}), {o.ev[j].quat(0), o.ev[j].quat(1), o.ev[j].quat(2), o.ev[j].quat(3)}); o.ev[j].quat = matrix::Quatf((float)q.w, (float)q.x, (float)q.y, (float)q.z); }
		break;
	default: o.aux[j].vel(0) += (float)(hor[0] * 20 * z); o.aux[j].vel(1) += (float)(hor[1] * 20 * z);
	}
}

LAW(outlier, 1200, 40000)
{
	auto &g = c.g; Scenario s; Want w; w.T = g.real(45, 60); const char *mode = genAny(c, s, w); auto &P = s.par; P.fusion_mode &= ~(MASK_USE_DRAG | MASK_ROTATE_EV); s.evYaw = 0; P.check_mag_strength = 0; // a field of another strength is a reason not to use it at all
	for (int k = MAG; k < CTRL; k++) { Sensor &x = s.sn[k]; x.jitter = std::min(x.jitter, 0.2); if (k != GPS) { x.rate = k == FLOW ? g.real(15, 33) : g.real(12, 20); } } // every sample reaches the filter by itself
	s.groundH = 0.6; s.setDelays(); s.build();
	std::vector<int> kinds; for (int k = MAG; k < CTRL; k++) { if (s.sn[k].on) { kinds.push_back(k); } } const int k = kinds[g.below(kinds.size())];
	const double from = s.m.t0 + 1.3 * s.m.ramp + g.real(8, 22); size_t at = 0; for (size_t i = 0; i < s.events.size(); i++) { if (s.events[i].k == k && s.sec(s.events[i].t) >= from) { at = i; break; } } if (!at || from + 4 > s.T) { c.discard(); return; }
	const auto &ev = s.events[at]; const uint32_t j = ev.i; const int what = k == GPS || k == EV ? 1 + (int)g.below(15) : 15; 
	Scenario o1 = s, o2 = s; kick(c, o1, k, j, what); kick(c, o2, k, j, what);
	const bool odometry = k == EV && (P.fusion_mode & MASK_USE_GPS) && (P.fusion_mode & MASK_USE_EVPOS);
	auto a = std::make_unique<Ekf>(), b = std::make_unique<Ekf>(), f = std::make_unique<Ekf>(); o1.init(*a); o2.init(*b); s.init(*f); const uint64_t due = ev.t - (uint64_t)(int64_t)(float)((float)s.sn[k].delayMs * 1000) - 5000 - (k == MAG || k == BARO ? 1000 : 0); /* averaged in whole milliseconds */
	// used: measurements of the sample that correct the state now, as a mask of the parts above
	auto used = [&](Ekf &x) { const auto fl = x.control_status_flags(); switch (k) { case GPS: return (fl.gps ? 5 : 0) | (fl.gps_hgt ? 2 : 0) | (fl.gps_yaw ? 8 : 0); case BARO: return fl.baro_hgt ? 15 : 0; case MAG: if (P.mag_fusion_type == MAG_FUSE_TYPE_INDOOR) { return 0; } return fl.mag_hdg || fl.mag_3D ? 15 : 0; case ASP: return fl.fuse_aspd ? 15 : 0; case FLOW: return fl.opt_flow ? 15 : 0; case EV: return (fl.ev_pos ? 1 : 0) | (fl.ev_hgt ? 2 : 0) | (fl.ev_vel ? 4 : 0) | (fl.ev_yaw ? 8 : 0); case RNG: return fl.rng_hgt || x.isTerrainEstimateValid() ? 15 : 0; default: return x.control_status_flags().in_air ? 15 : 0; } };
	int use = 0; bool drop = false; ResetCount r0, r1; long compared = 0; bool rejected = false; uint64_t h = 0; bool atStep = false; uint32_t before = 0;
	for (size_t i = 0; i < s.events.size(); i++) {
		const auto &e = s.events[i];
		if (i == at) {
			use = used(*f); r0.read(*f); const auto fl = f->control_status_flags(); if (!fl.in_air || !(use & what)) { c.discard(); return; }
			// nothing else in the sample is used: the same as no sample
			drop = (use & ~what) == 0 && g.below(2) && k != FLOW && !odometry && !(k == EV && use & 2) && !(k == MAG && fl.mag_dec); c.cls(kindName[k]); c.cls(drop ? "against no sample" : "against another outlier"); c.cls(mode);
			c.note("%s; %s of %.4f s, parts %x of used %x, delay %.1f ms; %s; fusion mode %x height %d mag %d IMU %d us", mode, kindName[k], s.sec(ev.t), what, use, s.sn[k].delayMs, drop ? "against no sample" : "against another outlier", P.fusion_mode, P.vdist_sensor_type, P.mag_fusion_type, s.imuUs);
		}
		const bool st = o1.apply(*a, e); if (!(drop && i == at)) { o2.apply(*b, e); } s.apply(*f, e); if (i <= at || !st) { continue; }
		h = a->get_imu_sample_delayed().time_us; r1.read(*a); for (int n = 0; n < 5; n++) { if (r1.since(r0, n)) { if (!compared || !atStep) { c.discard(); return; } ResetCount q, qb; q.read(*f); qb.read(*b); PBT_CHECK(c, q.since(r0, n) || (n == 4 && qb.since(r0, n)) /* alignment in flight at a height, which is not known exactly */, "%s outlier of %.3f s: reset %d at %.3f s", kindName[k], s.sec(ev.t), n, s.sec(e.t)); c.discard(); return; } }
		if (h >= due && h < due + 150000) {
			// two sources share the flags of the horizontal position and velocity: then by the reported ratio
			if (k == GPS && (s.sn[AUX].on || a->control_status_flags().ev_pos || a->control_status_flags().ev_vel)) { rejected |= a->_gps_pos_test_ratio(0) > 1 || a->_gps_vel_test_ratio(0) > 1; } if (k == EV && (s.sn[AUX].on || a->control_status_flags().gps)) { rejected |= a->_ev_pos_test_ratio(0) > 1 || a->_ev_vel_test_ratio(0) > 1; }
			const auto fl = a->innov_check_fail_status_flags(); switch (k) {
			case GPS: rejected |= (what & use & 1 && fl.reject_hor_pos) || (what & use & 4 && (fl.reject_hor_vel || fl.reject_ver_vel)) || (what & use & 2 && fl.reject_ver_pos) || (what & use & 8 && fl.reject_yaw); break; case EV: rejected |= fl.reject_hor_pos || fl.reject_ver_pos || fl.reject_hor_vel || fl.reject_ver_vel || fl.reject_yaw; break;
			case BARO: rejected |= fl.reject_ver_pos; break; case MAG: rejected |= fl.reject_yaw || fl.reject_mag_x || fl.reject_mag_y || fl.reject_mag_z; break; case ASP: rejected |= fl.reject_airspeed; break; case FLOW: rejected |= fl.reject_optflow_X || fl.reject_optflow_Y; break; case RNG: rejected |= !f->control_status_flags().rng_hgt || fl.reject_ver_pos; break; default: rejected = true; }
		}
		if (!atStep && h < due) { before = f->control_status().value & 0x800070; } if (k == MAG && drop && h >= due && h < due + 200000 && ((f->control_status().value & 0x800070) != before || (a->control_status().value & 0x800070) != before || (b->control_status().value & 0x800070) != before || f->control_status_flags().mag_dec)) { c.discard(); return; } // with every sample it is chosen between heading and 3-D fusion
		if (!atStep && h >= due && (k == MAG || (what & use & 8 && (k == GPS || k == EV)))) { // a heading so wrong is far outside the gate, unless the estimate is wrong already
			const auto d = f->covariances_diagonal(); const double var = 4 * (d(0) + d(1) + d(2) + d(3)) + (k == MAG ? (double)P.mag_heading_noise * P.mag_heading_noise : 0.05); if (f->_yaw_test_ratio > 0.5f || 1.2 * 1.2 < 1.5 * std::pow(std::max(P.heading_innov_gate, 1.f), 2) * var) { c.discard(); return; }
		}
		if (k == RNG && !atStep && h >= due) { // far outside the gates
			const double r = s.rng[j].rng, d = r - std::max(o1.rng[j].rng, o2.rng[j].rng), sd = std::sqrt(f->_terrain_var + f->covariances_diagonal()(9) + P.range_noise * P.range_noise + std::pow(P.range_noise_scaler * r, 2)); if (d < 2 * std::max({P.range_innov_gate, 1.f}) * sd) { c.discard(); return; }
		}
		if (a->_time_acc_bias_check != b->_time_acc_bias_check) { c.discard(); return; } // accelerometer bias near its limit: the innovations are evidence for a wrong one
		atStep |= h >= due; compared++; const double t = s.sec(e.t);
		const auto xa = a->getStateAtFusionHorizonAsVector(), xb = b->getStateAtFusionHorizonAsVector(), xf = f->getStateAtFusionHorizonAsVector();
		for (int n = 0; n < 24; n++) { PBT_CHECK(c, xa(n) == xb(n), "state %d %.7g with the outlier, %.7g with%s at %.4f s, %.3f s after the measurement was due; normally %.7g", n, xa(n), xb(n), drop ? "out" : " another one", t, 1e-6 * (double)(int64_t)(h - due), xf(n)); }
		PBT_CHECK(c, a->getTerrainVertPos() == b->getTerrainVertPos(), "terrain %.6g with the outlier, %.6g with%s at %.4f s, %.3f s after the measurement was due", a->getTerrainVertPos(), b->getTerrainVertPos(), drop ? "out" : " another one", t, 1e-6 * (double)(int64_t)(h - due));
		const auto pa = a->getPosition(), pb = b->getPosition(), va = a->getVelocity(), vb = b->getVelocity(); for (int n = 0; n < 3; n++) { PBT_CHECK(c, pa(n) == pb(n) && va(n) == vb(n), "published position, velocity %d %.7g %.7g with the outlier, %.7g %.7g with%s at %.4f s", n, pa(n), va(n), pb(n), vb(n), drop ? "out" : " another one", t); }
		const auto da = a->covariances_diagonal(), db = b->covariances_diagonal(); for (int n = 0; n < 24; n++) { PBT_CHECK(c, da(n) == db(n), "variance %d %.7g with the outlier, %.7g with%s at %.4f s", n, da(n), db(n), drop ? "out" : " another one", t); }
		PBT_CHECK(c, (used(*a) & use) == (used(*f) & use), "%s used for %x, %x without the outlier, at %.4f s", kindName[k], used(*a), used(*f), t);
		PBT_CHECK(c, a->control_status().value == b->control_status().value, "status %x with the outlier, %x with%s at %.4f s", a->control_status().value, b->control_status().value, drop ? "out" : " another one", t);
		if (h > due + 3000000) { break; }
	}
	if (k == FLOW) { c.cls(rejected, "flow outlier rejected"); } else /* may be left out for other reasons */ { PBT_CHECK(c, rejected, "%s outlier of %.4f s not reported as rejected", kindName[k], s.sec(ev.t)); } c.nontrivial(compared > 100);
}
int main(int argc, char **argv) { return pbt::run("E11", "the outlier was in use and the flights were compared for 100 steps", argc, argv); }
