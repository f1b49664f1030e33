// LIB: EKF geo/geo.cpp geo_lookup/geo_mag_declination.cpp
// TECHNIQUE: model-based and metamorphic property testing: flights with generated sensor rates, jitter, delays and call order against a queue model of when each measurement is taken up, and pairs of flights differing in one measurement
#define SIM_WHITE_BOX
#include "ekf_sim.hpp"
#include "output_model.hpp"
#include <deque>
using namespace sim;

// other rates than the sensors of genAny have
static void rates(pbt::Ctx &c, Scenario &s, double hi)
{
	auto &g = c.g; for (int k = MAG; k < CTRL; k++) { Sensor &x = s.sn[k]; if (!x.on) { continue; } if (g.below(2)) { x.rate = g.logu(k == GPS ? 2 : 4, hi); } if (g.below(2)) { x.jitter = g.real(0, 0.95); } if (g.below(3) == 0) { x.delayMs = g.below(3) ? g.real(0, 230) : 0; } }
	s.par.sensor_interval_min_ms = g.pick<int>({20, 20, 10, 5, 2, 40, 100}); s.imuUs = g.pick<int>({2500, 4000, 5000, 8000, 10000, 1000}); s.imuJitter = g.below(2) ? g.real(0, 0.3) : 0; s.sensorsFirst = g.below(2);
}
// one sensor's queue: measurement times and one value, in the order of arrival
struct Queue {
	struct S { uint64_t ts; double val; int id; }; std::deque<S> q; uint64_t last = 0, sum = 0, n = 0; double vs = 0; int L = 0, ids = 0; bool full = false; long lostFuture = 0, used = 0, accepted = 0; uint64_t lastUsed = 0;
	void clear() { q.clear(); }
	// returns true if the measurement (or the average ending with it) was put in the queue
	bool push(uint64_t t, double val, double delayMs, bool average, uint64_t minInt, uint64_t horizon)
	{
		n++; sum += t / 1000; vs += val; if (!(t - last > minInt)) { return false; }
		last = t; const uint64_t ts = (average ? 1000 * (sum / n) : t) - (uint64_t)(int64_t)(float)((float)delayMs * 1000) - 5000; if ((int)q.size() == L) { if (q.front().ts > horizon + 20000) { lostFuture += full; } q.pop_front(); }
		q.push_back({ts, average ? vs / n : val, ids++}); accepted++; n = sum = 0; vs = 0; return true;
	}
	void drop() { n = sum = 0; vs = 0; } // not averaged
	// the newest one not newer than the horizon and less than 0.1 s older, with all before it gone
	const S *pop(uint64_t h) { static S r; for (int i = (int)q.size() - 1; i >= 0; i--) { if (q[i].ts <= h && h < q[i].ts + 100000) { r = q[i]; q.erase(q.begin(), q.begin() + i + 1); used++; return &r; } } return nullptr; }
};

LAW(samples, 600, 15000)
{
	auto &g = c.g; Scenario s; Want w; w.T = 24; const char *mode = genAny(c, s, w); rates(c, s, g.pick<double>({60, 200, 900})); s.setDelays(); s.build(); c.cls(mode); c.note("%s; fusion mode %x height %d mag %d, IMU %d us, minimum interval %d ms", mode, s.par.fusion_mode, s.par.vdist_sensor_type, s.par.mag_fusion_type, s.imuUs, (int)s.par.sensor_interval_min_ms);
	s.par.synthesize_mag_z = 0; auto f = std::make_unique<Ekf>(); s.init(*f); const auto &P = s.par;
	const int N = imuBufferLength(P); const double md = maxDelay(P);
	const int L = std::max(2, std::min(N, (int)std::ceil((float)md * 1.5f / P.sensor_interval_min_ms))); Queue qs[NKIND]; for (int k = 0; k < NKIND; k++) { qs[k].L = k == FLOW ? N : L; }
	const bool needGps = (P.fusion_mode & MASK_USE_GPS) || P.vdist_sensor_type == VDIST_SENSOR_GPS; bool started = false, anyDown = false; uint64_t minInt = 0; std::deque<uint64_t> down; uint64_t h = 0; long steps = 0, ready = 0; double bodyLag = 0;
	for (auto &e : s.events) {
		const double t = s.sec(e.t); const bool flowWait = f->_flow_data_ready, flowOn = f->control_status_flags().opt_flow, origin = f->global_origin_valid();
		if (e.k != IMU) {
			s.apply(*f, e); if (e.k == CTRL || !anyDown) { if (e.k != CTRL && !down.empty()) { c.fail("model"); } if (e.k == CTRL || !f->_initialised) { continue; } }
			if (e.k == GPS) { if (!needGps) { continue; } if (!origin && f->global_origin_valid()) { qs[GPS].clear(); } }
			const bool avg = e.k == MAG || e.k == BARO; double val = 0, dl = s.sn[e.k].delayMs; uint64_t tt = e.t;
			switch (e.k) { case MAG: val = s.mag[e.i].mag(0); break; case BARO: val = s.baro[e.i].hgt; break; case GPS: val = s.gps[e.i].vel_ned(0); break; case ASP: val = s.asp[e.i].true_airspeed; break; case RNG: val = s.rng[e.i].rng; break; case FLOW: val = s.flow[e.i].flow_xy_rad(0); break; case EV: val = s.ev[e.i].pos(0); break; default: val = s.aux[e.i].vel(0); }
			if (!qs[e.k].push(tt, val, dl, avg, minInt, h)) { if (!avg) { qs[e.k].drop(); } } continue;
		}
		const bool stepped = s.apply(*f, e);
		if (f->_imu_updated) {
			down.push_back(s.imu[e.i].time_us); if ((int)down.size() > N) { down.pop_front(); } anyDown = true; h = down.front(); minInt = (s.imu[e.i].time_us - h) / (L - 1);
			PBT_CHECK(c, f->get_imu_sample_delayed().time_us == h, "fusion horizon %.6f s at %.6f s, expected %.6f", s.sec(f->get_imu_sample_delayed().time_us), t, s.sec(h));
			for (auto &x : qs) { x.full = t > 6 && 10000 % s.imuUs == 0 && s.imuJitter == 0; } // otherwise the horizon moves back and forth by periods
			if ((int)down.size() == N) { bodyLag = 1e-6 * (s.imu[e.i].time_us - h); PBT_CHECK(c, bodyLag > md * 0.75e-3 - 0.01, "fusion horizon %.4f s behind at %.3f s, the longest delay is %.4f s", bodyLag, t, md * 1e-3); }
		}
		if (!started) {
			if (stepped) { started = true; } if (anyDown) { qs[MAG].pop(h); qs[BARO].pop(h); }
			if (!stepped) { if (f->_filter_initialised) { started = true; } continue; }
		}
		if (!stepped) { continue; }
		steps++;
		auto chk = [&](int k, bool rdy, uint64_t ts, double val, double tol) {
			const auto *m = qs[k].pop(h); const char *nm = kindName[k]; ready += m != nullptr;
			PBT_CHECK(c, rdy == (m != nullptr), "%s %s at %.4f s, horizon %.4f s", nm, rdy ? "taken up without a measurement due" : "not taken up although due", t, s.sec(h)); if (!m) { return; }
			PBT_CHECK(c, ts == m->ts, "%s measured at %.6f s taken up at %.4f s, horizon %.4f s; due is the one of %.6f s", nm, s.sec(ts), t, s.sec(h), s.sec(m->ts)); PBT_CHECK(c, std::fabs(val - m->val) <= tol, "%s of %.6f s is %g, expected %g", nm, s.sec(ts), val, m->val);
			PBT_CHECK(c, ts > qs[k].lastUsed, "%s of %.6f s used after the one of %.6f s", nm, s.sec(ts), s.sec(qs[k].lastUsed)); qs[k].lastUsed = ts;
		};
		chk(MAG, f->_mag_data_ready, f->_mag_sample_delayed.time_us, f->_mag_sample_delayed.mag(0), 2e-6); chk(BARO, f->_baro_data_ready, f->_baro_sample_delayed.time_us, f->_baro_sample_delayed.hgt, 2e-3);
		chk(GPS, f->_gps_data_ready, f->_gps_sample_delayed.time_us, f->_gps_sample_delayed.vel(0), 100); chk(ASP, f->_tas_data_ready, f->_airspeed_sample_delayed.time_us, f->_airspeed_sample_delayed.true_airspeed, 0); chk(EV, f->_ev_data_ready, f->_ev_sample_delayed.time_us, f->_ev_sample_delayed.pos(0), 1e3);
		// these are used up in the step: seen by the sample
		auto late = [&](int k, uint64_t ts) { const auto *m = qs[k].pop(h); ready += m != nullptr; if (m) { PBT_CHECK(c, ts == m->ts, "%s measured at %.6f s taken up by %.4f s, horizon %.4f s; due is the one of %.6f s", kindName[k], s.sec(ts), t, s.sec(h), s.sec(m->ts)); qs[k].lastUsed = ts; } else { PBT_CHECK(c, ts == qs[k].lastUsed || qs[k].lastUsed == 0, "%s of %.6f s taken up at %.4f s without being due", kindName[k], s.sec(ts), t); } };
		late(RNG, f->_range_sensor._sample.time_us); late(AUX, f->_auxvel_sample_delayed.time_us);
		if (!flowWait || !flowOn) { late(FLOW, f->_flow_sample_delayed.time_us); }
		for (int k = MAG; k < CTRL; k++) { PBT_CHECK(c, qs[k].lostFuture == 0, "%s: a measurement was overwritten before the fusion horizon reached it, %.3f s", kindName[k], t); }
	}
	c.nontrivial(steps > 500 && ready > 200); for (int k = MAG; k < CTRL; k++) { if (qs[k].used) { c.cls(kindName[k]); } }
}
// one measurement changed a little: the first difference in anything estimated appears in the step that brings the fusion horizon to its time
LAW(effect, 500, 15000)
{
	auto &g = c.g; Scenario s; Want w; w.T = g.real(19, 40); const char *mode = genAny(c, s, w); s.imuUs = g.pick<int>({2500, 4000, 5000, 10000, 1000}); s.par.fusion_mode &= ~MASK_USE_DRAG; /* averages of the IMU data */ if (g.below(3) == 0) { for (int k = MAG; k < CTRL; k++) { if (s.sn[k].on && g.below(2)) { s.sn[k].delayMs = g.below(4) ? g.real(0, 230) : 0; } } } s.setDelays(); s.build(); c.cls(mode); const auto &P = s.par;
	const double md = maxDelay(P);
	std::vector<int> kinds; for (int k = IMU; k < CTRL; k++) { if (k == IMU || s.sn[k].on) { kinds.push_back(k); } } const int k = kinds[g.below(kinds.size())]; const double from = std::max(g.real(14, s.T - 3), k == IMU ? s.m.t0 + s.airborneFrom * s.m.ramp + 0.2 : 0); size_t at = 0; for (size_t i = 0; i < s.events.size(); i++) { if (s.events[i].k == k && s.sec(s.events[i].t) >= from) { at = i; break; } } if (!at) { c.discard(); }
	Scenario o = s; const auto &ev = s.events[at]; const uint32_t j = ev.i; const float d = (float)((g.below(2) ? 1 : -1) * g.real(0.5, 1)); const int ax = (int)g.below(3); c.note("%s; %s of %.4f s, delay %.1f ms changed; fusion mode %x height %d mag %d IMU %d us", mode, kindName[k], s.sec(ev.t), s.sn[k].delayMs, P.fusion_mode, P.vdist_sensor_type, P.mag_fusion_type, s.imuUs);
	switch (k) { case IMU: o.imu[j].delta_vel(ax) += 1e-3f * d; break; case MAG: o.mag[j].mag(ax) += 5e-3f * d; break; case BARO: o.baro[j].hgt += 0.2f * d; break; case GPS: if (g.below(2)) { o.gps[j].vel_ned(ax) += 0.1f * d; } else { o.gps[j].alt += (int)(300 * d); o.gps[j].lat += (int)(20 * d); } break; case ASP: o.asp[j].true_airspeed += 0.3f * d; break; case RNG: o.rng[j].rng += 0.02f * d; break; case FLOW: o.flow[j].flow_xy_rad(ax % 2) += 2e-3f * d; break; case EV: o.ev[j].pos(ax) += 0.05f * d; o.ev[j].vel(ax) += 0.05f * d; o.ev[j].quat = o.ev[j].quat * matrix::Quatf(matrix::AxisAnglef(0, 0, 0.01f * d)); break; default: o.aux[j].vel(ax % 2) += 0.05f * d; }
	auto a = std::make_unique<Ekf>(), b = std::make_unique<Ekf>(); s.init(*a); o.init(*b); const uint64_t due = k == IMU ? ev.t : ev.t - (uint64_t)(int64_t)(float)((float)s.sn[k].delayMs * 1000) - 5000; uint64_t h = 0, hp = 0; ResetCount r0, r1; bool direct = false; const bool avg = k == MAG || k == BARO;
	// in use: the effect is the correction, not one through quantities the estimate depends on later
	auto used = [&](Ekf &f) { const auto fl = f.control_status_flags(); switch (k) { case GPS: return (bool)fl.gps; case BARO: return (bool)fl.baro_hgt; case MAG: return fl.mag_hdg || fl.mag_3D; case ASP: return (bool)fl.fuse_aspd; case FLOW: return (bool)fl.opt_flow; case EV: return fl.ev_pos || fl.ev_vel || fl.ev_yaw || fl.ev_hgt; case RNG: return (bool)fl.rng_hgt; default: return k == IMU; } };
	auto terrain = [](Ekf &f) { return f.getTerrainVertPos(); };
	for (size_t i = 0; i < s.events.size(); i++) {
		const auto &e = s.events[i]; const bool st = s.apply(*a, e); o.apply(*b, e); if (i == at) { direct = used(*a); r0.read(*a); } if (!st) { continue; } hp = h; h = a->get_imu_sample_delayed().time_us;
		if (i < at || (e.t < ev.t)) { continue; }
		const auto xa = a->getStateAtFusionHorizonAsVector(), xb = b->getStateAtFusionHorizonAsVector(); bool diff = terrain(*a) != terrain(*b); for (int n = 0; n < 24; n++) { diff |= xa(n) != xb(n); }
		float ya = 0, yb = 0, t5[5], va, vb; if (a->getDataEKFGSF(&ya, &va, t5, t5, t5, t5) && b->getDataEKFGSF(&yb, &vb, t5, t5, t5, t5)) { diff |= ya != yb; }
		if (diff) {
			r1.read(*a); for (int n = 0; n < 5; n++) { if (r1.since(r0, n)) { c.discard(); return; } } // a reset may use the newest data
			c.nontrivial(); c.cls(kindName[k]); const double t = s.sec(e.t), er = 1e-6 * ((double)(int64_t)(h - due));
			if (avg && s.sn[k].rate > 15) { // possibly averaged with the ones before and after
				const double slack = (1.0 + s.sn[k].jitter) / s.sn[k].rate + 2e-3 * std::max(md, 20.0) / std::max(1.0, 1.5 * md / P.sensor_interval_min_ms - 1); PBT_CHECK(c, er > -slack && (!direct || er < slack + 0.025), "%s of %.4f s with a delay of %.1f ms changes the estimate of %.4f s, due is %.4f s (%.4f s later)", kindName[k], s.sec(ev.t), s.sn[k].delayMs, s.sec(h), s.sec(due), er); return; }
			PBT_CHECK(c, h >= due, "%s of %.4f s with a delay of %.1f ms changes the estimate of %.4f s first, due is %.4f s (step before: %.4f s)", kindName[k], s.sec(ev.t), s.sn[k].delayMs, s.sec(h), s.sec(due), s.sec(hp));
			if (!direct) { c.cls("not in direct use"); return; } c.worst("fused after it was due (s)", er); PBT_CHECK(c, er < 0.032, "%s of %.4f s with a delay of %.1f ms taken up %.1f ms late", kindName[k], s.sec(ev.t), s.sn[k].delayMs, 1e3 * er); return;
		}
		if (h > due + 400000) { break; }
	}
	c.discard();
}
int main(int argc, char **argv) { return pbt::run("E23", "samples: the filter made 500 steps and took up 200 measurements; effect: the changed measurement changed the estimate", argc, argv); }
