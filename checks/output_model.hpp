// Double-precision model of the published (output-predictor) solution: the newest solution is propagated with every IMU sample and
// the history of it is corrected so that its entry at the fusion horizon follows the delayed estimate.  Resets enter only through
// the changes the estimator announces.
#pragma once
#include "ekf_sim.hpp"
#include <deque>

namespace sim {
// the longest delay of a measurement that can be used [ms]
static inline float maxDelay(const estimator::parameters &p)
{
	float d = std::max(p.baro_delay_ms, std::max(p.auxvel_delay_ms, p.airspeed_delay_ms)); auto use = [&](bool on, float x) { if (on) { d = std::max(d, x); } }; const auto m = p.fusion_mode;
	use(p.mag_fusion_type != MAG_FUSE_TYPE_NONE, p.mag_delay_ms); use(p.range_aid || p.vdist_sensor_type == VDIST_SENSOR_RANGE || (p.terrain_fusion_mode & TerrainFusionMask::TerrainFuseRangeFinder), p.range_delay_ms);
	use((m & MASK_USE_GPS) || p.vdist_sensor_type == VDIST_SENSOR_GPS, p.gps_delay_ms); use((m & MASK_USE_OF) || (p.terrain_fusion_mode & TerrainFusionMask::TerrainFuseOpticalFlow), p.flow_delay_ms);
	use((m & (MASK_USE_EVPOS | MASK_USE_EVYAW | MASK_USE_EVVEL)) || p.vdist_sensor_type == VDIST_SENSOR_EV, p.ev_delay_ms); return d;
}
static inline int imuBufferLength(const estimator::parameters &p) { return (int)std::ceil(maxDelay(p) / 10) + 1; }
struct ResetCount {
	int n[5]{}; static const char *name(int i) { static const char *const k[] = {"horizontal velocity", "vertical velocity", "horizontal position", "vertical position", "attitude"}; return k[i]; }
	void read(const Ekf &f) { auto &r = f.state_reset_status(); n[0] = r.velNE_counter; n[1] = r.velD_counter; n[2] = r.posNE_counter; n[3] = r.posD_counter; n[4] = r.quat_counter; }
	int since(const ResetCount &o, int i) const { return (n[i] - o.n[i]) & 255; }
};
struct OutputModel {
	struct Out { Q4 q; D3 v, p; }; struct Vert { double v, p, dt; };
	size_t N{1}; std::deque<Out> buf; std::deque<Vert> vbuf; Out now{{1, 0, 0, 0}, {0, 0, 0}, {0, 0, 0}}; Vert vnow{0, 0, 0}; D3 dac{0, 0, 0}, velInt{0, 0, 0}, posInt{0, 0, 0}, rel{0, 0, 0}, deriv{0, 0, 0}, track{0, 0, 0}, off{0, 0, 0}; double dtEkf{0.01}; bool started{false}; ResetCount rc;
	// whole-estimator state taken from the estimator itself at its alignment (first processed step)
	void start(Ekf &f, const estimator::imuSample &u) { const D3 da = dv(u.delta_ang); now.q = qmul(dq(f.getQuaternion()), qconj(qfromrotvec(da))); started = true; auto r = f.state_reset_status(); (void)r; }
	// reset announcements since the last call; quat: also the attitude change
	int resets(const Ekf &f, bool quat = true)
	{
		ResetCount k; k.read(f); auto &r = f.state_reset_status(); int any = 0; double dvx[3]{}, dpx[3]{}; Q4 dqx{1, 0, 0, 0};
		if (k.since(rc, 0)) { dvx[0] = r.velNE_change(0); dvx[1] = r.velNE_change(1); any |= 1; } if (k.since(rc, 1)) { dvx[2] = r.velD_change; any |= 2; } if (k.since(rc, 2)) { dpx[0] = r.posNE_change(0); dpx[1] = r.posNE_change(1); any |= 4; } if (k.since(rc, 3)) { dpx[2] = r.posD_change; any |= 8; }
		if (quat && k.since(rc, 4)) { dqx = dq(r.quat_change); any |= 16; }
		rc = k; if (!any) { return 0; } const D3 a{dvx[0], dvx[1], dvx[2]}, b{dpx[0], dpx[1], dpx[2]};
		auto sh = [&](Out &o) { o.q = qmul(dqx, o.q); o.v = o.v + a; o.p = o.p + b; }; for (auto &o : buf) { sh(o); } sh(now); for (auto &o : vbuf) { o.v += a.z; o.p += b.z; } vnow.v += a.z; vnow.p += b.z; return any;
	}
	// one IMU sample; step: the filter stepped and the history gets a new entry
	void step(Ekf &f, const estimator::imuSample &u, bool step)
	{
		const auto x = f.getStateAtFusionHorizonAsVector(); const auto &p = *f.getParamHandle(); const auto &del = f.get_imu_sample_delayed(); const double dtImu = f.get_dt_imu_avg();
		if (step) { dtEkf = 0.99 * dtEkf + 0.01 * std::min(std::max(0.5 * ((double)del.delta_vel_dt + del.delta_ang_dt), 0.005), 0.02); }
		const double sc = dtImu / dtEkf; const D3 da = dv(u.delta_ang) - sc * D3{x(10), x(11), x(12)} + dac;
		now.q = qnormalize(qmul(now.q, qfromrotvec(da)));
		D3 dvE = qrot(now.q, dv(u.delta_vel) - sc * D3{x(13), x(14), x(15)}); dvE.z += 9.80665 * u.delta_vel_dt; if (u.delta_vel_dt > 1e-4f) { deriv = (1.0 / u.delta_vel_dt) * dvE; }
		const D3 v0 = now.v; now.v = now.v + dvE; vnow.v += dvE.z; const D3 dp = (0.5 * u.delta_vel_dt) * (now.v + v0); now.p = now.p + dp; vnow.p += dp.z; vnow.dt += u.delta_vel_dt;
		if (u.delta_ang_dt > 1e-4f) { rel = qrot(now.q, cross((1.0 / u.delta_ang_dt) * dv(u.delta_ang), dv(p.imu_pos_body))); } off = qrot(now.q, dv(p.imu_pos_body));
		if (!step) { return; }
		buf.push_back(now); vbuf.push_back(vnow); if (buf.size() > N) { buf.pop_front(); vbuf.pop_front(); }
		const Out &o = buf.front(); Q4 qe = qmul(qconj(qnormalize(Q4{x(0), x(1), x(2), x(3)})), o.q); const double s = qe.w >= 0 ? -2 : 2; const D3 ae{s * qe.x, s * qe.y, s * qe.z};
		const double delay = std::max(1e-6 * (double)(u.time_us - del.time_us), dtImu); dac = (0.5 * dtImu / delay) * ae;
		const double vg = dtEkf / std::min(std::max((double)p.vel_Tau, dtEkf), 10.0), pg = dtEkf / std::min(std::max((double)p.pos_Tau, dtEkf), 10.0);
		const double vc = (x(9) - vbuf.front().p) * pg + (x(6) - vbuf.front().v) * vg * 1.1; for (auto &w : vbuf) { w.v += vc; } for (size_t i = 1; i < vbuf.size(); i++) { vbuf[i].p = vbuf[i - 1].p + 0.5 * (vbuf[i - 1].v + vbuf[i].v) * vbuf[i].dt; } vnow = vbuf.back(); vnow.dt = 0;
		const D3 ve = D3{x(4), x(5), x(6)} - o.v, pe = D3{x(7), x(8), x(9)} - o.p; track = {norm(ae), norm(ve), norm(pe)}; velInt = velInt + ve; posInt = posInt + pe;
		const D3 cv = vg * ve + (vg * vg * 0.1) * velInt, cp = pg * pe + (pg * pg * 0.1) * posInt; for (auto &w : buf) { w.v = w.v + cv; w.p = w.p + cp; } now = buf.back();
	}
	D3 velocity() const { return now.v - rel; } D3 position() const { return now.p - off; } double vertVel() const { return vnow.v - rel.z; }
};
} // namespace sim
