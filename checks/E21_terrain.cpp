// LIB: EKF geo/geo.cpp geo_lookup/geo_mag_declination.cpp
// TECHNIQUE: model-based property testing: generated single steps and random simulated flights with faults, every terrain step compared with a double-precision scalar Kalman filter and a timing model of validity; simulated flights over generated terrain compared with the true height above it
#define SIM_WHITE_BOX
#include "ekf_box.hpp"
#include "ekf_stress.hpp"
using namespace sim;

static const double FE = 3e-7; // one float rounding, with a margin
struct Terr { bool init{false}; double v{0}, P{1e4}; uint64_t hagl{0}, fake{0}, flow{0}; bool reject{false}; };
struct In {
	uint64_t now; bool inAir, rng, flow; int mode; double dist, range, z, vx, vy, P99, dt, q[4], vel[3], gyro[3], Re[3][3], comp[2], fdt, bias[2], off[3], R; const estimator::parameters *p;
};
struct Out { Terr t; double eV, eP, hi{0}, hS{0}, hr{0}, ehi{0}; bool hagl{false}, fl{false}; double fi[2], fS[2], efi[2], efS[2]; std::string path; double tie{1e9}; };
static double flowNoise(const estimator::parameters &p, int quality)
{
	const double best = std::max((double)p.flow_noise, 0.05), worst = std::max((double)p.flow_noise_qual_min, 0.05); double w = 255.0 - p.flow_qual_min;
	w = w >= 1 ? std::max(0.0, std::min(1.0, (quality - (double)p.flow_qual_min) / w)) : 0; const double s = best * w + worst * (1 - w); return s * s;
}
// one step; ties bit k: the k-th gate decision goes the other way if it is too near to call
static Out step(const Terr &a, const In &in, unsigned ties)
{
	Out o; o.t = a; Terr &t = o.t; const auto &p = *in.p; int k = 0; auto pass = [&](double r, double e) { const bool y = r <= 1; const double m = std::fabs(std::sqrt(r) - 1); if (m < 1e-5 + e) { o.tie = std::min(o.tie, m); return ((ties >> k++) & 1) ? !y : y; } return y; };
	o.eV = 3 * FE * (std::fabs(a.v) + std::fabs(in.z)) + 1e-9; o.eP = 6 * FE * a.P + 1e-12; const double clr = p.rng_gnd_clearance;
	if (!in.inAir) { t.init = true; t.v = in.z + clr; t.P = clr * clr; t.hagl = t.fake = in.now; o.path = "ground"; }
	else if (!a.init) {
		if ((in.mode & 1) && in.rng) { t.init = true; t.v = in.z + in.dist; t.P = (double)p.range_noise * p.range_noise; t.hagl = in.now; o.path = "init range"; }
		else if ((in.mode & 2) && in.flow) { t.init = true; t.v = std::max(0.0, in.z); t.P = 100; o.path = "init flow"; }
		else { o.path = "uninitialised"; }
	} else {
		o.path = "air"; t.P += std::pow(in.dt * p.terrain_p_noise, 2) + std::pow(in.dt * p.terrain_gradient, 2) * (in.vx * in.vx + in.vy * in.vy); t.P = std::min(std::max(t.P, 0.0), 1e4); o.eP += 6 * FE * t.P;
		if ((in.mode & 1) && in.rng) {
			const double innov = t.v - in.z - in.dist, ov = std::max(in.P99 * p.vehicle_variance_scaler, 0.0) + (double)p.range_noise * p.range_noise + std::pow((double)p.range_noise_scaler * in.range, 2), S = t.P + ov, g = std::max((double)p.range_innov_gate, 1.0);
			o.hagl = true; o.hi = innov; o.hS = S; o.hr = innov * innov / (g * g * S); o.ehi = o.eV + 3 * FE * (std::fabs(innov) + in.dist);
			if (pass(o.hr, o.ehi / g / std::sqrt(S))) { const double K = t.P / S; t.v -= K * innov; o.eV += o.ehi + 3 * FE * std::fabs(K * innov); t.P *= ov / S; o.eP += 4 * FE * (t.P + K * S); t.hagl = in.now; t.reject = false; o.path += "+range"; }
			else if (a.hagl + 10000000 < in.now) { t.v = in.z + in.dist; t.P = ov; o.path += "+range reset"; o.eP += 4 * FE * ov; }
			else { t.reject = true; o.path += "+range rejected"; }
		}
		if ((in.mode & 2) && in.flow) {
			double R[3][3]; rotOf(in.q, R); const D3 w{-in.gyro[0] / in.fdt, -in.gyro[1] / in.fdt, -in.gyro[2] / in.fdt}, off{in.off[0], in.off[1], in.off[2]}, lv = cross(w, off); /* rotated with the attitude of the last prediction */
			double le[3]; for (int i = 0; i < 3; i++) { le[i] = in.vel[i] + in.Re[i][0] * lv.x + in.Re[i][1] * lv.y + in.Re[i][2] * lv.z; } const D3 vb = toBody(in.q, {le[0], le[1], le[2]});
			t.v = std::max(t.v, clr + in.z); t.P = std::max(t.P, 0.0); const double h = t.v - in.z, eh = o.eV, pred[2] = {vb.y * R[2][2] / h, -vb.x * R[2][2] / h}, H[2] = {-pred[0] / h, -pred[1] / h}, g = std::max((double)p.flow_innov_gate, 1.0), vm = std::fabs(in.vel[0]) + std::fabs(in.vel[1]) + std::fabs(in.vel[2]) + norm(w) * norm(off);
			o.fl = true; const double rel = 3 * eh / h; 
			for (int i = 0; i < 2; i++) {
				const double obs = in.comp[i] / in.fdt + in.bias[i], S = H[i] * H[i] * t.P + in.R, innov = pred[i] - obs, K = t.P * H[i] / S, eH = 10 * FE * vm / h / h + rel * std::fabs(H[i]), ei = 10 * FE * vm / h + rel * std::fabs(pred[i]) + 4 * FE * (std::fabs(obs) + std::fabs(in.bias[i])), eK = t.P * eH / S * (1 + 2 * std::fabs(H[i] * K)) + 6 * FE * std::fabs(K) + o.eP * std::fabs(H[i]) / S;
				o.fi[i] = innov; o.fS[i] = S; o.efi[i] = ei; o.efS[i] = H[i] * H[i] * o.eP + 2 * std::fabs(H[i]) * eH * t.P + 6 * FE * S;
				// the height is the one before the first axis was used; the axis whose prediction this is decides
				if (pass(innov * innov / (g * g * S), ei / g / std::sqrt(S) + std::fabs(K) * eH + o.eP / std::max(t.P, 1e-12))) { t.v -= K * innov; o.eV += std::fabs(K) * ei + eK * std::fabs(innov) + FE * std::fabs(t.v); const double Pb = t.P; t.P = std::max(t.P - K * H[i] * t.P, 0.0); o.eP += eK * std::fabs(H[i]) * Pb + std::fabs(K) * eH * Pb + 6 * FE * Pb; t.flow = in.now; o.path += i ? "+flow y" : "+flow x"; } else { o.path += i ? "-flow y" : "-flow x"; }
			}
		}
		if (t.v - in.z < clr) { t.v = clr + in.z; }
	}
	o.eV += 2 * FE * (std::fabs(t.v) + std::fabs(in.z)); o.eP += 4 * FE * t.P;
	return o;
}
static In inputs(Ekf &e, bool flowRan)
{
	In i; i.now = e._time_last_imu; i.inAir = e._control_status.flags.in_air; i.rng = e._range_sensor.isDataHealthy(); i.flow = flowRan; i.p = e.getParamHandle(); i.mode = i.p->terrain_fusion_mode; i.dist = e._range_sensor.getDistBottom(); i.range = e._range_sensor.getRange();
	i.z = e._state.pos(2); i.vx = e._state.vel(0); i.vy = e._state.vel(1); i.P99 = e.P(9, 9); i.dt = e._imu_sample_delayed.delta_vel_dt; for (int k = 0; k < 4; k++) { i.q[k] = e._state.quat_nominal(k); } for (int k = 0; k < 3; k++) { i.vel[k] = e._state.vel(k); i.gyro[k] = e._flow_sample_delayed.gyro_xyz(k); i.off[k] = (double)i.p->flow_pos_body(k) - i.p->imu_pos_body(k); }
	for (int a = 0; a < 3; a++) { for (int b = 0; b < 3; b++) { i.Re[a][b] = e._R_to_earth(a, b); } } for (int k = 0; k < 2; k++) { i.comp[k] = e._flow_compensated_XY_rad(k); i.bias[k] = e._flow_gyro_bias(k); } i.fdt = e._flow_sample_delayed.dt; i.R = flowNoise(*i.p, e._flow_sample_delayed.quality); return i;
}
static bool recent(uint64_t t, uint64_t now) { return t + 5000000 > now; }
// compare the estimator with the model; returns the step that matches
static Out judge(pbt::Ctx &c, Ekf &e, const Terr &before, const In &in, const char *ctx, bool tellTimes = true)
{
	Out best = step(before, in, 0); std::string why; const double v = e.getTerrainVertPos(), P = e.get_terrain_var();
	for (unsigned m = 0; m < (best.tie < 1e8 ? 8u : 1u); m++) {
		const Out o = m ? step(before, in, m) : best; why.clear(); char b[200];
		if (std::fabs(v - o.t.v) > o.eV && o.t.init) { std::snprintf(b, sizeof b, "terrain height %.8g, expected %.8g (tolerance %.2g)", v, o.t.v, o.eV); why = b; }
		else if (std::fabs(P - o.t.P) > o.eP && o.t.init) { std::snprintf(b, sizeof b, "terrain variance %.8g, expected %.8g (tolerance %.2g)", P, o.t.P, o.eP); why = b; }
		else if (!o.t.init && ((float)before.v != (float)v || (float)before.P != (float)P)) { why = "terrain estimate changed without being initialised"; }
		else if (tellTimes) { const bool rr = recent(o.t.hagl, in.now), rf = recent(o.t.flow, in.now); const unsigned bits = ((in.mode & 1) && rr && o.t.hagl != o.t.fake ? 1 : 0) | ((in.mode & 2) && rf ? 2 : 0); if (m < 7 && best.tie < 1e8 && (e.isTerrainEstimateValid() != (o.t.init && (rr || rf)) || e.getTerrainEstimateSensorBitfield() != bits)) { why = "validity after a near tie"; } }
		if (why.empty()) { best = o; break; }
	}
	PBT_CHECK(c, why.empty(), "%s; step: %s, before %.8g variance %.6g, %s", why.c_str(), best.path.c_str(), before.v, before.P, ctx);
	const Terr &t = best.t; PBT_CHECK(c, e._terrain_initialised == t.init, "initialised %d, expected %d (%s), %s", (int)e._terrain_initialised, t.init, best.path.c_str(), ctx);
	if (t.init) { PBT_CHECK(c, v - in.z >= in.p->rng_gnd_clearance - best.eV || best.path == "init range" || best.path == "init flow", "height above terrain %g below the clearance, %s", v - in.z, ctx); PBT_CHECK(c, P >= 0 && (P <= 1e4 * 1.0001 || best.path.find("reset") != std::string::npos), "terrain variance %g, %s", P, ctx); }
	if (best.hagl) { float a, b, r; e.getHaglInnov(a); e.getHaglInnovVar(b); e.getHaglInnovRatio(r); PBT_CHECK(c, std::fabs(a - best.hi) <= best.ehi && std::fabs(b - best.hS) <= 2e-6 * best.hS && std::fabs(r - best.hr) <= 1e-5 * best.hr + 2 * std::fabs(best.hi) * best.ehi / best.hS, "range innovation %g (%g) variance %g (%g) ratio %g (%g), %s", a, best.hi, b, best.hS, r, best.hr, ctx); }
	if (tellTimes) {
		const bool rr = recent(t.hagl, in.now), rf = recent(t.flow, in.now); const unsigned bits = ((in.mode & 1) && rr && t.hagl != t.fake ? 1 : 0) | ((in.mode & 2) && rf ? 2 : 0);
		PBT_CHECK(c, e.isTerrainEstimateValid() == (t.init && (rr || rf)), "terrain reported %s; initialised %d, range or ground %.3f s ago, flow %.3f s ago (%s), %s", e.isTerrainEstimateValid() ? "valid" : "invalid", t.init, 1e-6 * (double)(in.now - t.hagl), 1e-6 * (double)(in.now - t.flow), best.path.c_str(), ctx);
		PBT_CHECK(c, e.getTerrainEstimateSensorBitfield() == bits, "sensor bits %d, expected %d; range %.3f s ago (on ground %d), flow %.3f s ago, mode %d (%s), %s", e.getTerrainEstimateSensorBitfield(), bits, 1e-6 * (double)(in.now - t.hagl), t.hagl == t.fake, 1e-6 * (double)(in.now - t.flow), in.mode, best.path.c_str(), ctx);
	}
	return best;
}

// one step from a generated state
LAW(box, 150000, 4000000)
{
	Box b = genBox(c); Ekf &e = *b.e; auto &p = *b.par; auto &g = c.g; e._R_to_earth = matrix::Dcmf(e._state.quat_nominal);
	p.terrain_fusion_mode = g.below(4) ? 3 : (int)g.below(4); p.terrain_p_noise = (float)g.logu(0.1, 20); p.terrain_gradient = (float)g.logu(0.01, 3); p.rng_gnd_clearance = (float)g.pick<double>({0.1, 0.02, 1, 5}); p.range_noise = (float)g.logu(0.005, 2); p.range_noise_scaler = (float)(g.below(2) ? 0 : g.real(0, 0.3)); p.vehicle_variance_scaler = (float)(g.below(2) ? 0 : g.real(0, 1)); p.range_innov_gate = (float)g.logu(0.4, 8); p.flow_innov_gate = (float)g.logu(0.4, 8);
	p.flow_noise = (float)g.logu(0.02, 0.6); p.flow_noise_qual_min = (float)g.logu(0.02, 1); p.flow_qual_min = (int)g.below(256); if (g.below(2)) { p.flow_pos_body = matrix::Vector3f((float)g.sym(0.5), (float)g.sym(0.5), (float)g.sym(0.5)); p.imu_pos_body = matrix::Vector3f((float)g.sym(0.3), (float)g.sym(0.3), (float)g.sym(0.3)); }
	e._control_status.flags.in_air = g.below(8) != 0; e._terrain_initialised = g.below(8) != 0; e._imu_sample_delayed.delta_vel_dt = (float)g.real(0.005, 0.02); const uint64_t now = e._time_last_imu;
	auto ago = [&]() -> uint64_t { return now - (uint64_t)g.pick<int64_t>({10000, 4990000, 5000000, 5000001, 9990000, 10000000, 10000001, (int64_t)g.below(20000000)}); };
	Terr t; t.init = e._terrain_initialised; t.hagl = e._time_last_hagl_fuse = ago(); t.flow = e._time_last_flow_terrain_fuse = ago(); t.fake = e._time_last_fake_hagl_fuse = g.below(3) ? ago() : t.hagl;
	const double h = g.below(8) ? g.logu(0.05, 150) : -g.real(0, 5); e._terrain_vpos = (float)(e._state.pos(2) + h); e._terrain_var = (float)(g.below(8) ? g.logu(1e-4, 1e3) : g.pick<double>({0, 1e4, 9999.9})); t.v = e._terrain_vpos; t.P = e._terrain_var;
	const bool rng = g.below(3) != 0, flow = g.below(3) != 0; auto &rs = e._range_sensor; const double S = t.P + sq(p.range_noise), cosT = g.below(2) ? 1 : g.real(0.7, 1); rs._cos_tilt_rng_to_earth = (float)cosT;
	rs.setRange((float)(std::max(0.0, h + g.pick<double>({0.1, 0.9, 1.3, 8}) * g.sym(1) * std::max(1.0, (double)p.range_innov_gate) * std::sqrt(S)) / cosT)); rs.setDataReadiness(rng || g.below(2)); rs.setValidity(rng); if (!rng && g.below(2)) { rs.setDataReadiness(false); rs.setValidity(true); }
	auto &f = e._flow_sample_delayed; f.dt = (float)g.real(0.01, 0.2); f.quality = (uint8_t)g.below(256); for (int i = 0; i < 3; i++) { f.gyro_xyz(i) = (float)(g.sym(1) * f.dt); } e._flow_gyro_bias = matrix::Vector3f((float)g.sym(0.05), (float)g.sym(0.05), 0); e._flow_for_terrain_data_ready = flow;
	t.reject = e._innov_check_fail_status.flags.reject_hagl = g.below(2); const uint16_t other = e._innov_check_fail_status.value;
	{ In i0 = inputs(e, flow); const Out o = step(t, i0, 0); for (int k = 0; k < 2; k++) { const double s = o.fl ? std::sqrt(std::fabs(o.fS[k])) : 0.1, pr = o.fl ? o.fi[k] + i0.comp[k] / i0.fdt + i0.bias[k] : 0; e._flow_compensated_XY_rad(k) = (float)((pr - g.pick<double>({0.3, 0.9, 1.3, 6}) * g.sym(1) * s * std::max(1.0, (double)p.flow_innov_gate) - i0.bias[k]) * i0.fdt); } }
	// without data the stored readiness stays
	const In in = inputs(e, flow); e._hagl_innov_var = 1; e._flow_innov_var(0) = e._flow_innov_var(1) = -1; e._last_on_ground_posD = -12345;
	c.note("mode %d, in air %d, initialised %d, range %d %g, flow %d, height %g, variance %g, velocity %g %g, last range %.3f s, ground %.3f s, flow %.3f s", p.terrain_fusion_mode, in.inAir, t.init, in.rng, in.dist, in.flow, h, t.P, in.vx, in.vy, 1e-6 * (double)(now - t.hagl), 1e-6 * (double)(now - t.fake), 1e-6 * (double)(now - t.flow)); c.nontrivial();
	e.runTerrainEstimator();
	const Out o = judge(c, e, t, in, ""); c.cls(o.path.c_str());
	if (o.fl) { for (int k = 0; k < 2; k++) { c.close(e._flow_innov(k), o.fi[k], o.efi[k] + 1e-7, "flow innovation"); c.close(e._flow_innov_var(k), o.fS[k], o.efS[k], "flow innovation variance"); } } else { PBT_CHECK(c, e._flow_innov_var(0) == -1, "flow used although it must not be"); }
	PBT_CHECK(c, (e._innov_check_fail_status.flags.reject_hagl != 0) == o.t.reject && (e._innov_check_fail_status.value & ~(1 << 10)) == (other & ~(1 << 10)), "rejection flags %x, before %x, expected rejection %d (%s)", e._innov_check_fail_status.value, other, o.t.reject, o.path.c_str());
	PBT_CHECK(c, in.inAir ? e._last_on_ground_posD == -12345 : e._last_on_ground_posD == e._state.pos(2), "height on the ground remembered wrongly");
}

// flights: every step, and the rules which flow measurement is used
LAW(flight, 1200, 60000)
{
	Stress s; StressWant w; w.T = 45; w.maxFaults = 6; const char *mode = genStress(c, s, w); c.cls(mode); auto f = std::make_unique<Ekf>(); Ekf &e = *f; auto &g = c.g;
	if (g.below(2)) { s.par.fusion_mode &= ~MASK_USE_OF; } if (g.below(3) == 0) { s.par.terrain_fusion_mode = 2; }
	if (!s.sn[FLOW].on && g.below(2)) { s.sn[FLOW].on = true; s.sn[FLOW].rate = g.real(10, 50); s.sn[FLOW].noise = 0.03; s.setDelays(); }
	const bool early = g.below(4) == 0; bool rngOff = g.below(2); double r0 = early ? 0 : g.real(20, 40), r1 = r0 + g.real(3, 20); s.terrainSlope = {g.sym(0.1), g.sym(0.1), 0};
	if (g.below(2)) { s.ops.clear(); Scenario &q = s; q.build(); } // otherwise as generated, with its faults
	s.init(e); bool lift = early; // in flight before the filter starts
	Terr t; unsigned paths = 0; long steps = 0, flows = 0; const char *d = s.desc.c_str(); c.note("%s; %s", mode, d);
	for (auto &ev : s.events) {
		const double ts = s.sec(ev.t); if (lift && ts > 0.5) { lift = false; e.set_in_air_status(true); c.cls("filter starts in flight"); } if (ev.k == RNG && rngOff && ts > r0 && ts < r1) { continue; }
		for (; s.nextOp < s.ops.size() && s.ops[s.nextOp].t <= ev.t; s.nextOp++) { // requests leave the terrain alone; a new origin moves it with the vehicle
			const float tv = e._terrain_vpos, tp = e._terrain_var, z = e._state.pos(2); s.call(e, s.ops[s.nextOp]);
			PBT_CHECK(c, e._terrain_var == tp && std::fabs((double)(e._terrain_vpos - tv) - (double)(e._state.pos(2) - z)) < 1e-3 + 1e-6 * (std::fabs(tv) + std::fabs(z)), "request at %.3f s moved the terrain by %g, the vehicle by %g [%s]", ts, e._terrain_vpos - tv, e._state.pos(2) - z, d);
		}
		const bool wasInit = e._filter_initialised, of0 = e._control_status.flags.opt_flow, gps0 = e._control_status.flags.gps, ready0 = e._flow_for_terrain_data_ready, data0 = e._flow_data_ready; const uint64_t smp0 = e._flow_sample_delayed.time_us; const float v0 = e._terrain_vpos, P0 = e._terrain_var; const auto iv = e._flow_innov_var; const bool val0 = e._hagl_valid; const uint8_t bits0 = e.getTerrainEstimateSensorBitfield();
		e._flow_innov_var(0) = -1; const bool stepd = s.feed(e, ev); bool ran = e._flow_innov_var(0) != -1; if (!ran) { e._flow_innov_var = iv; }
		if (!stepd) { if (wasInit) { PBT_CHECK(c, v0 == e._terrain_vpos && P0 == e._terrain_var && val0 == e._hagl_valid && bits0 == e.getTerrainEstimateSensorBitfield(), "terrain changed without a filter step at %.3f s", ts); } continue; }
		if (!wasInit) { t = Terr(); t.hagl = e._time_last_imu; if (!e._control_status.flags.in_air) { t.init = true; t.fake = t.hagl; } } else { t.v = v0; t.P = P0; }
		char ctx[64]; std::snprintf(ctx, sizeof ctx, "at %.3f s", ts); const std::string cs = std::string(ctx) + " [" + d + "]"; const bool of1 = e._control_status.flags.opt_flow;
		// when the main filter uses flow (before or after this step) its own fusion hides whether the terrain used it: both are tried
		const bool air = e._control_status.flags.in_air, useFlow = e.getParamHandle()->terrain_fusion_mode & 2, ambiguous = of0 || of1;
		const bool popped = e._flow_sample_delayed.time_us != smp0, data = (data0 && of0) || popped, cond = !ready0 && data && air && t.hagl + 5000000 < e._time_last_imu && !of0 && gps0, kept = !data || e._flow_data_ready || ambiguous, want = (ready0 || cond) && kept;
		// not initialised: flow that is ready initialises, and stays ready for the next step
		In in = inputs(e, ambiguous ? ready0 || cond : want);
		if (!ambiguous && t.init && air) { PBT_CHECK(c, ran == (want && useFlow), "flow %s for terrain %s: sample new %d good %d, flow aiding %d, gps %d, range last %.3f s ago, flow mode %d", ran ? "used" : "not used", cs.c_str(), popped, kept, of0, gps0, 1e-6 * (double)(in.now - t.hagl), useFlow); }
		if (!wasInit) { const Terr t2 = t; t.v = 0; t.P = 1e4; if (t2.init) { t.v = v0; } }
		const Out o = judge(c, e, t, in, cs.c_str()); t = o.t; steps++; if (o.fl) { flows++; }
		PBT_CHECK(c, !(o.fl && of0 && !ready0), "flow used for terrain while it aids the main filter %s", cs.c_str());
		for (auto n : {"ground", "init range", "init flow"}) { if (o.path == n) { paths |= 1u << (n[5] % 8); } } if (o.path.find("reset") != std::string::npos) { c.cls("reset to range"); } if (o.path == "init flow") { c.cls("initialised by flow"); } if (o.path == "init range") { c.cls("initialised by range"); } if (o.path.find("rejected") != std::string::npos) { c.cls("range rejected"); }
	}
	if (flows) { c.cls("flow used for terrain"); } c.nontrivial(steps > 1000);
}
// over generated terrain the estimated height above it is the true one while range or flow supports it, and it is reported invalid without them
LAW(truth, 300, 20000)
{
	Scenario s; auto &g = c.g; Want w; w.T = 60; w.range = true; w.flow = g.below(2); w.gps = g.below(4) != 0 || !w.flow; w.wing = false; genScenario(c, s, w); const double sl = g.below(3) ? g.real(0, 0.05) : 0, az = g.sym(M_PI); s.terrainSlope = {sl * std::cos(az), sl * std::sin(az), 0};
	if (!w.gps) { s.par.mag_declination_deg = (float)(std::atan2(s.magE.y, s.magE.x) * 180 / M_PI); }
	if (w.gps && w.flow && g.below(2)) { s.par.fusion_mode &= ~MASK_USE_OF; } // flow for the terrain only
	if (g.below(2)) { s.par.rng_sens_pitch = (float)g.sym(0.3); } s.par.terrain_fusion_mode = 3; const bool flowOnly = w.flow && !(s.par.fusion_mode & MASK_USE_OF); double a = 1e9, b = 1e9; if (g.below(2)) { a = g.real(25, 35); b = a + g.pick<double>({3, 6, 15, 40}); } s.build();
	const bool fo = g.below(2); if (!fo) { for (auto &e : s.events) { if (e.k == FLOW && s.sec(e.t) > a) { s.flow[e.i].quality = 0; } } } // flow lost as well
	auto f = std::make_unique<Ekf>(); s.init(*f); double lastRange = -1, worst = 0; int valid = 0, invalid = 0, flowOk = 0; const double clr = s.par.rng_gnd_clearance, mr = s.rngMax; c.note("gps %d flow %d used in the main filter %d, slope %.3f, climb to %.1f m, range missing %.1f..%.1f, flow %s then", w.gps, w.flow, !flowOnly, sl, s.m.H, a, b, fo ? "kept" : "lost"); c.nontrivial();
	for (auto &e : s.events) {
		const double t = s.sec(e.t); if (e.k == RNG && t >= a && t < b) { continue; } const bool stepd = s.apply(*f, e); if (!stepd || t < s.m.t0 + 2 * s.m.ramp || t > s.m.tEnd) { continue; }
		const double tm = s.sec(f->get_imu_sample_delayed().time_us); const D3 x = s.p(tm); const double h = s.terrainZ(x) - x.z, est = f->getTerrainVertPos() - f->getStateAtFusionHorizonAsVector()(9), sd = std::sqrt(f->get_terrain_var()); (void)mr;
		const double gone = std::min(std::max(tm - a, 0.0), tm < b ? 1e9 : 0.0); const bool outage = tm > a - 0.5 && tm < b + 4; const uint8_t bits = f->getTerrainEstimateSensorBitfield();
		if (h > 0.3 && h < 40 && !outage && !(b - a > 9 && tm > b && !(bits & 1)) /* after 10 s without it range is not believed before it varies */) { const double err = std::fabs(est - h), lim = 0.2 + (0.03 + 1.5 * sl) * h + (tm > b && tm < b + 11 ? 3 * sd : 0); worst = std::max(worst, err / lim); PBT_CHECK(c, err <= lim, "height above terrain %.3f m, true %.3f m at %.3f s (standard deviation %.3f, slope %.3f)", est, h, t, sd, sl); PBT_CHECK(c, f->isTerrainEstimateValid() && (bits & 1), "terrain estimate %s sensors %d although range is good at %.3f s (height %.2f)", f->isTerrainEstimateValid() ? "valid" : "invalid", bits, t, h); valid++; }
		if (outage && gone > 5.3 + s.delay(RNG)) {
			PBT_CHECK(c, !(bits & 1), "range reported as used %.2f s after the last sample, at %.3f s", gone, t);
			if (!(w.flow && w.gps && fo)) { PBT_CHECK(c, !f->isTerrainEstimateValid() && !(bits & 2), "terrain estimate valid (sensors %d) %.2f s after the last range and flow sample, at %.3f s", bits, gone, t); invalid++; }
			else if (gone > 8 && f->control_status_flags().gps) { const D3 v = s.m.v(tm); if (std::hypot(v.x, v.y) > 2 && h > 1 && h < 40) { const double err = std::fabs(est - h), lim = 0.3 + 0.12 * h + 2 * sd; c.worst("flow for terrain", err / lim); PBT_CHECK(c, err < lim, "height above terrain by flow %.3f m, true %.3f m at %.3f s (standard deviation %.3f)", est, h, t, sd); flowOk++; } }
		}
		if (!outage) { lastRange = tm; }
	}
	(void)lastRange; (void)clr; c.worst("range for terrain", worst); if (flowOk) { c.cls("terrain by flow"); } if (invalid) { c.cls("invalid without data"); } if (valid) { c.cls("terrain by range"); }
}
int main(int argc, char **argv) { return pbt::run("E21", "case = one terrain step from a generated state, or a flight with faults in which every step is checked; a flight is non-trivial if the filter made 1000 steps", argc, argv); }
