// LIB: EKF geo/geo.cpp geo_lookup/geo_mag_declination.cpp
// TECHNIQUE: property-based testing: generated states and IMU increments, differential against double-precision strapdown equations
#include "ekf_box.hpp"

static const double G0 = 9.80665, SPIN = 7.2921150e-5;
static D3 v3(const matrix::Vector3f &v) { return {v(0), v(1), v(2)}; }
static void setV(matrix::Vector3f &v, D3 d) { v(0) = (float)d.x; v(1) = (float)d.y; v(2) = (float)d.z; }
// one step of the strapdown equations with the limits on the state
static void step(const double *x, D3 da, D3 dv, double dta, double dtv, D3 earth, double *y)
{
	for (int i = 0; i < NX; i++) { y[i] = x[i]; }
	Q4 q{x[0], x[1], x[2], x[3]}; const Q4 qn = qnormalize(q);
	const D3 w = da - D3{x[10], x[11], x[12]} - dta * qrotInv(qn, earth); q = qnormalize(qmul(q, qfromrotvec(w)));
	const D3 a = qrot(q, dv - D3{x[13], x[14], x[15]}); const double qa[4] = {q.w, q.x, q.y, q.z}, aa[3] = {a.x, a.y, a.z + G0 * dtv};
	for (int i = 0; i < 4; i++) { y[i] = qa[i]; }
	for (int i = 0; i < 3; i++) { y[4 + i] = x[4 + i] + aa[i]; y[7 + i] = x[7 + i] + 0.5 * dtv * (x[4 + i] + y[4 + i]); }
}
LAW(step, 1800000, 10000000)
{
	Box b = genBox(c); Ekf &e = *b.e; const double dta = c.g.real(0.005, 0.02), dtv = c.g.below(3) ? dta : c.g.real(0.005, 0.02); D3 earth{0, 0, 0};
	const bool spin = c.g.below(4); if (spin) { const double la = c.g.sym(M_PI / 2); earth = {SPIN * std::cos(la), 0, -SPIN * std::sin(la)}; if (c.g.below(3) == 0) { earth = 1000 * earth; } } setV(e._earth_rate_NED, earth); earth = v3(e._earth_rate_NED);
	auto &u = e._imu_sample_delayed; const double wr = c.g.pick<double>({0, 0.01, 1, 8, 100}), ar = c.g.pick<double>({0.1, 10, 60}); setV(u.delta_ang, {dta * c.g.sym(wr), dta * c.g.sym(wr), dta * c.g.sym(wr)}); setV(u.delta_vel, {dtv * c.g.sym(ar), dtv * c.g.sym(ar), dtv * (c.g.sym(ar) - G0)}); u.delta_ang_dt = (float)dta; u.delta_vel_dt = (float)dtv;
	const D3 da = v3(u.delta_ang), dv = v3(u.delta_vel); const double dt0 = e._dt_ekf_avg; double y[NX], z[NX]; step(b.r0.x, da, dv, u.delta_ang_dt, u.delta_vel_dt, earth, y);
	c.note("delta angle %g %g %g, delta velocity %g %g %g, steps %g %g, earth rate %g %g", da.x, da.y, da.z, dv.x, dv.y, dv.z, dta, dtv, earth.x, earth.z); c.nontrivial(wr > 0);
	e.predictState(); getState(e, z);
	for (int i = 0; i < 4; i++) { c.close(z[i], y[i], 3e-7 + 4 * EPSF * norm(da), "quaternion"); }
	for (int i = 4; i < 7; i++) { c.close(z[i], y[i], 4 * EPSF * (std::fabs(y[i]) + 2 * G0 * dtv) + norm(dv) * 1e-6 + 1e-9, "velocity"); }
	for (int i = 7; i < 10; i++) { c.close(z[i], y[i], 2 * EPSF * std::fabs(y[i]) + dtv * (8 * EPSF * std::fabs(y[i - 3]) + norm(dv) * 1e-6 + 8 * EPSF) + 1e-9, "position"); }
	for (int i = 10; i < NX; i++) { PBT_CHECK(c, z[i] == b.r0.x[i], "state %d changed from %.9g to %.9g by prediction", i, b.r0.x[i], z[i]); }
	double R[3][3]; rotOf(y, R); for (int i = 0; i < 3; i++) { for (int j = 0; j < 3; j++) { c.close(e._R_to_earth(i, j), R[i][j], 1e-6 + 16 * EPSF * norm(da), "rotation matrix"); } }
	c.close(e._dt_ekf_avg, 0.99 * dt0 + 0.01 * std::max(0.005, std::min(0.02, 0.5 * (dta + dtv))), 1e-8, "average step");
}
// N steps of constant rate and specific force against the analytic solution, also with earth rotation
LAW(run, 7500, 30000)
{
	Box b = genBox(c, 0, 0); Ekf &e = *b.e; const double dt = c.g.pick<double>({0.008, 0.01, 0.0125, 0.02}); const int n = (int)c.g.range(20, 1500); const D3 wb{c.g.sym(1), c.g.sym(1), c.g.sym(1)}, acc{c.g.sym(2), c.g.sym(2), c.g.sym(2)};
	const double la = c.g.sym(M_PI / 2); const D3 earth = {SPIN * std::cos(la), 0, -SPIN * std::sin(la)}; setV(e._earth_rate_NED, earth); auto &u = e._imu_sample_delayed; const float fdt = (float)dt; u.delta_ang_dt = u.delta_vel_dt = fdt;
	Q4 q = qnormalize({b.r0.x[0], b.r0.x[1], b.r0.x[2], b.r0.x[3]}); D3 v{b.r0.x[4], b.r0.x[5], b.r0.x[6]}, p{b.r0.x[7], b.r0.x[8], b.r0.x[9]}; const D3 bg{b.r0.x[10], b.r0.x[11], b.r0.x[12]}, ba{b.r0.x[13], b.r0.x[14], b.r0.x[15]};
	double pm = 1; for (int k = 0; k < n; k++) {
		// truth: the body turns at wb relative to the earth frame; the gyros also see the earth rotation
		const D3 s = wb + qrotInv(q, earth); setV(u.delta_ang, dt * s + bg); q = qnormalize(qmul(q, qfromrotvec(dt * wb)));
		const D3 f = qrotInv(q, acc - D3{0, 0, G0}); setV(u.delta_vel, dt * f + ba); const D3 v1 = v + dt * acc; p = p + 0.5 * dt * (v + v1); v = v1; pm = std::max(pm, norm(p));
		e.predictState();
	}
	c.nontrivial(); c.note("%d steps of %g s, rate %g %g %g, acceleration %g %g %g, latitude %g", n, dt, wb.x, wb.y, wb.z, acc.x, acc.y, acc.z, la);
	const Q4 qe{e._state.quat_nominal(0), e._state.quat_nominal(1), e._state.quat_nominal(2), e._state.quat_nominal(3)}; const double T = n * dt;
	const double eq = 2e-7 * std::sqrt((double)n) * 6 + 4e-8 * n; c.close(norm(rotvec(qmul(qconj(q), qnormalize(qe)))), 0, eq, "attitude after run");
	const double vm = norm(v) + 2 * T + 50, ev = n * (vm * EPSF + 12 * dt * (eq + 4e-7)); const D3 vv = v3(e._state.vel), pp = v3(e._state.pos); c.close(norm(vv - v), 0, ev, "velocity after run"); c.close(norm(pp - p), 0, ev * T + n * pm * EPSF + 1e-5, "position after run");
	c.close(e._dt_ekf_avg, dt + (0.01 - dt) * std::pow(0.99, n), 2e-8 * 10, "average step after run");
}
// earth rate and magnetic field reference follow from the position of the origin
LAW(earth_rate, 24000, 100000)
{
	std::unique_ptr<Ekf> e(new Ekf()); const double lat = c.g.sym(90), lon = c.g.sym(180); e->init(10000000); e->_time_last_imu = 10100000; e->_control_status.flags.tilt_align = true; const bool full = c.g.below(2);
	gps_message g{}; g.time_usec = 10050000; g.lat = (int32_t)std::lrint(lat * 1e7); g.lon = (int32_t)std::lrint(lon * 1e7); g.alt = 100000; g.yaw = NAN; g.fix_type = full ? 3 : 2; g.eph = 1; g.epv = 1; g.sacc = 0.1f; g.nsats = 12; g.pdop = 1; g.vel_ned_valid = true;
	e->_filter_initialised = full; e->getParamHandle()->gps_check_mask = 0; e->_last_gps_fail_us = 1; e->_time_last_imu = 40000000; e->collect_gps(g); if (full) { g.time_usec += 200000; e->collect_gps(g); }
	c.note("latitude %.7f longitude %.7f, %s", lat, lon, full ? "origin set" : "rough fix"); c.nontrivial(); const double la = (g.lat * 1e-7) * M_PI / 180;
	if (full) { PBT_CHECK(c, e->global_origin_valid(), "origin not set"); }
	c.close(e->_earth_rate_NED(0), SPIN * std::cos(la), 4e-11, "earth rate north"); c.close(e->_earth_rate_NED(1), 0, 1e-12, "earth rate east"); c.close(e->_earth_rate_NED(2), -SPIN * std::sin(la), 4e-11, "earth rate down");
}
int main(int argc, char **argv) { return pbt::run("E04", "case = state, IMU increments, step length and earth rate, or a run of 20 to 1500 such steps; non-trivial when the vehicle turns", argc, argv); }
