// LIB: EKF geo/geo.cpp geo_lookup/geo_mag_declination.cpp
// TECHNIQUE: property-based testing: invariants of the published state and outputs after every IMU sample over random simulated flights with injected sensor faults, IMU gaps and shocks, status, configuration and API changes; one prediction from generated states inside and far outside the limits
#define SIM_WHITE_BOX
#include "ekf_stress.hpp"
using namespace sim;

struct Prev { matrix::Vector<float, 24> x; bool have{false}; };
static void state(pbt::Ctx &c, Ekf &f, const Stress &s, double t, bool step, Prev &prev)
{
	auto x = f.getStateAtFusionHorizonAsVector(); const char *d = s.desc.c_str(); const auto &p = *f.getParamHandle();
	if (step) {
		for (int i = 0; i < 24; i++) { PBT_CHECK(c, std::isfinite(x(i)), "state %d = %g not finite at %.3f s [%s]", i, x(i), t, d); }
		double n = 0; for (int i = 0; i < 4; i++) { n += (double)x(i) * x(i); } c.worst("quaternion norm error / 1e-5", std::fabs(std::sqrt(n) - 1) / 1e-5); PBT_CHECK(c, std::fabs(std::sqrt(n) - 1) < 1e-5, "attitude quaternion norm %.7f at %.3f s [%s]", std::sqrt(n), t, d);
		// limits are enforced at each prediction; a correction after it may exceed them until the next one: a value that was not
		// corrected (bias, field and wind states have no dynamics) is inside, any value is inside with room for one correction
		const double dtMax = 0.02; auto lim = [&](int a, int b, double l, double room, const char *what) { for (int i = a; i <= b; i++) { const bool still = a >= 10 && prev.have && prev.x(i) == x(i); PBT_CHECK(c, std::fabs(x(i)) <= (still ? l * 1.01 : l + room), "%s state %d = %g exceeds %g at %.3f s [%s]", what, i, x(i), still ? l : l + room, t, d); c.cls(still && std::fabs(x(i)) > 0.999 * l, what); } };
		lim(4, 6, 1000, 1000, "velocity"); lim(7, 9, 1e6, 1e5, "position"); lim(10, 12, 20 * M_PI / 180 * dtMax, 0.3, "gyro bias"); lim(13, 15, p.acc_bias_lim * dtMax, 0.5, "accel bias"); lim(16, 18, 1, 20, "earth field"); lim(19, 21, 0.5, 20, "body field"); lim(22, 23, 100, 1000, "wind");
		const auto gb = f.getGyroBias(), ab = f.getAccelBias(); for (int i = 0; i < 3; i++) {
			const bool sg = prev.have && prev.x(10 + i) == x(10 + i), sa = prev.have && prev.x(13 + i) == x(13 + i); PBT_CHECK(c, !sg || std::fabs(gb(i)) <= 20 * M_PI / 180 * 1.015, "gyro bias %d = %g at %.3f s [%s]", i, gb(i), t, d); PBT_CHECK(c, !sa || std::fabs(ab(i)) <= p.acc_bias_lim * 1.015, "accel bias %d = %g, limit %g, at %.3f s [%s]", i, ab(i), p.acc_bias_lim, t, d); c.cls(sg && std::fabs(gb(i)) > 0.34, "gyro bias at limit"); c.cls(sa && std::fabs(ab(i)) > 0.97 * p.acc_bias_lim, "accel bias at limit"); }
		prev.x = x; prev.have = true;
	}
	if (!f.control_status().value) { return; } // not initialised (a height source is always selected)
	const auto q = f.getQuaternion(), q2 = f.calculate_quaternion(); double n = 0, n2 = 0; for (int i = 0; i < 4; i++) { n += (double)q(i) * q(i); n2 += (double)q2(i) * q2(i); }
	PBT_CHECK(c, std::fabs(std::sqrt(n) - 1) < 1e-5, "published quaternion norm %.7f at %.3f s [%s]", std::sqrt(n), t, d); PBT_CHECK(c, std::fabs(std::sqrt(n2) - 1) < 1e-5, "predicted quaternion norm %.7f at %.3f s [%s]", std::sqrt(n2), t, d);
	auto fin = [&](const char *w, const matrix::Vector3f &v) { for (int i = 0; i < 3; i++) { PBT_CHECK(c, std::isfinite(v(i)), "%s(%d) = %g at %.3f s [%s]", w, i, v(i), t, d); } };
	fin("velocity", f.getVelocity()); fin("position", f.getPosition()); fin("velocity derivative", f.getVelocityDerivative()); PBT_CHECK(c, std::isfinite(f.getVerticalPositionDerivative()), "vertical position derivative %g at %.3f s [%s]", f.getVerticalPositionDerivative(), t, d); PBT_CHECK(c, std::isfinite(f.getTerrainVertPos()) && std::isfinite(f.get_terrain_var()), "terrain %g var %g at %.3f s [%s]", f.getTerrainVertPos(), f.get_terrain_var(), t, d);
	fin("tracking error", f.getOutputTrackingError());
}
LAW(flights, 1500, 60000)
{
	Stress s; const char *mode = genStress(c, s, StressWant()); auto f = std::make_unique<Ekf>(); s.init(*f); c.cls(mode); for (int i = 0; i < 13; i++) { static const char *const n[] = {"parameters", "dropout", "dropout", "outlier", "sustained error", "IMU gap", "IMU shock", "field rotated", "fix lost", "calls", "calls", "calls", "calls"}; if (s.kinds >> i & 1) { c.cls(n[i]); } }
	int n = 0; Prev prev; for (auto &e : s.events) { const bool step = s.feed(*f, e); n += step; if (e.k == IMU) { state(c, *f, s, s.sec(e.t), step, prev); } }
	c.nontrivial(n > 1000);
}
// one prediction from any finite state
LAW(limits, 60000, 3000000)
{
	auto f = std::make_unique<Ekf>(); Ekf &e = *f; auto &p = *e.getParamHandle(); e.init(10000000); p.acc_bias_lim = (float)c.g.real(0.05, 2); e._dt_ekf_avg = (float)c.g.real(0.005, 0.02); e._filter_initialised = true;
	const double a = c.g.logu(0.01, 1e3); int out = 0; auto v = [&](double lim) { const int k = (int)c.g.below(4); const double x = k == 0 ? c.g.sym(lim) : k == 1 ? c.g.sym(lim * a) : k == 2 ? (c.g.below(2) ? -1 : 1) * lim * c.g.real(0.99, 1.01) : 0; out += std::fabs(x) > lim; return (float)x; };
	auto v3 = [&](double lim) { matrix::Vector3f w; for (int i = 0; i < 3; i++) { w(i) = v(lim); } return w; };
	matrix::Quatf q((float)c.g.sym(1), (float)c.g.sym(1), (float)c.g.sym(1), (float)c.g.sym(1)); if (!(q.norm() > 1e-3f)) { return; } e._state.quat_nominal = q.normalized() * (c.g.below(2) ? 1.f : (float)c.g.real(0.9, 1.1));
	const double gl = 20 * M_PI / 180 * e._dt_ekf_avg, al = (double)p.acc_bias_lim * e._dt_ekf_avg; e._state.vel = v3(1000); e._state.pos = v3(1e6); e._state.delta_ang_bias = v3(gl); e._state.delta_vel_bias = v3(al); e._state.mag_I = v3(1); e._state.mag_B = v3(0.5); e._state.wind_vel(0) = v(100); e._state.wind_vel(1) = v(100); e._R_to_earth = matrix::Dcmf(matrix::Quatf(e._state.quat_nominal).normalized());
	auto &u = e._imu_sample_delayed; const double dt = c.g.real(0.005, 0.02); u.delta_ang_dt = u.delta_vel_dt = (float)dt; for (int i = 0; i < 3; i++) { u.delta_ang(i) = (float)(c.g.sym(5) * dt); u.delta_vel(i) = (float)(c.g.sym(50) * dt); }
	const auto b = e.getStateAtFusionHorizonAsVector(); e.predictState(); const auto x = e.getStateAtFusionHorizonAsVector();
	double n = 0; for (int i = 0; i < 4; i++) { n += (double)x(i) * x(i); } PBT_CHECK(c, std::fabs(std::sqrt(n) - 1) < 1e-5, "attitude quaternion norm %.7f after a prediction", std::sqrt(n));
	const double lim[24] = {1, 1, 1, 1, 1000, 1000, 1000, 1e6, 1e6, 1e6, gl, gl, gl, al, al, al, 1, 1, 1, 0.5, 0.5, 0.5, 100, 100}; static const char *const name[] = {"velocity", "position", "gyro bias", "accelerometer bias", "earth field", "body field", "wind"};
	for (int i = 4; i < 24; i++) { const char *w = name[(i - 4) / 3]; PBT_CHECK(c, std::fabs((double)x(i)) <= lim[i] * (1 + 1e-5), "%s state %d = %g after a prediction exceeds %g (%g before)", w, i, x(i), lim[i], b(i)); c.cls(std::fabs((double)b(i)) > lim[i], w);
		if (i >= 10) { const double l = (double)(float)lim[i], want = std::max(-l, std::min(l, (double)b(i))); PBT_CHECK(c, std::fabs(x(i) - want) <= 1e-5 * l, "%s state %d = %g after a prediction, %g expected (%g before, limit %g)", w, i, x(i), want, b(i), lim[i]); } }
	c.nontrivial(out > 0);
}
int main(int argc, char **argv) { return pbt::run("E02", "a flight is non-trivial if the filter stepped more than 1000 times, a prediction if a state was outside its limit before", argc, argv); }
