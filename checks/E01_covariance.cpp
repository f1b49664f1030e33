// LIB: EKF geo/geo.cpp geo_lookup/geo_mag_declination.cpp
// TECHNIQUE: property-based testing: invariants of the published covariance after every update over random simulated flights with injected sensor faults, IMU gaps and shocks, status, configuration and API changes
#include "ekf_stress.hpp"
using namespace sim;

// published covariance after an update
static void covariance(pbt::Ctx &c, Ekf &f, const Stress &s, double t, int &runMag, int &runWind, bool corr)
{
	const auto &P = f.covariances(); const auto fl = f.control_status_flags(); const char *when = "after an update";
	for (int i = 0; i < 24; i++) { for (int j = i; j < 24; j++) {
		PBT_CHECK(c, std::isfinite(P(i, j)) && std::isfinite(P(j, i)), "covariance(%d,%d) = %g not finite %s at %.3f s [%s]", i, j, P(i, j), when, t, s.desc.c_str());
		PBT_CHECK(c, P(i, j) == P(j, i), "covariance(%d,%d) = %g but (%d,%d) = %g %s at %.3f s [%s]", i, j, P(i, j), j, i, P(j, i), when, t, s.desc.c_str()); } }
	auto lim = [&](int a, int b, double lo, double hi) { for (int i = a; i <= b; i++) { PBT_CHECK(c, P(i, i) >= lo && P(i, i) <= hi * (1 + 1e-5), "variance %d = %g outside [%g, %g] %s at %.3f s [%s]", i, P(i, i), lo, hi, when, t, s.desc.c_str()); } };
	lim(0, 3, 0, 1); lim(4, 9, 0, 1e6); lim(10, 12, 0, 1); lim(13, 15, 0, 0.001 /* (0.1 g * 20 ms)^2 is 3.8e-4 */); lim(16, 21, 0, 1); lim(22, 23, 0, 1e6);
	// a state group that is not estimated has zero rows; a reset or a mode change may leave its variance until the next update
	auto zero = [&](int lo, int hi, bool est, int &run, const char *what) { if (est) { run = 0; return; } for (int i = lo; i < hi; i++) { for (int j = 0; j < 24; j++) { if (P(i, j) != 0) { PBT_CHECK(c, run == 0, "covariance(%d,%d) = %g of a %s state that is not estimated, at %.3f s [%s]", i, j, P(i, j), what, t, s.desc.c_str()); run++; return; } } } run = 0; };
	zero(16, 22, fl.mag_3D, runMag, "magnetic field"); zero(22, 24, fl.wind, runWind, "wind");
	if (!corr) { return; }
	double w = 0; int wi = 0, wj = 0; for (int i = 4; i < 24; i++) { if (i == 16) { i = 22; } for (int j = i + 1; j < 24; j++) { if (j == 16) { j = 22; } const double d = std::sqrt((double)P(i, i) * P(j, j)); if (d > 1e-20) { const double r = std::fabs(P(i, j)) / d; if (r > w) { w = r; wi = i; wj = j; } } } }
	c.worst("correlation", w);
	PBT_CHECK(c, w <= 1.001, "covariance(%d,%d) = %g exceeds what the variances %g and %g allow, %s at %.3f s [%s]", wi, wj, P(wi, wj), P(wi, wi), P(wj, wj), when, t, s.desc.c_str());
}

LAW(flights, 1500, 60000)
{
	Stress s; const char *mode = genStress(c, s, StressWant()); auto f = std::make_unique<Ekf>(); s.init(*f); c.cls(mode); for (int i = 0; i < 13; i++) { static const char *const n[] = {"parameters", "dropout", "dropout", "outlier", "sustained error", "IMU gap", "IMU shock", "field rotated", "fix lost", "calls", "calls", "calls", "calls"}; if (s.kinds >> i & 1) { c.cls(n[i]); } }
	int n = 0, rm = 0, rw = 0; bool mag3d = false, wind = false;
	for (auto &e : s.events) { if (s.feed(*f, e)) { covariance(c, *f, s, s.sec(e.t), rm, rw, false); n++; mag3d |= f->control_status_flags().mag_3D; wind |= f->control_status_flags().wind; } }
	c.cls(mag3d, "mag states estimated"); c.cls(wind, "wind estimated"); c.nontrivial(n > 1000);
}
// consistent sensors and default tuning: correlations among velocity, position, IMU bias and wind stay within one.  (Quaternion and
// field states are left out: while only part of the states is corrected the code keeps half of the cross-covariance change.)
LAW(consistent, 600, 30000)
{
	Stress s; StressWant w; w.maxFaults = 0; w.params = false; w.ops = false; Want o; o.T = 40; const char *mode = genAny(c, s, o); s.build(); auto f = std::make_unique<Ekf>(); s.init(*f); c.cls(mode);
	int n = 0, rm = 0, rw = 0; for (auto &e : s.events) { if (s.feed(*f, e)) { covariance(c, *f, s, s.sec(e.t), rm, rw, true); n++; } }
	c.nontrivial(n > 1000);
}
int main(int argc, char **argv) { return pbt::run("E01", "a flight is non-trivial if the filter stepped more than 1000 times", argc, argv); }
