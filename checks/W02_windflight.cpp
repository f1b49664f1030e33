// LIB: airdata/WindEstimator.cpp
// TECHNIQUE: property-based testing: invariants over generated call histories and convergence to the simulated truth over generated turning flights
#include <vector>
#include <cstring>
#include <array>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <fstream>
#include <sstream>
#include <functional>
#include <algorithm>
#include <cmath>
#define private public
#include "airdata/WindEstimator.hpp"
#undef private
#include "pbt.hpp"
#include "dmath.hpp"

LAW(sane, 200000, 1000000)
{
	WindEstimator w; auto cfg = [&] {
		if (c.g.below(2)) { w.set_wind_p_noise((float)c.g.logu(1e-4, 10)); } if (c.g.below(2)) { w.set_tas_scale_p_noise((float)c.g.logu(1e-6, 1)); } if (c.g.below(2)) { w.set_tas_noise((float)c.g.logu(1e-2, 20)); }
		if (c.g.below(2)) { w.set_beta_noise((float)c.g.logu(1e-3, 3)); } if (c.g.below(2)) { w.set_tas_gate(1 + (int)c.g.below(255)); } if (c.g.below(2)) { w.set_beta_gate(1 + (int)c.g.below(255)); } if (c.g.below(3) == 0) { w.enforce_airspeed_scale((float)c.g.pick<double>({-1, c.g.real(0.5, 2), 0})); } };
	cfg(); uint64_t t = c.g.below(1ull << (8 + c.g.below(36))); const int n = (int)c.g.range(5, 150); const double big = c.g.pick<double>({1, 10, 40, 300, 3e3}); int valid = 0; bool any = false; matrix::Vector3f base((float)c.g.sym(big), (float)c.g.sym(big), (float)c.g.sym(big * 0.2)); const bool wild = c.g.below(2), nan = c.g.below(3) == 0; c.cls(nan, "with NaN and infinite samples"); double psi = c.g.sym(M_PI);
	PBT_CHECK(c, !w.is_estimate_valid(), "valid before any data");
	for (int i = 0; i < n; i++) {
		t += c.g.pick<uint64_t>({0, 1, 20000, 100000, 100000, 500000, 1000000, c.g.below(8000000), c.g.below(8000000000ull)}); if (c.g.below(25) == 0) { cfg(); }
		matrix::Vector3f v = wild ? matrix::Vector3f((float)c.g.sym(big), (float)c.g.sym(big), (float)c.g.sym(big)) : base + matrix::Vector3f((float)c.g.sym(3), (float)c.g.sym(3), (float)c.g.sym(3)); if (c.g.below(30) == 0) { v.setZero(); }
		float tasN = (float)(wild ? c.g.real(0, big) : std::max(0.0, (double)base.norm() + c.g.sym(4))), varN = (float)c.g.logu(1e-6, 100); const bool poison = nan && c.g.below(12) == 0;
		if (poison) { const float b = c.g.below(2) ? NAN : c.g.below(2) ? INFINITY : -INFINITY; const int k = (int)c.g.below(5); if (k < 3) { v((int)k) = b; } else if (k == 3) { tasN = b; } else { varN = b; } }
		psi += c.g.sym(0.5); const Q4 e = wild ? qeuler(c.g.sym(M_PI), c.g.sym(1.5), c.g.sym(M_PI)) : qeuler(c.g.sym(0.5), c.g.sym(0.3), psi); matrix::Quatf q((float)e.w, (float)e.x, (float)e.y, (float)e.z); q.normalize();
		const int op = (int)c.g.below(5); const auto x0 = w._state; const bool v0 = w.is_estimate_valid(); const char *name = op < 2 ? "airspeed" : op < 4 ? "sideslip" : "prediction"; const double speed = std::hypot(v(0), v(1));
		if (op < 2) { w.fuse_airspeed(t, tasN, v, matrix::Vector2f(varN, (float)c.g.logu(1e-6, 100))); } else if (op < 4) { w.fuse_beta(t, v, q); } else { w.update(t); }
		if (!v0 && w.is_estimate_valid()) { PBT_CHECK(c, op < 4 && speed > 2.99, "became valid with %s at ground speed %g", name, speed); }
		if (op == 4) { PBT_CHECK(c, v0 == w.is_estimate_valid(), "prediction changed validity"); }
		if (!w.is_estimate_valid()) { continue; } valid++; float x[2], p[2]; w.get_wind(x); w.get_wind_var(p); const float s = w.get_tas_scale();
		PBT_CHECK(c, std::isfinite(x[0]) && std::isfinite(x[1]) && std::isfinite(s), "after %s the valid estimate is %g %g, scale %g", name, x[0], x[1], s);
		PBT_CHECK(c, s >= 0, "airspeed scale %g", s);
		for (int k = 0; k < 3; k++) {
			PBT_CHECK(c, std::isfinite(w._P(k, k)) && w._P(k, k) >= 0, "after %s variance %d is %g", name, k, w._P(k, k));
			for (int j = 0; j < k; j++) { const double d = std::fabs((double)w._P(k, j) - w._P(j, k)), sc = std::sqrt((double)w._P(k, k) * w._P(j, j)); PBT_CHECK(c, std::isfinite(w._P(k, j)) && d <= 1e-4 * (sc + std::fabs(w._P(k, j))) + 1e-9 + 1e-5 * (w._P(0, 0) + w._P(1, 1)), "after %s covariance (%d,%d) is %g and %g", name, k, j, w._P(k, j), w._P(j, k)); }
		}
		const bool fused = op < 4 && v0 && !w.get_wind_estimator_reset() && (x[0] != x0(0) || x[1] != x0(1) || s != x0(2)); any |= fused;
		if (fused) { PBT_CHECK(c, p[0] <= 25.001 && p[1] <= 25.001 && w._P(2, 2) <= 0.10001, "after fusion of %s the variances are %g %g %g", name, p[0], p[1], w._P(2, 2)); }
	}
	c.cls(wild, "unrelated inputs"); c.nontrivial(any && valid > 3);
}
LAW(flight, 4000, 20000)
{
	WindEstimator w; if (c.g.below(2)) { w.set_wind_p_noise((float)c.g.real(0.05, 0.2)); w.set_tas_scale_p_noise((float)c.g.logu(2e-3, 1e-2)); w.set_tas_noise((float)c.g.real(1, 2)); w.set_beta_noise((float)c.g.real(0.2, 0.6)); w.set_tas_gate(3 + (int)c.g.below(3)); w.set_beta_gate(2 + (int)c.g.below(2)); }
	const double V = c.g.real(12, 28), wm = c.g.real(0, 0.3) * std::min(V, 22.0), wd = c.g.sym(M_PI), rate = (c.g.below(2) ? 1 : -1) * c.g.real(0.1, 0.35), amp = c.g.real(0, 0.5), om = c.g.real(0.02, 0.2), scale = c.g.real(0.9, 1.1), pitch = c.g.sym(0.1), T = 220; D3 wind{wm * std::cos(wd), wm * std::sin(wd), 0};
	const bool useBeta = c.g.below(4) != 0; const bool change = c.g.below(3) == 0; const double dir = c.g.sym(M_PI), noise = c.g.real(0, 0.4), vn = c.g.real(0, 0.1), slow = c.g.real(1, 3); double psi = c.g.sym(M_PI); pbt::Noise z(c.g.seed()); uint64_t t = 1000000 + c.g.below(1ull << (20 + c.g.below(20))); const double dt = c.g.pick<double>({0.02, 0.05, 0.1, 0.2});
	bool pinned = c.g.below(5) == 0; if (pinned) { w.enforce_airspeed_scale((float)scale); } c.cls(useBeta, "with sideslip"); c.cls(change, "wind changes slowly"); c.cls(pinned, "scale enforced");
	c.note("airspeed %.1f wind %.1f scale %.2f turn rate %.2f", V, wm, scale, rate); double worst = 0; bool lateReset = false;
	for (double s = 0; s < T; s += dt) {
		t += (uint64_t)std::llround(dt * 1e6); psi += dt * (rate + amp * 0.5 * std::fabs(rate) * std::sin(om * s)); const double roll = std::atan2(V * rate, 9.81), alpha = 0.03; const Q4 q = qeuler(roll, pitch, psi);
		if (change && s > 60) { wind.x += dt * 0.02 * std::cos(dir); wind.y += dt * 0.02 * std::sin(dir); }
		const D3 u = qrot(q, {V * std::cos(alpha), 0, V * std::sin(alpha)}); matrix::Vector3f v((float)(u.x + wind.x + vn * z.gauss()), (float)(u.y + wind.y + vn * z.gauss()), (float)(u.z + vn * z.gauss())); matrix::Quatf qf((float)q.w, (float)q.x, (float)q.y, (float)q.z);
		w.update(t); w.fuse_airspeed(t, (float)(V * scale + noise * z.gauss()), v, matrix::Vector2f(0.1f, 0.1f)); lateReset |= s > 130 && w.get_wind_estimator_reset(); if (useBeta) { w.fuse_beta(t, v, qf); lateReset |= s > 130 && w.get_wind_estimator_reset(); }
		if (s > 150) {
			PBT_CHECK(c, w.is_estimate_valid(), "invalid %.0f s into the flight", s); float x[2], p[2]; w.get_wind(x); w.get_wind_var(p); const double e = std::hypot(x[0] - wind.x, x[1] - wind.y), es = std::fabs(w.get_tas_scale() - scale);
			c.worst("wind error / 2 m/s", e / 2); c.worst("scale error / 0.06", es / 0.06); worst = std::max(worst, e);
			PBT_CHECK(c, e < 2, "%.0f s into the flight the wind is %.2f %.2f, truth %.2f %.2f (reported sigma %.2f %.2f)", s, x[0], x[1], wind.x, wind.y, std::sqrt(p[0]), std::sqrt(p[1])); PBT_CHECK(c, es < 0.06, "%.0f s into the flight the airspeed scale is %.3f, truth %.3f", s, w.get_tas_scale(), scale);
		}
	}
	(void)slow; PBT_CHECK(c, !lateReset, "re-initialised after more than 130 s of consistent data"); c.nontrivial(wm > 1);
}
int main(int a, char **b) { return pbt::run("W02", "histories in which something was fused into a valid estimate; flights in more than 1 m/s of wind", a, b); }
