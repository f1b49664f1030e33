// LIB: EKF geo/geo.cpp geo_lookup/geo_mag_declination.cpp
// TECHNIQUE: model-based property testing: generated IMU histories (vibration and rotation from far below to far above the thresholds, gaps, take-off and landing) against double-precision averages and a model of the last movement
#include "pbt.hpp"
#include "dmath.hpp"
#include "ekf_sim.hpp"
using namespace sim;

// the metrics are exponential averages over about 100 samples; at rest means on ground and no movement within the last second
LAW(history, 4000, 120000)
{
	auto &g = c.g; auto f = std::make_unique<Ekf>(); const double scale = g.below(3) ? 1 : g.logu(0.1, 20); f->getParamHandle()->is_moving_scaler = (float)scale; pbt::Noise z(g.seed());
	uint64_t t = 1000000 + g.below(100000000), last = 0, sure = 0, maybe = 0; double m[3] = {}, peak[3] = {}; D3 pa{0, 0, 0}, pv{0, 0, 0}; bool air = false, wasRest = false; int rests = 0, moves = 0, landed = 0; const int phases = (int)g.range(2, 8);
	for (int p = 0; p < phases; p++) {
		if (p > 0 && g.below(4) == 0) { const bool a = !air; f->set_in_air_status(a); landed += air && !a; air = a; }
		const double dt0 = g.pick<double>({0.001, 0.0025, 0.004, 0.005, 0.01, 0.02}), gv = 2.5e-5 * scale * g.logu(0.01, 30) * (g.below(3) != 0), av = 4.76e-3 * scale * g.logu(0.01, 30) * (g.below(3) != 0), rate = g.below(2) ? 0.05 * scale * g.logu(0.05, 20) : 0, gap = g.below(5) ? 0 : g.logu(0.02, 3); D3 ax{g.gauss(), g.gauss(), g.gauss()}; ax = ax * (1 / std::max(norm(ax), 1e-6)); const D3 acc{g.sym(3), g.sym(3), -9.81 + g.sym(3)}; const int n = (int)g.range(20, 900); const bool pulse = g.below(3) == 0; const int at = (int)g.below(n);
		for (int i = 0; i < n; i++) {
			t += (uint64_t)(1e6 * dt0 * (1 + 0.2 * (z.uni() - 0.5))) + (i == 0 ? (uint64_t)(gap * 1e6) : 0); estimator::imuSample s; s.time_us = t; const float dtf = std::min(std::max((float)(t - last) / 1e6f, 1.0e-4f), 0.02f); last = t;
			s.delta_ang_dt = s.delta_vel_dt = (float)dt0; const double k = pulse ? (i == at ? 40 : 0) : 1; D3 da = (k * rate * dt0) * ax + D3{gv * k * z.gauss(), gv * k * z.gauss(), gv * k * z.gauss()}, dl = dt0 * acc + D3{av * k * z.gauss(), av * k * z.gauss(), av * k * z.gauss()}; s.delta_ang = vf(da); s.delta_vel = vf(dl); da = dv(s.delta_ang); dl = dv(s.delta_vel);
			f->setIMUData(s);
			const double in[3] = {norm(cross(da, pa)), norm(da - pa), norm(dl - pv)}; pa = da; pv = dl; for (int j = 0; j < 3; j++) { m[j] = 0.99 * m[j] + 0.01 * in[j]; peak[j] = std::max(0.999 * peak[j], std::max(m[j], j == 0 ? 0.01 * norm(da) * norm(da) : in[j])); }
			const auto &v = f->getImuVibrationMetrics(); for (int j = 0; j < 3; j++) { static const char *const nm[3] = {"coning metric", "gyro vibration metric", "accelerometer vibration metric"}; c.close(v(j), m[j], 3e-5 * peak[j] + 1e-6 * (j == 2 ? norm(dl) : j == 1 ? norm(da) : norm(da) * norm(da)) + 1e-12, nm[j]); }
			const double q[3] = {m[1] * 4.0e4 / scale, m[2] * 2.1e2 / scale, norm(da) / dtf / (0.05 * scale)}; const double slack[3] = {1e-4 + 8 * peak[1] * 3e-5 * 4e4 / scale, 1e-4 + (3e-5 * peak[2] + 1e-6 * norm(dl)) * 2.1e2 / scale, 1e-4}; bool yes = air, may = air; for (int j = 0; j < 3; j++) { yes |= q[j] > 1 + slack[j]; may |= q[j] > 1 - slack[j]; }
			if (yes) { sure = t; } if (may) { maybe = t; }
			const bool rest = f->isVehicleAtRest(); PBT_CHECK(c, !rest || !air, "at rest in air"); PBT_CHECK(c, !rest || t - sure > 1000000, "at rest %.3f s after a movement (gyro %.3g, accelerometer %.3g, rate %.3g of their limits)", (t - sure) * 1e-6, q[0], q[1], q[2]); PBT_CHECK(c, rest || air || t - maybe <= 1000000, "not at rest although nothing moved for %.3f s (gyro %.3g, accelerometer %.3g, rate %.3g of their limits)", (t - maybe) * 1e-6, q[0], q[1], q[2]);
			rests += rest && !wasRest; moves += !rest && wasRest; wasRest = rest; PBT_CHECK(c, f->control_status_flags().vehicle_at_rest == rest, "status flag differs");
		}
	}
	c.cls(rests > 0 && moves > 0, "comes to rest and moves again"); c.cls(landed > 0, "landed"); c.note("scale %.3g, %d phases, at rest %d times", scale, phases, rests); c.nontrivial(rests + moves > 0);
}
int main(int argc, char **argv) { return pbt::run("E25", "case = an IMU history; non-trivial if the vehicle was found at rest or moving at least once", argc, argv); }
