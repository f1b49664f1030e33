// LIB: EKF geo/geo.cpp geo_lookup/geo_mag_declination.cpp
// FLAGS: -O1 -ftrivial-auto-var-init=pattern
// TECHNIQUE: differential property-based testing: two estimator objects fed the same simulated flight, one placed in memory with other contents, interleaved with other estimators and read by every getter
#include "ekf_sim.hpp"
using namespace sim;

// an estimator constructed in memory holding a given byte pattern
struct Placed {
	void *mem; Ekf *f;
	Placed(int pattern, uint64_t seed) : mem(aligned_alloc(64, (sizeof(Ekf) + 127) / 64 * 64))
	{
		unsigned char *p = (unsigned char *)mem; pbt::Noise n(seed);
		for (size_t i = 0; i < sizeof(Ekf); i++) { p[i] = pattern == 0 ? 0 : pattern == 1 ? 0xff : pattern == 2 ? 0xa5 : (unsigned char)n.next(); }
		if (pattern == 4) { for (size_t i = 0; i + 4 <= sizeof(Ekf); i += 4) { const float v = (float)(n.gauss() * 100); memcpy(p + i, &v, 4); } } // plausible left-over floats
		if (pattern == 5) { for (size_t i = 0; i + 8 <= sizeof(Ekf); i += 8) { const uint64_t v = n.next() % 100000000; memcpy(p + i, &v, 8); } } // plausible left-over time stamps
		f = new (mem) Ekf;
	}
	~Placed() { f->~Ekf(); free(mem); }
	Placed(const Placed &) = delete;
};
static void mustMatch(pbt::Ctx &c, const Snap &x, const Snap &y, double t, const char *why)
{
	const int d = firstDiff(x, y); PBT_CHECK(c, d < 0, "%.3f s after the start, %s is %.9g in one estimator and %.9g in the other (%s)", t, x.n[d], x.v[d], y.v[d], why);
}
LAW(twins, 600, 4000)
{
	Scenario s, o; Want w; w.T = c.g.real(18, 40); const char *nm = genAny(c, s, w); c.cls(nm); s.build();
	const int pa = (int)c.g.below(6), pb = (int)c.g.below(6); Placed A(pa, c.g.seed()), B(pb, c.g.seed());
	const bool other = c.g.below(2), getters = c.g.below(2); std::unique_ptr<Ekf> z; size_t zi = 0; if (other) { Want v; v.T = s.T; genAny(c, o, v); o.start = s.start; o.build(); z.reset(new Ekf); o.init(*z); }
	s.init(*A.f); s.init(*B.f); c.note("%s %.1f s, memory patterns %d/%d%s%s", nm, s.T, pa, pb, other ? ", third estimator in between" : "", getters ? ", getters called on one" : ""); int steps = 0; bool nav = false;
	for (auto &e : s.events) {
		const bool ua = s.apply(*A.f, e); if (getters) { snapshot(*A.f); }
		while (other && zi < o.events.size() && o.events[zi].t <= e.t) { o.apply(*z, o.events[zi++]); }
		const bool ub = s.apply(*B.f, e); PBT_CHECK(c, ua == ub, "filter step at %.3f s in only one of two estimators", s.sec(e.t)); steps += ua;
		if (e.k == IMU && (steps < 200 || steps % 4 == 0)) { mustMatch(c, snapshot(*A.f), snapshot(*B.f), s.sec(e.t), "same parameters and calls"); }
		nav |= A.f->local_position_is_valid() && A.f->control_status_flags().in_air;
	}
	c.nontrivial(nav);
}
// outputs of an estimator that has not been fed yet, or has only been initialised
LAW(fresh, 750, 3000)
{
	Placed A((int)c.g.below(6), c.g.seed()), B((int)c.g.below(6), c.g.seed()); const bool init = c.g.below(2); uint64_t t = c.g.below(1ull << 40);
	if (init) { PBT_CHECK(c, A.f->init(t) && B.f->init(t), "init failed"); }
	mustMatch(c, snapshot(*A.f), snapshot(*B.f), 0, init ? "just initialised" : "just constructed"); c.nontrivial();
}
// an estimator used for one flight and initialised again has forgotten it
LAW(reinit, 450, 2500)
{
	Scenario s, s0; Want w; w.T = 20; const char *nm = genAny(c, s, w); s0 = s; s0.T = c.g.real(1, 40); s0.m.psi0 = c.g.sym(M_PI); s0.seed = c.g.seed(); s0.lat0 += c.g.sym(1); if (s0.m.tEnd < 1e8 || c.g.below(2)) { s0.m.tEnd = std::max(s0.T - 4, s0.m.t0 + 2 * s0.m.ramp + 2); } if (c.g.below(4) == 0) { s0.imuJitter = 0.3; s0.accN = 1; } s0.build(); if (c.g.below(3) == 0) { for (size_t i = s0.imu.size() > 100 ? s0.imu.size() - 100 : 0; i < s0.imu.size(); i++) { for (int k = 0; k < 3; k++) { s0.imu[i].delta_vel_clipping[k] = true; } } c.cls("clipping accelerometer before"); }
	const double gap = c.g.below(2) ? 0.02 : c.g.logu(0.02, 40); s.start = s0.start + (uint64_t)((s0.T + gap) * 1e6);
	c.note("%s %.1f s, then initialised after %.2f s ", nm, s0.T, gap); c.cls(nm);
	std::unique_ptr<Ekf> A(new Ekf); s0.init(*A); for (auto &e : s0.events) { s0.apply(*A, e); } const bool flying = A->control_status_flags().in_air; c.cls(flying, "initialised again while flying");
	PBT_CHECK(c, A->init(s.start), "init failed on a used estimator");
	auto x = A->getStateAtFusionHorizonAsVector(); for (int k = 0; k < 24; k++) { PBT_CHECK(c, x(k) == (k == 0 ? 1 : 0), "state %d is %g right after init", k, x(k)); }
	PBT_CHECK(c, A->control_status().value == 0 && A->innov_check_fail_status().value == 0, "status 0x%x, innovation check status 0x%x right after init", A->control_status().value, A->innov_check_fail_status().value);
	const auto &ff = A->fault_status_flags(); PBT_CHECK(c, A->fault_status().value == 0 && !ff.bad_acc_vertical && !ff.bad_acc_clipping && !ff.bad_acc_bias && !ff.bad_hdg, "fault status 0x%x right after init", (unsigned)A->fault_status().value);
	PBT_CHECK(c, !A->attitude_valid() && !A->local_position_is_valid() && !A->global_position_is_valid() && !A->global_origin_valid(), "something is reported valid right after init (attitude %d, local %d, global %d, origin %d)", A->attitude_valid(), A->local_position_is_valid(), A->global_position_is_valid(), A->global_origin_valid());
	// from here on it is indistinguishable from a new one (reset counters and event bits belong to the consumer and go on)
	std::unique_ptr<Ekf> B(new Ekf); s.build(); s.init(*A); s.init(*B); B->setIMUData(s.imu[0]); PBT_CHECK(c, B->init(s.start), "init failed on a new estimator"); int n = 0;
	auto same = [&](double t) { Snap a = snapshot(*A), b = snapshot(*B); for (size_t i = 0; i < a.v.size(); i++) { if (!strncmp(a.n[i], "reset c", 7) || !strcmp(a.n[i], "warning events") || !strcmp(a.n[i], "information events")) { continue; } PBT_CHECK(c, a.n.size() == b.n.size() && sameWord(a.v[i], b.v[i]), "%.3f s after initialising again, %s is %.9g in the used estimator and %.9g in a new one", t, a.n[i], a.v[i], b.v[i]); } };
	same(0); for (auto &e : s.events) { s.apply(*A, e); s.apply(*B, e); if (e.k == IMU && (n++ % 25 == 0 || n < 200)) { same(s.sec(e.t)); } }
	c.nontrivial(flying || s0.T > 10);
}
int main(int a, char **b) { return pbt::run("E16", "a comparison over a flight that navigated in the air (fresh: any)", a, b); }
