// LIB: EKF/imu_down_sampler.cpp
// FLAGS: -O1 -fsanitize=address,undefined -fno-sanitize-recover=undefined
#include "pbt.hpp"
#include "dmath.hpp"
#include <EKF/imu_down_sampler.hpp>

LAW(conservation, 60000, 1200000)
{
	const float target = c.g.below(2) ? 0.01f : (float)c.g.logu(0.002, 0.05);
	ImuDownSampler ds(target);
	const double dtn = target * c.g.logu(0.05, 1.5), jit = c.g.below(2) ? 0 : c.g.real(0, 0.8), rate = c.g.pick<double>({0, 0.5, 5, 30}), acc = c.g.pick<double>({0, 10, 50});
	const int n = 1 + (int)c.g.below(60); uint64_t t = 1000000 + c.g.below(1u << 30);
	D3 w{c.g.sym(rate), c.g.sym(rate), c.g.sym(rate)}; pbt::Noise nz(c.g.seed());
	Q4 q{1, 0, 0, 0}; D3 v{0, 0, 0}; double sa = 0, sv = 0; bool clip[3] = {false, false, false}; uint64_t last = 0; int cnt = 0, outs = 0;
	c.note("target %g input dt %g jitter %g rate %g n %d", target, dtn, jit, rate, n);
	for (int k = 0; k < n; k++) {
		imuSample s{}; const double dt = dtn * (1 + jit * (nz.uni() - 0.5)) * (c.g.below(40) == 0 ? 4 : 1);
		t += (uint64_t)std::max(1.0, dt * 1e6); s.time_us = t;
		s.delta_ang_dt = (float)dt; s.delta_vel_dt = (float)(dt * (c.g.below(4) ? 1 : c.g.real(0.8, 1.2)));
		if (c.g.below(8) == 0) { w = D3{c.g.sym(rate), c.g.sym(rate), c.g.sym(rate)}; }
		s.delta_ang = matrix::Vector3f((float)(w.x * dt), (float)(w.y * dt), (float)(w.z * dt));
		s.delta_vel = matrix::Vector3f((float)(acc * (nz.uni() - 0.5) * dt), (float)(acc * (nz.uni() - 0.5) * dt), (float)((acc * nz.uni() - 10) * dt));
		for (int i = 0; i < 3; i++) { s.delta_vel_clipping[i] = c.g.below(20) == 0; clip[i] |= s.delta_vel_clipping[i]; }
		// reference composition in double
		const Q4 dq = qfromrotvec(D3{s.delta_ang(0), s.delta_ang(1), s.delta_ang(2)}); q = qnormalize(qmul(q, dq));
		const D3 dv{s.delta_vel(0), s.delta_vel(1), s.delta_vel(2)};
		v = qrotInv(dq, v) + 0.5 * (dv + qrotInv(dq, dv)); sa += s.delta_ang_dt; sv += s.delta_vel_dt; last = t; cnt++;
		const bool done = ds.update(s);
		if (!done) { PBT_CHECK(c, sa < 1.5 * target + 1e-6, "no output after %.6g s, target %.6g s", sa, target); continue; }
		PBT_CHECK(c, sa > 0.5 * target - 1e-6, "output after only %.6g s, target %.6g s", sa, target);
		const imuSample o = ds.getDownSampledImuAndTriggerReset(); outs++;
		PBT_CHECK(c, o.time_us == last, "timestamp %llu, expected %llu", (unsigned long long)o.time_us, (unsigned long long)last);
		c.close(o.delta_ang_dt, sa, 3e-7 * sa * (cnt + 1), "interval of the angles"); c.close(o.delta_vel_dt, sv, 3e-7 * sv * (cnt + 1), "interval of the velocities");
		for (int i = 0; i < 3; i++) { PBT_CHECK(c, o.delta_vel_clipping[i] == clip[i], "clipping flag %d is %d, expected %d", i, (int)o.delta_vel_clipping[i], (int)clip[i]); }
		const D3 r = rotvec(qmul(qconj(q), qfromrotvec(D3{o.delta_ang(0), o.delta_ang(1), o.delta_ang(2)})));
		c.close(norm(r), 0, 2e-6 * (cnt + 2), "composed rotation");
		const double vt = 4e-7 * (cnt + 2) * (acc + 10) * sv + 1e-9; c.close(o.delta_vel(0), v.x, vt, "velocity x"); c.close(o.delta_vel(1), v.y, vt, "velocity y"); c.close(o.delta_vel(2), v.z, vt, "velocity z");
		c.nontrivial(cnt > 1); c.cls(cnt > 1 && rate > 1, "several rotating samples"); c.cls(outs > 1, "several outputs"); c.cls(clip[0] || clip[1] || clip[2], "clipping");
		q = Q4{1, 0, 0, 0}; v = D3{0, 0, 0}; sa = sv = 0; clip[0] = clip[1] = clip[2] = false; cnt = 0;
	}
}
// physical content: total rotation and (rotated) velocity do not depend on how the outputs happen to be cut
LAW(totals, 20000, 400000)
{
	const float target = 0.01f; ImuDownSampler ds(target); const double dt = c.g.logu(0.0005, 0.009); const int n = 50 + (int)c.g.below(400);
	D3 w{c.g.sym(3), c.g.sym(3), c.g.sym(3)}; Q4 qi{1, 0, 0, 0}, qo{1, 0, 0, 0}; double ti = 0, to = 0; uint64_t t = 5000000; D3 vi{0, 0, 0}, vo{0, 0, 0}; const D3 a{c.g.sym(10), c.g.sym(10), -9.8};
	c.note("dt %g n %d rate (%g %g %g)", dt, n, w.x, w.y, w.z); double tm = 0, tl = 0;
	for (int k = 0; k < n; k++) {
		imuSample s{}; t += (uint64_t)(dt * 1e6); s.time_us = t; s.delta_ang_dt = s.delta_vel_dt = (float)dt;
		s.delta_ang = matrix::Vector3f((float)(w.x * dt), (float)(w.y * dt), (float)(w.z * dt)); s.delta_vel = matrix::Vector3f((float)(a.x * dt), (float)(a.y * dt), (float)(a.z * dt));
		const Q4 dq = qfromrotvec(D3{s.delta_ang(0), s.delta_ang(1), s.delta_ang(2)}); const Q4 qb = qi; qi = qnormalize(qmul(qi, dq)); ti += dt;
		vi = vi + 0.5 * (qrot(qb, a) + qrot(qi, a)) * dt;
		if (ds.update(s)) { imuSample o = ds.getDownSampledImuAndTriggerReset(); qo = qmul(qo, qfromrotvec(D3{o.delta_ang(0), o.delta_ang(1), o.delta_ang(2)})); to += o.delta_ang_dt; vo = vo + qrot(qo, D3{o.delta_vel(0), o.delta_vel(1), o.delta_vel(2)});
			tm = ti; const D3 d = rotvec(qmul(qconj(qi), qo)); c.close(std::sqrt(dot(d, d)), 0, 3e-6 + 2e-6 * k, "total rotation"); c.close(to, tm, 1e-6 * (1 + tm), "total time"); tl = std::sqrt(dot(vo - vi, vo - vi)); c.close(tl, 0, 1e-4 * (1 + ti) + 1e-5 * k, "total velocity change"); c.nontrivial(k > 20); }
	}
}
// long-run output rate
LAW(rate, 6000, 60000)
{
	const float target = 0.01f; ImuDownSampler ds(target); const double dt = target * c.g.logu(0.05, 1.4); const int n = (int)(4000 * std::max(1.0, target / dt / 2)); int outs = 0, half = 0; double tot = 0;
	for (int k = 0; k < n; k++) { imuSample s{}; s.time_us = 1000000 + (uint64_t)(k * dt * 1e6); s.delta_ang_dt = s.delta_vel_dt = (float)dt; bool u = ds.update(s); if (u) { ds.getDownSampledImuAndTriggerReset(); } if (k >= n / 2) { tot += dt; half += u; } outs += u; }
	c.note("dt %g", dt); c.nontrivial();
	const double mean = tot / half; c.close(mean, std::max((double)target, dt), 0.06 * target, "mean output interval");
}
int main(int argc, char **argv) { return pbt::run("U03", "case = sequence of raw IMU deltas (regular, jittered or with gaps; up to 30 rad/s) through one down-sampler; non-trivial when an output merged at least two raw samples", argc, argv); }
