// LIB: EKF/sensor_range_finder.cpp
// FLAGS: -O1 -fsanitize=address,undefined -fno-sanitize-recover=undefined
#include "pbt.hpp"
#include "dmath.hpp"
#include <EKF/sensor_range_finder.hpp>
using namespace estimator;

// reference acceptance rule, in double; `margin` is set when a comparison is too close to call in float
struct Ref {
	double lpf{0}, cosTilt{0}, pitch{3.14}, maxTilt{0.7071}, lo{0}, hi{0}; uint64_t hyst{0}, tBad{0}, tValid{0}; rangeSample s{}; bool ready{false}, valid{false}, regular{false}, stuck{false}; double smin{0}, smax{0}; bool close{false};
	bool cmp(double a, double b, double m) { if (std::fabs(a - b) < m) { close = true; } return a > b; }
	void run(uint64_t now, Q4 q)
	{
		close = false;
		const D3 beamDown = qrot(q, {std::sin(pitch), 0, std::cos(pitch)}); cosTilt = beamDown.z;
		if (std::fabs(pitch - 3.14) < 1e-7) { const D3 d = qrot(q, {0, 0, -1}); cosTilt = d.z; } // not configured: default pointing
		lpf = std::min(lpf * 0.995 + 0.005 * (double)(now - s.time_us), 4e6);
		const bool old = now - s.time_us > 400000;
		if (old || !cmp(2e6, lpf, 50)) { valid = false; regular = false; return; }
		regular = true;
		if (!ready) { return; }
		valid = false;
		if (s.quality == 0) { tBad = now; return; }
		if (now - tBad <= hyst) { return; }
		if (!cmp(cosTilt, maxTilt, 2e-6) || s.rng < (float)lo || s.rng > (float)hi) { return; }
		if (s.time_us - tValid > 10000000) {
			if (cmp(smax - smin, 0.1f, 1e-5)) { smin = smax = 0; stuck = false; }
			else { if (s.rng > smax) { smax = s.rng; } if (smin < 0.1f || s.rng < smin) { smin = s.rng; } stuck = true; }
		}
		if (!stuck) { valid = true; tValid = s.time_us; }
	}
};
LAW(history, 40000, 800000)
{
	sensor::SensorRangeFinder f; Ref r; uint64_t now = 20000000 + c.g.below(1u << 30);
	auto limits = [&]() { const float lo = (float)c.g.real(0, 1), hi = (float)c.g.real(1, 60); f.setLimits(lo, hi); r.lo = lo; r.hi = hi; c.note("limits %g %g", lo, hi); };
	limits(); if (c.g.below(2)) { const float p = c.g.below(3) ? 0.f : (float)c.g.sym(M_PI); f.setPitchOffset(p); r.pitch = p; c.note("pitch %g", p); }
	const float hy = c.g.below(2) ? 1.f : (float)c.g.real(0, 3); f.setQualityHysteresis(hy); r.hyst = (uint64_t)(hy * 1e6f);
	const float ct = c.g.below(2) ? 0.7071f : (float)c.g.real(0, 0.99); f.setCosMaxTilt(ct); r.maxTilt = ct;
	Q4 q = std::fabs(r.pitch) < 1 || r.pitch == 3.14 ? Q4{1, 0, 0, 0} : qfromrotvec({0, -r.pitch, 0}); const Q4 q0 = r.pitch == 3.14 ? qfromrotvec({M_PI, 0, 0}) : q;
	q = q0; double rng = 0.5 * (r.lo + r.hi); const int segs = 1 + (int)c.g.below(8); int healthyTicks = 0, unhealthyTicks = 0, transitions = 0; bool was = false;
	uint64_t nextSample = now; 
	for (int g = 0; g < segs; g++) {
		// a segment: fixed regime for some ticks of 10 ms
		const int regime = (int)c.g.below(9); const int ticks = 1 + (int)(c.g.below(6) ? c.g.below(150) : 1000 + c.g.below(1500)); const uint64_t period = c.g.pick<uint64_t>({10000, 20000, 50000, 100000, 180000}), lag = c.g.below(2) ? 0 : c.g.below(100000);
		const bool vary = c.g.below(2); pbt::Noise nz(c.g.seed());
		if (regime == 7) { limits(); }
		if (regime == 8) { q = qmul(q0, qeuler(c.g.sym(1.5), c.g.sym(1.5), c.g.sym(3))); } else if (regime == 0) { q = q0; }
		if (c.g.below(3) == 0) { rng = c.g.below(3) ? c.g.real(r.lo, r.hi) : (c.g.below(2) ? r.lo : r.hi); }
		c.note("regime %d ticks %d period %llu", regime, ticks, (unsigned long long)period);
		for (int k = 0; k < ticks; k++) {
			now += 10000;
			const bool fresh = regime != 1 && now >= nextSample; // regime 1: no data
			if (fresh) {
				nextSample = now + period; rangeSample s{}; s.time_us = now - lag; if (s.time_us < r.s.time_us) { s.time_us = r.s.time_us; }
				s.quality = regime == 2 ? 0 : 100; // regime 2: bad quality
				double x = rng + (vary ? nz.tri() : 0.0);
				if (regime == 3) { x = r.hi + 0.5 + nz.uni(); } if (regime == 4) { x = r.lo - 0.1 - nz.uni(); }
				if (regime == 5) { x = nz.uni() < 0.5 ? r.lo : r.hi; } if (regime == 6) { s.quality = nz.uni() < 0.05 ? 0 : (int8_t)(1 + nz.next() % 100); }
				s.rng = (float)x; f.setSample(s); r.s = s; r.ready = true;
			} else { f.setDataReadiness(false); r.ready = false; }
			matrix::Dcmf m; for (int j = 0; j < 3; j++) { D3 e{0, 0, 0}; e[j] = 1; const D3 col = qrot(q, e); for (int i = 0; i < 3; i++) { m(i, j) = (float)col[i]; } }
			f.runChecks(now, m); r.run(now, q);
			if (r.close) { c.cls("too close to a threshold, stopped"); return; }
			PBT_CHECK(c, f.isHealthy() == r.valid, "tick %d of segment %d (regime %d): healthy=%d, expected %d (range %.6g in [%.6g, %.6g], cos tilt %.4g > %.4g, age %lld us, stuck %d)", k, g, regime, (int)f.isHealthy(), (int)r.valid, r.s.rng, r.lo, r.hi, r.cosTilt, r.maxTilt, (long long)(now - r.s.time_us), (int)r.stuck);
			PBT_CHECK(c, f.isRegularlySendingData() == r.regular, "regular=%d, expected %d", (int)f.isRegularlySendingData(), (int)r.regular);
			PBT_CHECK(c, f.isDataHealthy() == (r.valid && r.ready), "data healthy=%d with ready=%d valid=%d", (int)f.isDataHealthy(), (int)r.ready, (int)r.valid);
			c.close(f.getCosTilt(), r.cosTilt, 1e-6, "direction cosine"); c.close(f.getDistBottom(), (double)r.s.rng * r.cosTilt, 2e-6 * (std::fabs((double)r.s.rng) + 1), "distance to the ground");
			PBT_CHECK(c, f.getRange() == r.s.rng && f.getValidMinVal() == (float)r.lo && f.getValidMaxVal() == (float)r.hi, "range or limits read back wrong");
			if (r.valid) { healthyTicks++; } else { unhealthyTicks++; } if (r.valid != was) { transitions++; was = r.valid; }
			if (r.stuck) { c.cls("stuck seen"); }
		}
		c.cls("regime " + std::to_string(regime)); 
	}
	c.cls(transitions > 1, "became unhealthy again"); c.cls(healthyTicks > 0, "healthy at some time"); c.nontrivial(healthyTicks > 0 && unhealthyTicks > 0);
}
int main(int argc, char **argv) { return pbt::run("U05", "case = history of 10 ms ticks made of regimes (good data, silence, zero quality, out of limits, at limits, flickering quality, new limits, tilt) with any sample period and lag; non-trivial when the sensor was healthy and unhealthy in the same history", argc, argv); }
