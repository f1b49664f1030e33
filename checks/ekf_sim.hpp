// Whole-filter simulation: a smooth true motion in double precision, the sensor messages it implies (with lever arms, delays,
// biases and noise), and the stream of API calls that feeds them to estimator objects.  Only the public interface of Ekf is used.
#pragma once
#include "pbt.hpp"
#include "dmath.hpp"
#include <vector>
#include <memory>
#include <functional>
#include <algorithm>
#include <cstdint>
#include <cstring>
#include <new>
#include <matrix/math.hpp>
#ifdef SIM_WHITE_BOX
#define private public
#define protected public
#endif
#include <EKF/ekf.h>
#ifdef SIM_WHITE_BOX
#undef private
#undef protected
#endif
#include <geo_lookup/geo_mag_declination.h>

namespace sim {
static const double G = 9.80665, REARTH = 6371000.0, OMEGA = 7.2921e-5;
static inline double sstep(double x) { x = x < 0 ? 0 : x > 1 ? 1 : x; return x * x * x * (10 + x * (-15 + 6 * x)); }
static inline matrix::Vector3f vf(D3 a) { return matrix::Vector3f((float)a.x, (float)a.y, (float)a.z); }
static inline D3 dv(const matrix::Vector3f &a) { return {a(0), a(1), a(2)}; }
static inline Q4 dq(const matrix::Quatf &q) { return {q(0), q(1), q(2), q(3)}; }
static inline Q4 quatFromCols(D3 x, D3 y, D3 z) // columns = body axes in earth frame
{
	const double m00 = x.x, m10 = x.y, m20 = x.z, m01 = y.x, m11 = y.y, m21 = y.z, m02 = z.x, m12 = z.y, m22 = z.z, t = m00 + m11 + m22;
	Q4 q;
	if (t > 0) { const double s = std::sqrt(t + 1) * 2; q = {s / 4, (m21 - m12) / s, (m02 - m20) / s, (m10 - m01) / s}; }
	else if (m00 > m11 && m00 > m22) { const double s = std::sqrt(1 + m00 - m11 - m22) * 2; q = {(m21 - m12) / s, s / 4, (m01 + m10) / s, (m02 + m20) / s}; }
	else if (m11 > m22) { const double s = std::sqrt(1 + m11 - m00 - m22) * 2; q = {(m02 - m20) / s, (m01 + m10) / s, s / 4, (m12 + m21) / s}; }
	else { const double s = std::sqrt(1 + m22 - m00 - m11) * 2; q = {(m10 - m01) / s, (m02 + m20) / s, (m12 + m21) / s, s / 4}; }
	return qnormalize(q);
}

// ---- true motion of the IMU, NED, seconds since scenario start; before t0 at rest on the ground
struct Motion {
	enum Kind { STATIC, MULTI, WING } kind{STATIC};
	double t0{12}, ramp{4}, tEnd{1e9}; // motion fades in over [t0, t0+ramp] and out over [tEnd-ramp, tEnd]
	double psi0{0}; D3 tilt0{0, 0, 0}; // heading and mis-levelling on the ground
	// multirotor
	double H{10}, U[2]{0, 0}, A[2][2]{}, w[2][2]{}, ph[2][2]{}, Az{0}, wz{0.5}, yawRate{0}, yawA{0}, yawW{0.3}, wobA[3]{}, wobW[3]{1, 1, 1};
	bool level{false}; // attitude independent of acceleration
	// wing
	double V{15}, gamA{0}, gamW{0.2}, turnRate{0.1}, turnA{0}, turnW{0.1}; D3 wind{0, 0, 0};
	double rot{0}; // rotation of the whole scenario about the vertical
	double s(double t) const { return sstep((t - t0) / ramp) * sstep((tEnd - t) / ramp); }
	double psi(double t) const
	{
		const double u = t - t0; if (kind == STATIC) { return psi0; }
		if (kind == WING) { if (u <= 0) { return psi0; } const double f = sstep((u - ramp) / 3); return psi0 + f * (turnRate * (u - ramp) + turnA * std::sin(turnW * (u - ramp))); }
		const double f = sstep(u / ramp); return psi0 + f * (yawRate * u + yawA * std::sin(yawW * u));
	}
	double gam(double t) const { const double u = t - t0; return kind == WING && u > 0 ? sstep(u / (2 * ramp)) * gamA * (0.3 + std::sin(gamW * u)) : 0; }
	double height(double t) const { const double u = t - t0; return kind == MULTI ? s(t) * (H + Az * std::sin(wz * u)) : 0; }
	D3 vRaw(double t) const
	{
		if (kind == STATIC || t <= t0 || t >= tEnd) { return {0, 0, 0}; }
		const double u = t - t0, k = s(t);
		if (kind == MULTI) {
			double v[2]; for (int i = 0; i < 2; i++) { v[i] = U[i]; for (int j = 0; j < 2; j++) { v[i] += A[i][j] * std::sin(w[i][j] * u + ph[i][j]); } }
			const double h = 1e-4; return {k * v[0], k * v[1], -(height(t + h) - height(t - h)) / (2 * h)};
		}
		const double g = gam(t), p = psi(t); return {k * (V * std::cos(g) * std::cos(p) + wind.x), k * (V * std::cos(g) * std::sin(p) + wind.y), -k * V * std::sin(g)};
	}
	D3 rotz(D3 a) const { const double c = std::cos(rot), q = std::sin(rot); return {c * a.x - q * a.y, q * a.x + c * a.y, a.z}; }
	D3 v(double t) const { return rotz(vRaw(t)); }
	D3 windNow() const { return rotz(wind); }
	D3 aRaw(double t) const { const double h = 1e-3; return (1 / (2 * h)) * (vRaw(t + h) - vRaw(t - h)); }
	Q4 q(double t) const
	{
		const double k = s(t), u = t - t0; Q4 b;
		if (kind == WING) {
			const double h = 1e-3, r = k * std::atan2(V * (psi(t + h) - psi(t - h)) / (2 * h), G); b = qeuler(r, gam(t), psi(t));
		} else if (kind == MULTI && !level) {
			const D3 f = aRaw(t) - D3{0, 0, G}, zb = (-1 / norm(f)) * f, xc{std::cos(psi(t)), std::sin(psi(t)), 0}; D3 yb = cross(zb, xc); yb = (1 / norm(yb)) * yb;
			b = quatFromCols(cross(yb, zb), yb, zb);
		} else { b = qeuler(0, 0, psi(t)); }
		D3 wob = (1 - k) * tilt0; if (kind == MULTI) { for (int i = 0; i < 3; i++) { wob[i] += k * wobA[i] * std::sin(wobW[i] * u); } }
		return qmul(qfromrotvec({0, 0, rot}), qmul(b, qfromrotvec(wob)));
	}
	D3 omega(double t) const { const double h = 5e-4; return (1 / (2 * h)) * rotvec(qmul(qconj(q(t - h)), q(t + h))); } // body rates relative to the (rotating) local frame
};

enum Kind : uint8_t { IMU, MAG, BARO, GPS, ASP, RNG, FLOW, EV, AUX, CTRL, NKIND };
static const char *const kindName[NKIND] = {"imu", "mag", "baro", "gps", "airspeed", "range", "flow", "vision", "auxvel", "status"};
struct Ctrl { int op; int val; }; // 0 in_air, 1 fixed_wing, 2 fuse_beta, 3 gnd_effect
struct Ev_ { uint64_t t; Kind k; uint32_t i; };

struct Sensor { bool on{false}; double rate{10}, delayMs{0}, phase{0}, jitter{0}, noise{0}; double from{-1e9}, to{1e9}; };

struct Scenario {
	Motion m;
	Sensor sn[NKIND];
	estimator::parameters par;
	uint64_t start{1000000}; // clock at scenario start [us]
	double T{60};
	int imuUs{5000}; double imuJitter{0};
	double lat0{47.4}, lon0{8.5}, alt0{488};
	D3 gyroBias{0, 0, 0}, accBias{0, 0, 0}; double gyroN{0}, accN{0};
	D3 magE{0.21, 0.01, 0.43}, magBias{0, 0, 0};
	double baroOff{0}, groundH{0.1}; D3 terrainSlope{0, 0, 0}; // height of the IMU above the ground at start; terrain: z = groundH + slope.x*n + slope.y*e
	double evYaw{0}; bool evBodyVel{false}; D3 evOff{0, 0, 0}; bool evVelOnly{false};
	double gpsYawOffset{0}; bool gpsYaw{false};
	double eph{0.8}, epv{1.2}, sacc{0.3}; int nsats{14}; double pdop{1.2};
	double rngMin{0.02}, rngMax{60}; int flowQuality{200}; bool flowGyro{true};
	double airborneFrom{0.25}, betaFrom{1e9}; // in-air flag set t0 + airborneFrom*ramp; sideslip flag (wing)
	uint64_t seed{1};
	bool sensorsFirst{true}, earthRate{true}, imuAfter{false};
	// generated
	std::vector<uint64_t> tick; std::vector<D3> pos;
	std::vector<estimator::imuSample> imu; std::vector<estimator::magSample> mag; std::vector<estimator::baroSample> baro; std::vector<estimator::gps_message> gps;
	std::vector<estimator::airspeedSample> asp; std::vector<estimator::rangeSample> rng; std::vector<estimator::flowSample> flow; std::vector<estimator::extVisionSample> ev; std::vector<estimator::auxVelSample> aux;
	std::vector<Ctrl> ctrl; std::vector<Ev_> events;

	D3 earthRateNED() const { const double la = lat0 * M_PI / 180; return {OMEGA * std::cos(la), 0, -OMEGA * std::sin(la)}; }
	double sec(uint64_t t) const { return ((double)t - (double)start) * 1e-6; }
	// true IMU position at scenario time t [s]
	D3 p(double t) const
	{
		if (t <= 0) { return {0, 0, 0}; }
		const uint64_t us = start + (uint64_t)(t * 1e6);
		size_t k = std::upper_bound(tick.begin(), tick.end(), us) - tick.begin(); k = k ? k - 1 : 0;
		const double tk = sec(tick[k]); return pos[k] + (t - tk) * 0.5 * (m.v(tk) + m.v(t));
	}
	D3 pAt(double t, D3 off) const { return p(t) + qrot(m.q(t), off); } // off: body vector from the IMU
	D3 vAt(double t, D3 off) const { return m.v(t) + qrot(m.q(t), cross(m.omega(t), off)); }
	double terrainZ(D3 at) const { return groundH + terrainSlope.x * at.x + terrainSlope.y * at.y; }
	D3 off(const matrix::Vector3f &body) const { return dv(body) - dv(par.imu_pos_body); }
	void latlon(D3 ne, double &la, double &lo) const
	{
		const double d = std::hypot(ne.x, ne.y) / REARTH, f = lat0 * M_PI / 180; if (d < 1e-15) { la = lat0; lo = lon0; return; }
		const double b = std::atan2(ne.y, ne.x), sl = std::sin(f) * std::cos(d) + std::cos(f) * std::sin(d) * std::cos(b);
		la = std::asin(sl) * 180 / M_PI; lo = lon0 + std::atan2(std::sin(b) * std::sin(d) * std::cos(f), std::cos(d) - std::sin(f) * sl) * 180 / M_PI;
		if (lo > 180) { lo -= 360; } if (lo < -180) { lo += 360; }
	}
	double delay(int k) const { return sn[k].delayMs * 1e-3; }
	void setDelays() // parameters <- simulated delays
	{
		par.mag_delay_ms = sn[MAG].delayMs; par.baro_delay_ms = sn[BARO].delayMs; par.gps_delay_ms = sn[GPS].delayMs; par.airspeed_delay_ms = sn[ASP].delayMs;
		par.range_delay_ms = sn[RNG].delayMs; par.flow_delay_ms = sn[FLOW].delayMs; par.ev_delay_ms = sn[EV].delayMs; par.auxvel_delay_ms = sn[AUX].delayMs;
	}
	// arrival times of one sensor [s]
	std::vector<double> arrivals(int k) const
	{
		std::vector<double> r; const Sensor &x = sn[k]; if (!x.on) { return r; }
		pbt::Noise n(seed * 977 + k); double t = x.phase / x.rate;
		for (; t < T; t += 1 / x.rate) { const double a = t + x.jitter * n.uni() / x.rate; if (a > x.delayMs * 1e-3 && a >= x.from && a < x.to) { r.push_back(a); } }
		return r;
	}
	template<class V> void add(V &vec, typename V::value_type s, Kind k, double t) { events.push_back({start + (uint64_t)(t * 1e6), k, (uint32_t)vec.size()}); vec.push_back(s); }
	void build()
	{
		events.clear(); tick.clear(); pos.clear(); imu.clear(); mag.clear(); baro.clear(); gps.clear(); asp.clear(); rng.clear(); flow.clear(); ev.clear(); aux.clear(); ctrl.clear();
		pbt::Noise n(seed); tick.push_back(start); pos.push_back({0, 0, 0}); D3 v0 = m.v(0); Q4 q0 = m.q(0); double t0 = 0; const D3 er = earthRate ? earthRateNED() : D3{0, 0, 0};
		double ideal = 0;
		for (;;) {
			ideal += imuUs * 1e-6; const uint64_t tu = start + (uint64_t)std::llround((ideal + imuJitter * imuUs * 1e-6 * (n.uni() - 0.5)) * 1e6); const double t1 = sec(tu); if (t1 >= T) { break; }
			const double dt = t1 - t0; const D3 v1 = m.v(t1); const Q4 q1 = m.q(t1);
			estimator::imuSample s; s.time_us = tu; s.delta_ang_dt = s.delta_vel_dt = (float)dt;
			const double gs = gyroN * dt, as = accN * dt;
			const D3 da = rotvec(qmul(qconj(q0), q1)) + dt * qrotInv(q0, er) + dt * gyroBias + D3{gs * n.gauss(), gs * n.gauss(), gs * n.gauss()};
			const D3 dvl = qrotInv(q1, v1 - v0 - D3{0, 0, G * dt}) + dt * accBias + D3{as * n.gauss(), as * n.gauss(), as * n.gauss()};
			s.delta_ang = vf(da); s.delta_vel = vf(dvl);
			events.push_back({tu, IMU, (uint32_t)imu.size()}); imu.push_back(s);
			pos.push_back(pos.back() + 0.5 * dt * (v0 + v1)); tick.push_back(tu); v0 = v1; q0 = q1; t0 = t1;
		}
		auto arr = [&](int k, const std::function<void(double ta, double tm, pbt::Noise &nz)> &f) { pbt::Noise nz(seed * 131 + k * 7 + 3); for (double ta : arrivals(k)) { f(ta, ta - delay(k), nz); } };
		auto g3 = [](pbt::Noise &z, double sd) { return D3{sd * z.gauss(), sd * z.gauss(), sd * z.gauss()}; };
		arr(MAG, [&](double ta, double tm, pbt::Noise &z) { estimator::magSample s; s.time_us = start + (uint64_t)(ta * 1e6); s.mag = vf(qrotInv(m.q(tm), magE) + magBias + g3(z, sn[MAG].noise)); add(mag, s, MAG, ta); });
		arr(BARO, [&](double ta, double tm, pbt::Noise &z) { estimator::baroSample s; s.time_us = start + (uint64_t)(ta * 1e6); s.hgt = (float)(alt0 + baroOff - p(tm).z + sn[BARO].noise * z.gauss()); add(baro, s, BARO, ta); });
		arr(GPS, [&](double ta, double tm, pbt::Noise &z) {
			estimator::gps_message s; const D3 o = off(par.gps_pos_body); D3 x = pAt(tm, o) + m.rotz(g3(z, sn[GPS].noise * 0.5)), v = vAt(tm, o) + m.rotz(g3(z, sn[GPS].noise * 0.2)); double la, lo; latlon(x, la, lo);
			s.time_usec = start + (uint64_t)(ta * 1e6); s.lat = (int32_t)std::llround(la * 1e7); s.lon = (int32_t)std::llround(lo * 1e7); s.alt = (int32_t)std::llround((alt0 - x.z) * 1e3);
			s.vel_ned = vf(v); s.vel_m_s = (float)std::hypot(v.x, v.y); s.vel_ned_valid = true; s.fix_type = 3; s.eph = (float)eph; s.epv = (float)epv; s.sacc = (float)sacc; s.nsats = (uint8_t)nsats; s.pdop = (float)pdop; s.yaw = NAN; s.yaw_offset = NAN;
			if (gpsYaw) { const D3 a = qrot(m.q(tm), {std::cos(gpsYawOffset), std::sin(gpsYawOffset), 0}); s.yaw = (float)wrapd(std::atan2(a.y, a.x) - gpsYawOffset + 0.02 * sn[GPS].noise * z.gauss()); s.yaw_offset = (float)gpsYawOffset; }
			add(gps, s, GPS, ta); });
		arr(ASP, [&](double ta, double tm, pbt::Noise &z) { estimator::airspeedSample s; s.time_us = start + (uint64_t)(ta * 1e6); s.true_airspeed = (float)(norm(m.v(tm) - m.windNow()) + sn[ASP].noise * z.gauss()); s.eas2tas = 1; add(asp, s, ASP, ta); });
		arr(RNG, [&](double ta, double tm, pbt::Noise &z) {
			estimator::rangeSample s; s.time_us = start + (uint64_t)(ta * 1e6); const D3 x = pAt(tm, off(par.rng_pos_body)); const double c = qrot(m.q(tm), {std::sin(par.rng_sens_pitch), 0, std::cos(par.rng_sens_pitch)}).z;
			const double r = (terrainZ(x) - x.z) / c + sn[RNG].noise * z.gauss(); s.rng = (float)(c > 0.2 ? std::max(r, 0.0) : 0); s.quality = 100; if (c <= 0.2 || r > rngMax) { s.rng = (float)(rngMax + 1); } add(rng, s, RNG, ta); });
		arr(FLOW, [&](double ta, double tm, pbt::Noise &z) {
			estimator::flowSample s; s.time_us = start + (uint64_t)(ta * 1e6); s.dt = (float)(1 / sn[FLOW].rate); s.quality = (uint8_t)flowQuality; const D3 o = off(par.flow_pos_body), x = pAt(tm, o), w = m.omega(tm), vb = qrotInv(m.q(tm), vAt(tm, o));
			const double c = qrot(m.q(tm), {0, 0, 1}).z, r = std::max(terrainZ(x) - x.z, 0.05) / std::max(c, 0.2); const double n1 = sn[FLOW].noise * z.gauss(), n2 = sn[FLOW].noise * z.gauss();
			s.flow_xy_rad(0) = (float)(s.dt * (vb.y / r + n1 - w.x)); s.flow_xy_rad(1) = (float)(s.dt * (-vb.x / r + n2 - w.y)); s.gyro_xyz = flowGyro ? vf(-s.dt * w) : matrix::Vector3f(NAN, NAN, NAN); add(flow, s, FLOW, ta); });
		arr(EV, [&](double ta, double tm, pbt::Noise &z) {
			estimator::extVisionSample s; const Q4 e = qfromrotvec({0, 0, -evYaw}); const D3 o = off(par.ev_pos_body); s.time_us = start + (uint64_t)(ta * 1e6); // EV frame is rotated by evYaw relative to NED
			s.pos = vf(qrot(e, pAt(tm, o) + m.rotz(g3(z, sn[EV].noise * 0.05))) + evOff); const D3 v = vAt(tm, o) + m.rotz(g3(z, sn[EV].noise * 0.05)); s.vel_frame = evBodyVel ? estimator::velocity_frame_t::BODY_FRAME_FRD : estimator::velocity_frame_t::LOCAL_FRAME_FRD;
			s.vel = vf(evBodyVel ? qrotInv(m.q(tm), v) : qrot(e, v)); const Q4 q = qmul(e, qmul(m.q(tm), qfromrotvec(g3(z, sn[EV].noise * 0.01)))); s.quat = matrix::Quatf((float)q.w, (float)q.x, (float)q.y, (float)q.z);
			s.posVar = matrix::Vector3f(0.01f, 0.01f, 0.01f); s.velCov = matrix::eye<float, 3>() * 0.01f; s.angVar = 2.5e-3f; add(ev, s, EV, ta); });
		arr(AUX, [&](double ta, double tm, pbt::Noise &z) { estimator::auxVelSample s; s.time_us = start + (uint64_t)(ta * 1e6); s.vel = vf(m.v(tm) + m.rotz(g3(z, sn[AUX].noise))); s.velVar = matrix::Vector3f(0.09f, 0.09f, 0.09f); add(aux, s, AUX, ta); });
		if (m.kind == Motion::WING) { add(ctrl, {1, 1}, CTRL, 0); }
		if (m.kind != Motion::STATIC) { const double a = m.t0 + airborneFrom * m.ramp; if (a < T) { add(ctrl, {0, 1}, CTRL, a); } if (betaFrom < T) { add(ctrl, {2, 1}, CTRL, betaFrom); } if (m.tEnd - (1 - airborneFrom) * 0 < T) { add(ctrl, {0, 0}, CTRL, m.tEnd); } }
		sort();
	}
	// same instant: status, then sensors, then IMU (or IMU before the sensors)
	void sort() { const bool f = sensorsFirst; std::stable_sort(events.begin(), events.end(), [f](const Ev_ &a, const Ev_ &b) { if (a.t != b.t) { return a.t < b.t; } auto r = [f](const Ev_ &x) { return x.k == CTRL ? 0 : x.k == IMU ? (f ? 3 : 1) : 2; }; return r(a) < r(b); }); }

	void init(Ekf &f) const { *f.getParamHandle() = par; f.set_rangefinder_limits((float)rngMin, (float)rngMax); f.set_optical_flow_limits(50.f, 0.02f, 100.f); }
	// apply one call; returns true if the filter advanced (new state at the fusion horizon)
	bool apply(Ekf &f, const Ev_ &e, int64_t shift = 0) const
	{
		switch (e.k) {
		case IMU: { estimator::imuSample s = imu[e.i]; s.time_us += shift; f.setIMUData(s); return f.update(); }
		case MAG: { estimator::magSample s = mag[e.i]; s.time_us += shift; f.setMagData(s); return false; }
		case BARO: { estimator::baroSample s = baro[e.i]; s.time_us += shift; f.setBaroData(s); return false; }
		case GPS: { estimator::gps_message s = gps[e.i]; s.time_usec += shift; f.setGpsData(s); return false; }
		case ASP: { estimator::airspeedSample s = asp[e.i]; s.time_us += shift; f.setAirspeedData(s); return false; }
		case RNG: { estimator::rangeSample s = rng[e.i]; s.time_us += shift; f.setRangeData(s); return false; }
		case FLOW: { estimator::flowSample s = flow[e.i]; s.time_us += shift; f.setOpticalFlowData(s); return false; }
		case EV: { estimator::extVisionSample s = ev[e.i]; s.time_us += shift; f.setExtVisionData(s); return false; }
		case AUX: { estimator::auxVelSample s = aux[e.i]; s.time_us += shift; f.setAuxVelData(s); return false; }
		default: { const Ctrl &c = ctrl[e.i]; if (c.op == 0) { f.set_in_air_status(c.val); } else if (c.op == 1) { f.set_is_fixed_wing(c.val); } else if (c.op == 2) { f.set_fuse_beta_flag(c.val); } else { f.set_gnd_effect_flag(c.val); } return false; }
		}
	}
};

// magnetic field at the scenario's place, as the library's model states it (the lookup itself is decided by G01)
static inline D3 fieldAt(double lat, double lon)
{
	const double d = get_mag_declination_radians((float)lat, (float)lon), i = get_mag_inclination_radians((float)lat, (float)lon), s = get_mag_strength_gauss((float)lat, (float)lon);
	return {s * std::cos(i) * std::cos(d), s * std::cos(i) * std::sin(d), s * std::sin(i)};
}

// ---- random scenarios
struct Want { bool gps{true}, flow{false}, ev{false}, air{false}, aux{false}, range{false}, wing{false}; bool noise{true}, bias{true}, lever{true}, jitter{true}; double T{60}; bool land{false}; };
static inline void genScenario(pbt::Ctx &c, Scenario &s, Want o)
{
	auto &g = c.g; s.T = o.T; s.seed = g.seed();
	s.start = g.below(3) ? 1000000 + g.below(100000000) : (uint64_t)(1e6 + g.logu(1, 1e5) * 1e6);
	s.lat0 = g.below(4) ? g.sym(60) : g.sym(75); s.lon0 = g.below(4) ? g.sym(179.9) : (g.below(2) ? 1 : -1) * g.real(179.9, 179.9999); s.alt0 = g.real(-50, 3000);
	s.magE = fieldAt(s.lat0, s.lon0);
	// where the field dips steeply the heading reset to the low-passed body field while banking may be off by a right angle: not in these flights
	while (std::hypot(s.magE.x, s.magE.y) < (o.wing ? 0.5 : 0.25) * std::fabs(s.magE.z)) { s.lat0 *= 0.8; s.magE = fieldAt(s.lat0, s.lon0); }
	Motion &m = s.m; m.kind = o.wing ? Motion::WING : Motion::MULTI; m.psi0 = g.sym(M_PI); m.t0 = g.real(12.5, 16); m.ramp = g.real(3, 5);
	const double tl = o.wing ? 0.1 : 0.15; m.tilt0 = {g.sym(tl), g.sym(tl), 0};
	if (!o.wing) {
		m.H = g.real(4, 30); m.H = std::min(m.H, 0.6 * m.ramp * m.ramp); m.Az = g.real(0, 0.3 * m.H); /* vertical acceleration well below 1 g */ m.wz = g.real(0.2, 0.8);
		for (int i = 0; i < 2; i++) { m.U[i] = g.sym(3); for (int j = 0; j < 2; j++) { m.w[i][j] = g.real(0.2, 1.2); m.A[i][j] = g.real(0.2, 2.5) / (1 + m.w[i][j]); m.ph[i][j] = g.sym(M_PI); } }
		m.yawRate = g.below(3) ? g.sym(0.3) : 0; m.yawA = g.real(0, 0.6); m.yawW = g.real(0.1, 0.8); for (int i = 0; i < 3; i++) { m.wobA[i] = g.real(0, 0.06); m.wobW[i] = g.real(0.5, 4); }
	} else {
		m.ramp = g.real(5, 7); m.V = g.real(12, 25); m.gamA = g.real(0, 0.12); m.gamW = g.real(0.1, 0.4); m.turnRate = (g.below(2) ? 1 : -1) * g.real(0.1, 0.35); m.turnA = g.real(0, 0.5); m.turnW = g.real(0.1, 0.4); m.wind = {g.sym(6), g.sym(6), 0};
		s.airborneFrom = 1.05;
	}
	if (o.land) { m.tEnd = s.T - g.real(6, 10); if (m.tEnd < m.t0 + 2 * m.ramp + 4) { m.tEnd = 1e9; } }
	s.imuUs = (int)g.pick({2500, 4000, 5000, 5000, 10000}); s.imuJitter = o.jitter && g.below(2) ? g.real(0, 0.3) : 0;
	auto on = [&](int k, double lo, double hi, double dlo, double dhi, double noise) { Sensor &x = s.sn[k]; x.on = true; x.rate = g.real(lo, hi); x.delayMs = g.below(4) ? g.real(dlo, dhi) : dlo; x.phase = g.real(0, 1); x.jitter = o.jitter && g.below(2) ? g.real(0, 0.4) : 0; x.noise = o.noise ? noise * g.real(0.2, 1) : 0; };
	on(MAG, 20, 90, 0, 20, 0.004); on(BARO, 20, 90, 0, 20, 0.15);
	s.par.fusion_mode = 0;
	if (o.gps) { on(GPS, 4.5, 10, 40, 200, 0.6); s.par.fusion_mode |= MASK_USE_GPS; }
	if (o.wing || o.air) { on(ASP, 9, 60, 0, 120, 0.4); }
	if (o.range || o.flow) { on(RNG, 12, 45, 0, 60, 0.02); }
	if (o.flow) { on(FLOW, 15, 60, 0, 40, 0.04); s.par.fusion_mode |= MASK_USE_OF; }
	if (o.ev) { on(EV, 15, 50, 0, 190, 0.6); }
	if (o.aux) { on(AUX, 10, 50, 0, 60, 0.1); }
	s.setDelays();
	if (o.bias) { s.gyroBias = {g.sym(0.02), g.sym(0.02), g.sym(0.02)}; s.accBias = {g.sym(0.1), g.sym(0.1), g.sym(0.15)}; }
	if (o.noise) { s.gyroN = 0.0015 * g.real(0, 1); s.accN = 0.05 * g.real(0, 1); }
	if (o.lever) { auto l = [&](double a) { return g.below(3) ? matrix::Vector3f((float)g.sym(a), (float)g.sym(a), (float)g.sym(a)) : matrix::Vector3f(); };
		s.par.imu_pos_body = l(0.3); s.par.gps_pos_body = l(1); s.par.rng_pos_body = l(0.4); s.par.flow_pos_body = l(0.4); s.par.ev_pos_body = l(0.4); }
	s.groundH = 0.1; s.baroOff = g.sym(100); s.eph = g.real(0.3, 1.5); s.epv = g.real(0.5, 2); s.sacc = g.real(0.1, 0.5); s.sensorsFirst = g.below(4) != 0;
}
} // namespace sim
namespace sim {
// every read-only output of the public interface, as named words
struct Snap { std::vector<double> v; std::vector<const char *> n; void put(const char *k, double x) { v.push_back(x); n.push_back(k); } };
static inline Snap snapshot(Ekf &f, int64_t shift = 0, bool gsf = true)
{
	Snap s; auto P = [&](const char *k, double x) { s.put(k, x); };
	auto V3 = [&](const char *k, const matrix::Vector3f &x) { for (int i = 0; i < 3; i++) { s.put(k, x(i)); } };
	auto T = [&](const char *k, uint64_t t) { s.put(k, t == 0 ? -1e18 : (double)(int64_t)(t - shift)); };
	auto x = f.getStateAtFusionHorizonAsVector(); for (int i = 0; i < 24; i++) { P("state", x(i)); }
	auto &C = f.covariances(); for (int i = 0; i < 24; i++) { for (int j = i; j < 24; j++) { P("covariance", C(i, j)); } }
	for (int i = 0; i < 4; i++) { P("quaternion", f.getQuaternion()(i)); } V3("velocity", f.getVelocity()); V3("position", f.getPosition()); V3("velocity derivative", f.getVelocityDerivative()); P("vertical position derivative", f.getVerticalPositionDerivative());
	{ auto q = f.calculate_quaternion(); for (int i = 0; i < 4; i++) { P("calculate_quaternion", q(i)); } }
	V3("vibration metrics", f.getImuVibrationMetrics()); P("control status", f.control_status().value); P("previous control status", f.control_status_prev().value); P("fault status", f.fault_status().value);
	P("bad_acc_vertical", f.fault_status_flags().bad_acc_vertical); P("bad_acc_clipping", f.fault_status_flags().bad_acc_clipping); P("innovation fail status", f.innov_check_fail_status().value);
	P("warning events", f.warning_event_status().value); P("information events", f.information_event_status().value); P("at rest", f.isVehicleAtRest()); P("dt_imu_avg", f.get_dt_imu_avg());
	T("imu delayed time", f.get_imu_sample_delayed().time_us); V3("imu delayed", f.get_imu_sample_delayed().delta_ang); V3("imu delayed", f.get_imu_sample_delayed().delta_vel); T("baro delayed time", f.get_baro_sample_delayed().time_us); P("baro delayed", f.get_baro_sample_delayed().hgt);
	P("inertial dead reckoning", f.inertial_dead_reckoning()); P("attitude valid", f.attitude_valid()); P("origin valid", f.global_origin_valid()); { float d = 0; P("saved declination ok", f.get_mag_decl_deg(&d)); P("saved declination", d); }
	float a[2], b[2], d1, d2, d3, d4;
	f.getGpsVelPosInnov(a, d1, b, d2); P("gps innov", a[0]); P("gps innov", a[1]); P("gps innov", d1); P("gps innov", b[0]); P("gps innov", b[1]); P("gps innov", d2);
	f.getGpsVelPosInnovVar(a, d1, b, d2); P("gps innov var", a[0]); P("gps innov var", a[1]); P("gps innov var", d1); P("gps innov var", b[0]); P("gps innov var", b[1]); P("gps innov var", d2);
	f.getGpsVelPosInnovRatio(d1, d2, d3, d4); P("gps ratio", d1); P("gps ratio", d2); P("gps ratio", d3); P("gps ratio", d4);
	f.getEvVelPosInnov(a, d1, b, d2); P("ev innov", a[0]); P("ev innov", a[1]); P("ev innov", d1); P("ev innov", b[0]); P("ev innov", b[1]); P("ev innov", d2);
	f.getEvVelPosInnovVar(a, d1, b, d2); P("ev innov var", a[0]); P("ev innov var", a[1]); P("ev innov var", d1); P("ev innov var", b[0]); P("ev innov var", b[1]); P("ev innov var", d2);
	f.getEvVelPosInnovRatio(d1, d2, d3, d4); P("ev ratio", d1); P("ev ratio", d2); P("ev ratio", d3); P("ev ratio", d4);
	f.getBaroHgtInnov(d1); P("baro innov", d1); f.getBaroHgtInnovVar(d1); P("baro innov var", d1); f.getBaroHgtInnovRatio(d1); P("baro ratio", d1);
	f.getRngHgtInnov(d1); P("range innov", d1); f.getRngHgtInnovVar(d1); P("range innov var", d1); f.getRngHgtInnovRatio(d1); P("range ratio", d1);
	f.getAuxVelInnov(a); P("aux innov", a[0]); P("aux innov", a[1]); f.getAuxVelInnovVar(a); P("aux innov var", a[0]); P("aux innov var", a[1]); f.getAuxVelInnovRatio(d1); P("aux ratio", d1);
	f.getFlowInnov(a); P("flow innov", a[0]); P("flow innov", a[1]); f.getFlowInnovVar(a); P("flow innov var", a[0]); P("flow innov var", a[1]); f.getFlowInnovRatio(d1); P("flow ratio", d1);
	for (int i = 0; i < 2; i++) { P("flow vel body", f.getFlowVelBody()(i)); P("flow vel NE", f.getFlowVelNE()(i)); P("flow compensated", f.getFlowCompensated()(i)); P("flow uncompensated", f.getFlowUncompensated()(i)); } V3("flow gyro", f.getFlowGyro());
	f.getHeadingInnov(d1); P("heading innov", d1); f.getHeadingInnovVar(d1); P("heading innov var", d1); f.getHeadingInnovRatio(d1); P("heading ratio", d1);
	{ float m[3]; f.getMagInnov(m); for (int i = 0; i < 3; i++) { P("mag innov", m[i]); } f.getMagInnovVar(m); for (int i = 0; i < 3; i++) { P("mag innov var", m[i]); } f.getMagInnovRatio(d1); P("mag ratio", d1); }
	f.getDragInnov(a); P("drag innov", a[0]); P("drag innov", a[1]); f.getDragInnovVar(a); P("drag innov var", a[0]); P("drag innov var", a[1]); f.getDragInnovRatio(a); P("drag ratio", a[0]); P("drag ratio", a[1]);
	f.getAirspeedInnov(d1); P("airspeed innov", d1); f.getAirspeedInnovVar(d1); P("airspeed innov var", d1); f.getAirspeedInnovRatio(d1); P("airspeed ratio", d1);
	f.getBetaInnov(d1); P("beta innov", d1); f.getBetaInnovVar(d1); P("beta innov var", d1); f.getBetaInnovRatio(d1); P("beta ratio", d1);
	f.getHaglInnov(d1); P("hagl innov", d1); f.getHaglInnovVar(d1); P("hagl innov var", d1); f.getHaglInnovRatio(d1); P("hagl ratio", d1);
	f.get_true_airspeed(&d1); P("true airspeed", d1); { uint64_t t = 0; double la = 0, lo = 0; float al = 0; P("origin", f.getEkfGlobalOrigin(t, la, lo, al)); if (f.global_origin_valid()) { T("origin time", t); P("origin", la); P("origin", lo); P("origin alt", al); } }
	f.get_ekf_gpos_accuracy(&d1, &d2); P("gpos accuracy", d1); P("gpos accuracy", d2); f.get_ekf_lpos_accuracy(&d1, &d2); P("lpos accuracy", d1); P("lpos accuracy", d2); f.get_ekf_vel_accuracy(&d1, &d2); P("vel accuracy", d1); P("vel accuracy", d2);
	f.get_ekf_ctrl_limits(&d1, &d2, &d3, &d4); P("ctrl limits", d1); P("ctrl limits", d2); P("ctrl limits", d3); P("ctrl limits", d4);
	V3("output tracking error", f.getOutputTrackingError()); P("global position valid", f.global_position_is_valid()); P("local position valid", f.local_position_is_valid()); P("terrain valid", f.isTerrainEstimateValid()); P("terrain sensors", f.getTerrainEstimateSensorBitfield()); P("terrain pos", f.getTerrainVertPos()); P("terrain var", f.get_terrain_var());
	V3("gyro bias", f.getGyroBias()); V3("accel bias", f.getAccelBias()); V3("gyro bias var", f.getGyroBiasVariance()); V3("accel bias var", f.getAccelBiasVariance());
	{ uint16_t g; f.get_gps_check_status(&g); P("gps checks", g); f.get_ekf_soln_status(&g); P("solution status", g); float m = -1, v = -1, p = -1, h = -1, t = -1, hl = -1, be = -1; f.get_innovation_test_status(g, m, v, p, h, t, hl, be); P("innovation test status", g); P("test ratio mag", m); P("test ratio vel", v); P("test ratio pos", p); P("test ratio hgt", h); P("test ratio tas", t); P("test ratio hagl", hl); P("test ratio beta", be); }
	{ auto &r = f.state_reset_status(); P("reset counters", r.velNE_counter); P("reset counters", r.velD_counter); P("reset counters", r.posNE_counter); P("reset counters", r.posD_counter); P("reset counters", r.quat_counter); P("reset change", r.velNE_change(0)); P("reset change", r.velNE_change(1)); P("reset change", r.velD_change); P("reset change", r.posNE_change(0)); P("reset change", r.posNE_change(1)); P("reset change", r.posD_change); for (int i = 0; i < 4; i++) { P("reset change quat", r.quat_change(i)); } }
	{ auto q = f.getVisionAlignmentQuaternion(); for (int i = 0; i < 4; i++) { P("vision alignment", q(i)); } }
	if (gsf) { float y = 0, yv = 0, ya[5] = {}, in[5] = {}, ie[5] = {}, w[5] = {}; const bool ok = f.getDataEKFGSF(&y, &yv, ya, in, ie, w); P("gsf available", ok); if (ok) { P("gsf yaw", y); P("gsf var", yv); for (int i = 0; i < 5; i++) { P("gsf model yaw", ya[i]); P("gsf innov", in[i]); P("gsf innov", ie[i]); P("gsf weight", w[i]); } } }
	return s;
}
static inline bool sameWord(double a, double b) { return a == b || (std::isnan(a) && std::isnan(b)); }
// index of the first differing word, or -1
static inline int firstDiff(const Snap &a, const Snap &b) { if (a.v.size() != b.v.size()) { return 0; } for (size_t i = 0; i < a.v.size(); i++) { if (!sameWord(a.v[i], b.v[i])) { return (int)i; } } return -1; }
} // namespace sim
namespace sim {
// a scenario with any aiding combination; returns a short name
static inline const char *genAny(pbt::Ctx &c, Scenario &s, Want o)
{
	auto &g = c.g; const int mode = (int)g.below(9); static const char *const names[] = {"gps", "gps+flow+range", "vision", "vision+gps", "fixed wing", "flow+range", "gps height", "range height", "dual antenna yaw"};
	o.gps = mode != 2 && mode != 5; o.flow = mode == 1 || mode == 5; o.ev = mode == 2 || mode == 3; o.wing = mode == 4; o.range = mode == 7 || o.flow || g.below(3) == 0; o.aux = g.below(5) == 0;
	if (o.wing) { o.T = std::max(o.T, 45.0); }
	genScenario(c, s, o);
	if (!o.gps) { s.par.mag_declination_deg = (float)(std::atan2(s.magE.y, s.magE.x) * 180 / M_PI); s.par.mag_declination_source = g.below(2) ? 0 : 7; }
	if (o.ev) {
		s.par.fusion_mode |= g.pick({MASK_USE_EVPOS, MASK_USE_EVVEL, MASK_USE_EVPOS | MASK_USE_EVVEL, MASK_USE_EVPOS | MASK_USE_EVYAW, MASK_USE_EVPOS | MASK_USE_EVVEL | MASK_USE_EVYAW});
		s.evBodyVel = g.below(2); if (g.below(3) == 0 && !(s.par.fusion_mode & MASK_USE_EVYAW)) { s.par.fusion_mode |= MASK_ROTATE_EV; s.evYaw = g.sym(M_PI); }
		if (!o.gps && g.below(2)) { s.par.vdist_sensor_type = VDIST_SENSOR_EV; } if (s.par.fusion_mode & MASK_USE_EVYAW) { s.par.mag_fusion_type = g.pick({MAG_FUSE_TYPE_AUTO, MAG_FUSE_TYPE_NONE}); }
	}
	if (mode == 6) { s.par.vdist_sensor_type = VDIST_SENSOR_GPS; } if (mode == 7) { s.par.vdist_sensor_type = VDIST_SENSOR_RANGE; }
	if (mode == 8) { s.par.fusion_mode |= MASK_USE_GPSYAW; s.gpsYaw = true; s.gpsYawOffset = g.below(2) ? g.sym(M_PI) : 0; }
	if (o.wing && g.below(2)) { s.betaFrom = s.m.t0 + s.m.ramp * 1.1; }
	if (!o.wing && g.below(6) == 0) { s.par.fusion_mode |= MASK_USE_DRAG; }
	if (g.below(4) == 0 && s.par.mag_fusion_type == 0) { s.par.mag_fusion_type = g.pick({MAG_FUSE_TYPE_HEADING, MAG_FUSE_TYPE_3D, MAG_FUSE_TYPE_INDOOR}); }
	if (g.below(6) == 0) { s.par.synthesize_mag_z = 1; } if (g.below(6) == 0) { s.par.check_mag_strength = 1; } if (g.below(6) == 0) { s.par.range_aid = 1; }
	return names[mode];
}
} // namespace sim
