// LIB: EKF geo/geo.cpp geo_lookup/geo_mag_declination.cpp
// TECHNIQUE: property-based testing: generated states and covariances, differential against a double-precision Kalman update
#include "ekf_box.hpp"

// heading of the Euler sequence that is regular at this attitude
static double yawOf(const double *q, bool s321) { double R[3][3]; rotOf(q, R); return s321 ? std::atan2(R[1][0], R[0][0]) : std::atan2(-R[0][1], R[1][1]); }
// same, relative to a fixed heading, for differencing away from the branch cut
static double yawRel(const double *q, bool s321, double y0)
{
	double R[3][3]; rotOf(q, R); const double s = s321 ? R[1][0] : -R[0][1], k = s321 ? R[0][0] : R[1][1];
	return std::atan2(s * std::cos(y0) - k * std::sin(y0), k * std::cos(y0) + s * std::sin(y0));
}
static bool pickSeq(pbt::Ctx &c, const double *q)
{
	double R[3][3]; rotOf(q, R); const double a = std::fabs(R[2][0]), b = std::fabs(R[2][1]);
	if (std::fabs(a - b) < 1e-5) { c.discard(); } return a < b;
}
static void flagsCheck(pbt::Ctx &c, Ekf &e, uint16_t st0, bool rejected)
{
	PBT_CHECK(c, bool(e.innov_check_fail_status_flags().reject_yaw) == rejected, "yaw rejection flag is %d", (int)e.innov_check_fail_status_flags().reject_yaw);
	PBT_CHECK(c, (e._innov_check_fail_status.value & ~0x80) == (st0 & ~0x80), "other rejection flags changed: %x to %x", st0, e._innov_check_fail_status.value);
}
// compares after a yaw fusion: innov = wrapped innovation, H on quaternion states
static void judge(pbt::Ctx &c, Box &b, Ref r, const double *H, const double *hs, double R, double gate, double innov, double eI, bool mayReject, uint32_t mask, uint16_t st0, const std::function<void()> &fuse, bool reportAlways)
{
	Ekf &e = *b.e; r.innovVar(H, hs, R); if (r.ill()) { c.cls("skip: ill-conditioned"); c.discard(); }
	const double S = r.S, eS = r.eS, ratio = innov * innov / (gate * gate * S), lim = gate * std::sqrt(S);
	if (std::fabs(std::sqrt(ratio) - 1) < 1e-4 + eI / lim + eS / S || std::fabs(innov) > M_PI - 2 * eI - 1e-5) { c.discard(); }
	const bool out = ratio > 1; double used = innov, eU = eI;
	if (out) { used = innov > 0 ? lim : -lim; eU = lim * (eS / S + 4 * EPSF); }
	c.note("R %g gate %g innovation %g ratio %g", R, gate, innov, ratio);
	if (!(out && mayReject)) { r.update(H, hs, used, eU, mask); if (r.closeCall) { c.cls("skip: tie"); c.discard(); } }
	c.nontrivial(innov != 0);
	fuse();
	float gi, gv, gr; e.getHeadingInnov(gi); e.getHeadingInnovVar(gv); e.getHeadingInnovRatio(gr);
	c.close(gv, S, eS, "innovation variance"); c.close(gr, ratio, (2e-3 + eS / S) * ratio + 2 * std::sqrt(ratio) * eI / lim + 1e-9, "test ratio");
	flagsCheck(c, e, st0, out);
	if (out && mayReject) { c.cls("rejected"); same(c, e, b.r0, "rejected"); return; }
	c.cls(out ? "clamped on ground" : "fused"); c.close(gi, used, eU + 4 * EPSF, "innovation"); (void)reportAlways;
	compare(c, e, r, "yaw fusion");
}
struct Phase { bool mayReject; };
static Phase setPhase(pbt::Ctx &c, Ekf &e, bool landedHold)
{
	// in air, landed less than five seconds ago, or on ground for long
	const int k = (int)c.g.below(4); e._control_status.flags.in_air = k < 2; e._time_last_in_air = k < 2 ? e._time_last_imu : k == 2 ? e._time_last_imu - c.g.below(4990000) : e._time_last_imu - 5100000 - c.g.below(10000000);
	c.note("%s; ", k < 2 ? "in air" : k == 2 ? "just landed" : "on ground"); return {k < 2 || (landedHold && k == 2)};
}
LAW(heading, 960000, 4000000)
{
	Box b = genBox(c, 0); Ekf &e = *b.e; const DeclLimit d = setDecl(c, b); e._NED_origin_initialised = false; Ref r = b.r0;
	const bool s321 = pickSeq(c, r.x); const double y0 = yawOf(r.x, s321);
	const Phase ph = setPhase(c, e, true); e._innov_check_fail_status.value = c.g.below(2) ? 0xffff : 0; const uint16_t st0 = e._innov_check_fail_status.value;
	b.par->heading_innov_gate = (float)c.g.logu(0.4, 6); const double gate = std::max(1.0, (double)b.par->heading_innov_gate);
	double H[NX], hs[NX] = {}; jacobian([&](const double *x) { return yawRel(x, s321, y0); }, r.x, H); for (int i = 4; i < NX; i++) { H[i] = 0; } for (int i = 0; i < 4; i++) { hs[i] = 4; }
	const int src = (int)c.g.below(5); // 0,1 magnetometer 2,3 vision 4 none
	double R = 0.01, innov = 0, eI = 2e-6, sum = 0, meas = y0; for (int i = 0; i < 4; i++) { sum += r.P[i][i]; }
	// wanted innovation in terms of the gate
	{ const double Rg = src < 2 ? 0.09 : 0.01; Ref t = r; t.innovVar(H, hs, Rg); if (!(t.S > 0)) { c.discard(); } innov = c.g.pick<double>({0.3, 0.9, 1.5, 5}) * gate * std::sqrt(t.S) * c.g.sym(1); if (std::fabs(innov) > 3.1) { innov = c.g.sym(M_PI); } }
	D3 body{0, 0, 0};
	if (src < 2) {
		e._control_status.flags.mag_hdg = true; b.par->mag_heading_noise = (float)c.g.logu(0.005, 0.6); R = (double)b.par->mag_heading_noise * b.par->mag_heading_noise;
		const double decl = declOf(d, r), want = y0 - innov - decl, h = c.g.logu(0.03, 0.5), v = c.g.sym(0.6);
		// a field whose horizontal part points at minus the wanted heading in the frame of zero yaw
		const double ang = -want; Q4 q{r.x[0], r.x[1], r.x[2], r.x[3]}; const double qr[4] = {q.w, q.x, q.y, q.z};
		D3 ef{h * std::cos(ang), h * std::sin(ang), v}; // frame of zero yaw
		const double cy = std::cos(y0), sy = std::sin(y0); D3 en{cy * ef.x - sy * ef.y, sy * ef.x + cy * ef.y, ef.z}; body = toBody(qr, en); D3 m = body + D3{r.x[19], r.x[20], r.x[21]};
		e._mag_sample_delayed.mag(0) = (float)m.x; e._mag_sample_delayed.mag(1) = (float)m.y; e._mag_sample_delayed.mag(2) = (float)m.z;
		// what was really sent, after rounding
		D3 mb{(double)e._mag_sample_delayed.mag(0) - r.x[19], (double)e._mag_sample_delayed.mag(1) - r.x[20], (double)e._mag_sample_delayed.mag(2) - r.x[21]}; D3 me = toEarth(qr, mb);
		D3 mz{cy * me.x + sy * me.y, -sy * me.x + cy * me.y, me.z}; meas = -std::atan2(mz.y, mz.x) + decl; eI += 30 * EPSF * (norm(m) + 0.2) / h;
	} else if (src < 4) {
		e._control_status.flags.ev_yaw = true; e._ev_sample_delayed.angVar = (float)c.g.logu(1e-6, 0.3); R = e._ev_sample_delayed.angVar;
		const Q4 q{r.x[0], r.x[1], r.x[2], r.x[3]}; Q4 ev = qmul(qmul(qeuler(0, 0, -innov), qnormalize(q)), qfromrotvec({c.g.sym(0.1), c.g.sym(0.1), c.g.sym(0.1)}));
		e._ev_sample_delayed.quat = matrix::Quatf((float)ev.w, (float)ev.x, (float)ev.y, (float)ev.z); e._ev_sample_delayed.quat.normalize();
		const double qe[4] = {e._ev_sample_delayed.quat(0), e._ev_sample_delayed.quat(1), e._ev_sample_delayed.quat(2), e._ev_sample_delayed.quat(3)};
		double M[3][3]; rotOf(qe, M); const double hor = s321 ? std::hypot(M[0][0], M[1][0]) : std::hypot(M[0][1], M[1][1]); if (hor < 0.2) { c.discard(); } eI += 1e-6 / hor; meas = yawOf(qe, s321);
	}
	const bool inhibited = c.g.below(4) == 0, rest = c.g.below(2); e._is_yaw_fusion_inhibited = inhibited; e._control_status.flags.vehicle_at_rest = rest; bool zero = false, none = false;
	b.par->quat_max_variance = (float)c.g.logu(1e-4, 0.3); if (std::fabs(sum / b.par->quat_max_variance - 1) < 1e-4) { c.discard(); }
	e._last_static_yaw = (float)wrapd(y0 - c.g.sym(1));
	if (inhibited && !(src == 2 || src == 3)) { if (!rest) { if (sum > b.par->quat_max_variance) { zero = true; R = 0.25; } else { none = true; } } else { meas = e._last_static_yaw; eI = 2e-6; } }
	innov = zero ? 0 : wrapd(y0 - meas); if (zero || (src == 4 && !(inhibited && rest))) { innov = 0; }
	if (R < 1e-4) { R = 1e-4; c.cls("variance floor"); }
	c.note("source %s, sequence %s, inhibited %d at rest %d", src < 2 ? "magnetometer" : src < 4 ? "vision" : "none", s321 ? "321" : "312", inhibited, rest);
	c.cls(s321 ? "321" : "312"); c.cls(src < 2 ? "magnetometer" : src < 4 ? "vision" : "no source"); c.cls(inhibited, "inhibited");
	if (none) { c.nontrivial(); e.fuseHeading(); same(c, e, r, "heading use inhibited in motion"); return; }
	const uint32_t mask = 0xffffu | (b.wind ? 0xc00000u : 0);
	judge(c, b, r, H, hs, R, gate, innov, eI, ph.mayReject, mask, st0, [&] { e.fuseHeading(); }, true);
}
LAW(antennas, 640000, 3000000)
{
	Box b = genBox(c); Ekf &e = *b.e; Ref r = b.r0;
	e._gps_yaw_offset = c.g.below(3) ? (float)c.g.sym(M_PI) : 0.f; const double off = e._gps_yaw_offset; const D3 ant{std::cos(off), std::sin(off), 0};
	const D3 ef = toEarth(r.x, ant); const double y0 = std::atan2(ef.y, ef.x), hor = std::hypot(ef.x, ef.y), lim = std::cos(M_PI / 6);
	const Phase ph = setPhase(c, e, false); const uint16_t st0 = e._innov_check_fail_status.value = c.g.below(2) ? 0xffff : 0;
	b.par->heading_innov_gate = (float)c.g.logu(0.4, 6); const double gate = std::max(1.0, (double)b.par->heading_innov_gate); b.par->mag_heading_noise = (float)c.g.logu(0.002, 0.6);
	const double sd = std::max((double)b.par->mag_heading_noise, 0.01), R = sd * sd;
	if (std::fabs(std::fabs(ef.z) - lim) < 1e-5) { c.discard(); }
	c.note("antenna offset %g, elevation sine %g, heading %g; ", off, ef.z, y0);
	if (std::fabs(ef.z) > lim) {
		e._gps_sample_delayed.yaw = (float)c.g.sym(M_PI); c.cls("antennas too steep"); c.nontrivial(); e.fuseGpsYaw(); same(c, e, r, "antennas near vertical"); return;
	}
	if (std::fabs(ef.x) < 2e-3) { c.cls("skip: near east or west"); c.discard(); }
	double H[NX], hs[NX] = {}; jacobian([&](const double *x) { const D3 v = toEarth(x, ant); return std::atan2(v.y * std::cos(y0) - v.x * std::sin(y0), v.x * std::cos(y0) + v.y * std::sin(y0)); }, r.x, H); for (int i = 4; i < NX; i++) { H[i] = 0; } for (int i = 0; i < 4; i++) { hs[i] = 4 / hor * std::max(1.0, 0.05 / std::fabs(ef.x)); }
	double innov; { Ref t = r; t.innovVar(H, hs, R); if (!(t.S > 0)) { c.discard(); } innov = c.g.pick<double>({0.3, 0.9, 1.5, 5}) * gate * std::sqrt(t.S) * c.g.sym(1); if (std::fabs(innov) > 3.1) { innov = c.g.sym(M_PI); } }
	e._gps_sample_delayed.yaw = (float)wrapd(y0 - innov - off); innov = wrapd(y0 - (e._gps_sample_delayed.yaw + off));
	e._time_last_gps_yaw_fuse = 0;
	judge(c, b, r, H, hs, R, gate, innov, 2e-6, ph.mayReject, Ref::all(), st0, [&] { e.fuseGpsYaw(); }, true);
}
// independent of any Jacobian: with all uncertainty in heading a precise observation turns the heading and nothing else
LAW(turns_heading_only, 250000, 1000000)
{
	Box b = genBox(c, 0, 0); Ekf &e = *b.e; const Q4 q{b.r0.x[0], b.r0.x[1], b.r0.x[2], b.r0.x[3]}; const bool s321 = pickSeq(c, b.r0.x), gps = c.g.below(2);
	const double vy = 0.04; for (int i = 0; i < NX; i++) { for (int j = 0; j < NX; j++) { e.P(i, j) = i == j ? 1e-6f : 0; } } for (int i = 10; i < 16; i++) { e.P(i, i) = 5e-8f; }
	// heading error: rotation about the vertical of the earth frame
	const Q4 g = qmul({0, 0, 0, 0.5}, q); const double G[4] = {g.w, g.x, g.y, g.z};
	for (int i = 0; i < 4; i++) { for (int j = 0; j < 4; j++) { e.P(i, j) = (float)(vy * G[i] * G[j] + (i == j ? 1e-9 : 0)); } }
	const double delta = c.g.sym(0.15), y0 = yawOf(b.r0.x, s321); double R = 1e-4;
	if (gps) {
		e._gps_yaw_offset = (float)c.g.sym(M_PI); const D3 ef = toEarth(b.r0.x, {std::cos((double)e._gps_yaw_offset), std::sin((double)e._gps_yaw_offset), 0}); if (std::fabs(ef.z) > 0.8 || std::fabs(ef.x) < 0.01) { c.discard(); }
		b.par->mag_heading_noise = 0.01f; e._gps_sample_delayed.yaw = (float)wrapd(std::atan2(ef.y, ef.x) + delta - e._gps_yaw_offset); e.fuseGpsYaw();
	} else {
		e._control_status.flags.ev_yaw = true; e._ev_sample_delayed.angVar = 1e-4f; Q4 ev = qmul(qeuler(0, 0, delta), qnormalize(q)); e._ev_sample_delayed.quat = matrix::Quatf((float)ev.w, (float)ev.x, (float)ev.y, (float)ev.z); e._is_yaw_fusion_inhibited = false; e.fuseHeading();
	}
	c.nontrivial(delta != 0); c.note("delta %g gps %d sequence 321 %d heading %g", delta, gps, s321, y0); c.cls(gps ? "antennas" : "vision");
	const Q4 q1{e._state.quat_nominal(0), e._state.quat_nominal(1), e._state.quat_nominal(2), e._state.quat_nominal(3)};
	const D3 rv = rotvec(qmul(q1, qconj(qnormalize(q)))); // rotation in the earth frame
	const double expect = delta * vy / (vy + R); c.close(rv.z, expect, 0.01 * std::fabs(delta) + 0.5 * std::fabs(delta * delta * delta) + 1e-5, "heading change"); c.close(std::hypot(rv.x, rv.y), 0, 1e-3 * std::fabs(delta) + 1e-5, "tilt change");
}
int main(int argc, char **argv) { return pbt::run("E08", "case = attitude, covariance, heading source (magnetometer, vision, none, antenna pair), measurement, gate, flight phase; non-trivial when the innovation is not zero or fusion must be refused", argc, argv); }
