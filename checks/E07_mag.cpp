// LIB: EKF geo/geo.cpp geo_lookup/geo_mag_declination.cpp
// TECHNIQUE: property-based testing: generated states and covariances, differential against a double-precision Kalman update
#include "ekf_box.hpp"

static void limitDecl(const DeclLimit &d, Ref &r)
{
	double h = std::hypot(r.x[16], r.x[17]); const double t = std::max(r.tx[16], r.tx[17]) + 4 * EPSF * h;
	if (std::fabs(h - d.hmin) < 2 * t || std::fabs(h - 0.001 * d.hmin) < 2 * t) { r.closeCall = true; }
	if (h < d.hmin) {
		const double s = d.hmin / h; if (h > 0.001 * d.hmin) { r.x[16] *= s; r.x[17] *= s; r.tx[16] = r.tx[17] = (t + 8 * EPSF * h) * s; }
		else { const double a = declOf(d, r); r.x[16] = 2 * d.hmin * std::cos(a); r.x[17] = 2 * d.hmin * std::sin(a); r.tx[16] = r.tx[17] = d.hmin * (8 * EPSF + (d.own ? t / h : 0)); }
		h = d.hmin;
	}
	const double a = std::atan2(r.x[17], r.x[16]), off = wrapd(a - d.ref), ta = std::max(r.tx[16], r.tx[17]) / h + 8 * EPSF;
	if (std::fabs(std::fabs(off) - 0.5) < 2 * ta + 2e-6 || std::fabs(off) > M_PI - 1e-4) { r.closeCall = true; }
	if (std::fabs(off) > 0.5) { const double m = d.ref + (off > 0 ? 0.5 : -0.5); r.x[16] = h * std::cos(m); r.x[17] = h * std::sin(m); r.tx[16] = r.tx[17] = t * 1.5 + 12 * EPSF * h; }
}
LAW(three_axis, 360000, 2000000)
{
	Box b = genBox(c, 1); Ekf &e = *b.e; Ref r = b.r0; const DeclLimit d = setDecl(c, b);
	const bool synth = c.g.below(3) == 0, all = c.g.below(4) != 0; e._control_status.flags.synthetic_mag_z = synth;
	if (!all) { e._flt_mag_align_start_time = e._imu_sample_delayed.time_us - c.g.below(4900000); }
	b.par->mag_noise = (float)c.g.logu(0.005, 0.3); b.par->mag_innov_gate = (float)c.g.logu(0.5, 8); const double R = (double)b.par->mag_noise * b.par->mag_noise, gate = std::max(1.0, (double)b.par->mag_innov_gate);
	const bool swap = c.g.below(8) == 0; if (swap) { e._innov_check_fail_status.value = 0xffff; } const uint16_t st0 = e._innov_check_fail_status.value;
	auto model = [](const double *x, int a) { const D3 m = toBody(x, {x[16], x[17], x[18]}); return (a == 0 ? m.x : a == 1 ? m.y : m.z) + x[19 + a]; };
	const double B = std::sqrt(r.x[16] * r.x[16] + r.x[17] * r.x[17] + r.x[18] * r.x[18]), bb = 0.2;
	double S[3], innov[3], ratio[3], eI = 12 * EPSF * (B + bb); bool pass = true; int failed = 0;
	auto setHs = [&](double *hs, int a) { for (int i = 0; i < NX; i++) { hs[i] = 0; } double tq = 0, tb = 0; for (int i = 0; i < 4; i++) { tq = std::max(tq, r.tx[i]); } for (int i = 16; i < 19; i++) { tb = std::max(tb, r.tx[i]); }
		for (int i = 0; i < 4; i++) { hs[i] = 2 * B + (2 * B * tq + 4 * tb) / (r.c * EPSF); } for (int i = 16; i < 19; i++) { hs[i] = 1 + 4 * tq / (r.c * EPSF); } hs[19 + a] = 1; };
	const double f = c.g.pick<double>({0.3, 0.8, 0.9, 1.3, 5});
	for (int a = 0; a < 3; a++) {
		double H[NX], hs[NX]; jacobian([&](const double *x) { return model(x, a); }, r.x, H); setHs(hs, a); r.innovVar(H, hs, R); S[a] = r.S; if (r.ill()) { c.discard(); return; }
		const double want = c.g.sym(f) * gate * std::sqrt(S[a]); e._mag_sample_delayed.mag(a) = (float)(model(r.x, a) - want); innov[a] = model(r.x, a) - e._mag_sample_delayed.mag(a);
		if (a == 2 && synth) { innov[a] = 0; }
		ratio[a] = innov[a] * innov[a] / (gate * gate * S[a]); if (std::fabs(std::sqrt(ratio[a]) - 1) < 1e-3 + eI / (gate * std::sqrt(S[a])) + r.eS / r.S) { c.discard(); return; }
		if (ratio[a] > 1) { pass = false; failed |= 1 << a; }
	}
	c.note("R %g gate %g innov %g %g %g ratio %g %g %g, synthetic z %d, all states %d", R, gate, innov[0], innov[1], innov[2], ratio[0], ratio[1], ratio[2], synth, all);
	double SU[3] = {S[0], S[1], S[2]}; // as reported: y and z are recomputed during the sequential update
	double eSU[3]; for (int a = 0; a < 3; a++) { eSU[a] = 0; }
	Ref r1 = r;
	if (pass) {
		for (int a = 0; a < 3; a++) {
			if (a == 2 && synth) { continue; }
			double H[NX], hs[NX]; jacobian([&](const double *x) { return model(x, a); }, r.x, H); setHs(hs, a); r.innovVar(H, hs, R); SU[a] = r.S; if (r.ill()) { c.discard(); return; } eSU[a] = r.eS;
			if (r.eS > 1e-3 * r.S) { c.cls("skip: ill-conditioned"); c.discard(); return; }
			r.update(H, hs, innov[a], eI, all ? Ref::all() : 0x3f0000u); limitDecl(d, r);
		}
		if (r.closeCall) { c.cls("skip: tie"); c.discard(); return; }
	}
	c.nontrivial(true);
	e.fuseMag();
	matrix::Vector3f gi, gv; float gr = 0; e.getMagInnov(&gi(0)); e.getMagInnovVar(&gv(0)); e.getMagInnovRatio(gr);
	for (int a = 0; a < 3; a++) {
		c.close(gi(a), innov[a], eI + 4 * EPSF * std::fabs(innov[a]), "innovation"); double H[NX], hs[NX]; jacobian([&](const double *x) { return model(x, a); }, r1.x, H); for (int i = 0; i < NX; i++) { hs[i] = i < 4 ? 2 * B : (i >= 16 && i < 22) ? 1 : 0; }
		Ref t = r1; t.innovVar(H, hs, R); c.close(gv(a), SU[a], t.eS + eSU[a], "innovation variance");
	}
	const double mx = std::max(ratio[0], std::max(ratio[1], ratio[2])); c.close(gr, mx, 2e-3 * mx + 2 * std::sqrt(mx) * eI / std::sqrt(R) + 1e-9, "test ratio");
	for (int a = 0; a < 3; a++) { PBT_CHECK(c, bool((e._innov_check_fail_status.value >> (4 + a)) & 1) == bool((failed >> a) & 1) , "axis %d rejection flag is %d, test ratio %g", a, (e._innov_check_fail_status.value >> (4 + a)) & 1, ratio[a]); }
	PBT_CHECK(c, (e._innov_check_fail_status.value & ~0x70) == (st0 & ~0x70), "other rejection flags changed: %x to %x", st0, e._innov_check_fail_status.value);
	if (!pass) { c.cls("rejected"); same(c, e, b.r0, "rejected"); return; }
	c.cls(all ? "all states" : "field states only"); compare(c, e, r, "three-axis fusion");
}
LAW(declination, 360000, 2000000)
{
	Box b = genBox(c, 1); Ekf &e = *b.e; Ref r = b.r0; const DeclLimit d = setDecl(c, b);
	const float sig = c.g.pick<float>({0.02f, 0.5f}); const double R = double(sig) * sig;
	const double n = r.x[16], ea = r.x[17], h2 = n * n + ea * ea;
	if (std::fabs(n) < 0.02 || h2 < 0.004) { c.discard(); return; }
	double H[NX], hs[NX] = {}; jacobian([&](const double *x) { return std::atan2(x[17] * n - x[16] * ea, x[16] * n + x[17] * ea); }, r.x, H);
	// the float expression divides by powers of the north component; its rounding grows with the declination
	const double grow = 1 + (ea / n) * (ea / n); hs[16] = hs[17] = 4 * grow / std::sqrt(h2);
	r.innovVar(H, hs, R); if (r.eS > 2e-2 * r.S || r.ill()) { c.discard(); return; }
	const double decl = declOf(d, r), raw = wrapd(std::atan2(ea, n) - decl), innov = std::max(-0.5, std::min(0.5, raw));
	if (std::fabs(raw) > M_PI - 1e-4) { c.discard(); return; }
	r.update(H, hs, innov, 6e-7, Ref::all()); limitDecl(d, r); if (r.closeCall) { c.cls("skip: tie"); c.discard(); return; }
	c.note("sigma %g innovation %g field %.9g %.9g H %.9g %.9g P %.9g %.9g %.9g", sig, innov, n, ea, H[16], H[17], b.r0.P[16][16], b.r0.P[17][17], b.r0.P[16][17]); c.nontrivial(innov != 0 || d.own);
	e.fuseDeclination(sig);
	compare(c, e, r, "declination fusion");
}
LAW(limit, 600000, 3000000)
{
	Box b = genBox(c, 1); Ekf &e = *b.e; Ref r = b.r0; const DeclLimit d = setDecl(c, b);
	if (c.g.below(3) == 0) { const double f = c.g.logu(1e-5, 0.3); e._state.mag_I(0) = (float)(r.x[16] * f); e._state.mag_I(1) = (float)(r.x[17] * f); getState(e, r.x); }
	Ref r1 = r; limitDecl(d, r); if (r.closeCall || std::hypot(r.x[16], r.x[17]) < 1e-4) { c.discard(); return; }
	c.nontrivial(r.x[16] != r1.x[16] || r.x[17] != r1.x[17]); c.note("field %g %g", r1.x[16], r1.x[17]);
	e.limitDeclination();
	for (int i = 0; i < NX; i++) { r.tx[i] += 2e-7 * std::fabs(r.x[i]) + (i == 16 || i == 17 ? 4e-7 * std::hypot(r.x[16], r.x[17]) : 0); }
	compare(c, e, r, "declination limit");
}
int main(int argc, char **argv) { return pbt::run("E07", "case = estimator state with magnetic field states, covariance (random correlations up to 0.99), measurement, noise, gate and declination reference; non-trivial when the gate decision is not a rounding tie", argc, argv); }
