// LIB: airdata/WindEstimator.cpp
// TECHNIQUE: model-based property testing: generated call histories and injected states, each call compared with a double-precision Kalman filter of the models
#include <vector>
#include <cstring>
#include <array>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <fstream>
#include <sstream>
#include <functional>
#include <algorithm>
#include <cmath>
#define private public
#include "airdata/WindEstimator.hpp"
#undef private
#include "pbt.hpp"
#include "dmath.hpp"
static const double EPSF = 1.1920929e-7;

// the estimator as documented, in double precision; every call is compared and the state then taken over from the code, so errors do not accumulate
struct Model {
	double x[3]{}, P[3][3]{}, ex[3]{}, eP[3][3]{}, as[3][3]{}; // state, covariance, the rounding allowed in each, and the asymmetry already there
	double innov[2]{}, S[2]{}, eI[2]{}, eS[2]{}; bool init{false}, reset{false}, tie{false};
	uint64_t tFuse[2]{}, tRej[2]{}, tUpd{0};
	double qw{0.1}, qk{1e-4}, r[2]{1.4, 0.5}; int gate[2]{3, 1}; double enforced{-1};
	void load(const WindEstimator &w) { for (int i = 0; i < 3; i++) { x[i] = w._state(i); ex[i] = 0; for (int j = 0; j < 3; j++) { P[i][j] = w._P(i, j); eP[i][j] = as[i][j] = std::fabs((double)w._P(i, j) - w._P(j, i)); } } }
	bool initialise(D3 v, double vn, double ve, double tas)
	{
		const double s2 = v.x * v.x + v.y * v.y, s = std::sqrt(s2); if (std::fabs(s - 3) < 1e-4) { tie = true; } if (s < 3) { return false; }
		x[0] = v.x - tas * v.x / s; x[1] = v.y - tas * v.y / s; x[2] = 1; ex[0] = ex[1] = 16 * EPSF * (s + std::fabs(tas)); ex[2] = 0;
		// wind = velocity - airspeed * direction of velocity
		const double J[2][2] = {{1 - tas * v.y * v.y / (s2 * s), tas * v.x * v.y / (s2 * s)}, {tas * v.x * v.y / (s2 * s), 1 - tas * v.x * v.x / (s2 * s)}}, m = 1 + std::fabs(tas) / s, var[2] = {vn, ve};
		for (int i = 0; i < 3; i++) { for (int j = 0; j < 3; j++) { P[i][j] = 0; eP[i][j] = i < 2 && j < 2 ? 64 * EPSF * m * m * (vn + ve) : 1e-9; if (i < 2 && j < 2) { for (int k = 0; k < 2; k++) { P[i][j] += J[i][k] * var[k] * J[j][k]; } } } }
		P[2][2] = 1e-4; tRej[0] = tRej[1] = 0; reset = true; return true;
	}
	void update(uint64_t t)
	{
		if (!init) { return; } reset = false; if (tUpd == 0) { tUpd = t; return; } if (t - tUpd < 1000000) { return; }
		const double dt = (t - tUpd) * 1e-6; tUpd = t; const double n[3] = {qw, qw, qk}; for (int i = 0; i < 3; i++) { P[i][i] += dt * dt * n[i]; } for (int i = 0; i < 3; i++) { for (int j = 0; j < 3; j++) { eP[i][j] = as[i][j] + 8 * EPSF * std::sqrt(std::fabs(P[i][i] * P[j][j])); } }
	}
	// one scalar update; k: 0 airspeed, 1 sideslip
	void fuse(int k, uint64_t t, D3 v, double reTas, double in, double eIn, const double *H, const double *eH)
	{
		double PH[3] = {}, ePH[3] = {}, s = r[k], es = 4 * EPSF * r[k];
		for (int i = 0; i < 3; i++) { for (int j = 0; j < 3; j++) { PH[i] += P[i][j] * H[j]; ePH[i] += std::fabs(P[i][j]) * (eH[j] + 8 * EPSF * std::fabs(H[j])) + as[i][j] * std::fabs(H[j]); } }
		for (int i = 0; i < 3; i++) { s += H[i] * PH[i]; es += std::fabs(H[i]) * ePH[i] + eH[i] * std::fabs(PH[i]) + 8 * EPSF * std::fabs(H[i] * PH[i]); }
		innov[k] = in; eI[k] = eIn; S[k] = s; eS[k] = es;
		if (std::fabs(s) < 4 * es) { tie = true; return; }
		const double lim = s > 0 ? gate[k] * std::sqrt(s) : 0; const bool bad = in * in > (double)gate[k] * gate[k] * s;
		if (std::fabs(std::fabs(in) - lim) <= 2 * eIn + (es / std::fabs(s) + 8 * EPSF) * lim) { tie = true; return; }
		if (bad) { if (tRej[k] == 0) { tRej[k] = t; } } else { tRej[k] = 0; }
		const bool again = (tRej[k] != 0 && t - tRej[k] > 5000000) || s < 0;
		if (again) { init = initialise(v, 0.1f, 0.1f, reTas); return; }
		if (tRej[k] != 0) { return; }
		double K[3], eK[3]; for (int i = 0; i < 3; i++) { K[i] = PH[i] / s; eK[i] = ePH[i] / s + std::fabs(PH[i]) * es / (s * s) + 4 * EPSF * std::fabs(K[i]); }
		for (int i = 0; i < 3; i++) { x[i] += K[i] * in; ex[i] = 2 * (eK[i] * std::fabs(in) + std::fabs(K[i]) * eIn + 4 * EPSF * (std::fabs(x[i]) + std::fabs(K[i] * in))); }
		for (int i = 0; i < 3; i++) { for (int j = 0; j < 3; j++) { double absKHP = 0; for (int m = 0; m < 3; m++) { absKHP += std::fabs(K[i] * H[m] * P[m][j]); } eP[i][j] = as[i][j] + 2 * (eK[i] * std::fabs(PH[j]) + std::fabs(K[i]) * ePH[j] + 8 * EPSF * (absKHP + std::fabs(P[i][j]))); } }
		for (int i = 0; i < 3; i++) { for (int j = 0; j < 3; j++) { P[i][j] -= K[i] * PH[j]; } }
		for (int i = 0; i < 3; i++) { if (P[i][i] < 2 * eP[i][i]) { tie = true; return; } const double top = i < 2 ? 25.0 : (double)0.1f; if (P[i][i] > top) { P[i][i] = top; } }
		if (enforced >= 0) { x[2] = enforced; ex[2] = 0; } else { x[2] = std::max(0.0, x[2]); }
	}
	void airspeed(uint64_t t, double tas, D3 v, double vn, double ve)
	{
		if (!init) { init = initialise(v, std::max((double)0.01f, vn), std::max((double)0.01f, ve), tas); return; }
		if (t - tFuse[0] < 100000) { return; } tFuse[0] = t;
		const double a = v.x - x[0], b = v.y - x[1], d = std::sqrt(a * a + b * b + v.z * v.z), er = EPSF * (std::fabs(v.x) + std::fabs(v.y) + std::fabs(x[0]) + std::fabs(x[1])), k = std::fabs(x[2]);
		if (d < 1e-2 + 100 * er) { tie = true; return; }
		const double H[3] = {-x[2] * a / d, -x[2] * b / d, d}, eH[3] = {k * (4 * er / d + 8 * EPSF), k * (4 * er / d + 8 * EPSF), 3 * er + 4 * EPSF * d};
		fuse(0, t, v, tas, tas - x[2] * d, k * (3 * er + 6 * EPSF * d) + 2 * EPSF * std::fabs(tas), H, eH);
	}
	void beta(uint64_t t, D3 v, Q4 q)
	{
		if (!init) { init = initialise(v, 0.1f, 0.1f, norm(v)); return; }
		if (t - tFuse[1] < 100000) { return; } tFuse[1] = t;
		const D3 u{v.x - x[0], v.y - x[1], v.z}; const double n = norm(u), eu = EPSF * (12 * n + std::fabs(v.x) + std::fabs(v.y) + std::fabs(x[0]) + std::fabs(x[1]));
		const D3 bx = qrot(q, {1, 0, 0}), by = qrot(q, {0, 1, 0}); const double ux = dot(bx, u), uy = dot(by, u), be = uy / ux;
		if (std::fabs(std::fabs(ux) - 0.1) < 4 * eu) { tie = true; return; } if (std::fabs(ux) < (double)0.1f) { return; }
		const double H[3] = {-(by.x - be * bx.x) / ux, -(by.y - be * bx.y) / ux, 0}, e = 8 * (1 + std::fabs(be)) * (eu / std::fabs(ux) + 4 * EPSF) / std::fabs(ux), eH[3] = {e, e, 0};
		fuse(1, t, v, norm(v), -be, 2 * (1 + std::fabs(be)) * eu / std::fabs(ux) + 4 * EPSF * std::fabs(be), H, eH);
	}
};
static void compare(pbt::Ctx &c, WindEstimator &w, const Model &m, const char *op)
{
	PBT_CHECK(c, w.is_estimate_valid() == m.init, "%s: estimate valid is %d, %d expected", op, w.is_estimate_valid(), m.init);
	PBT_CHECK(c, w.get_wind_estimator_reset() == m.reset, "%s: reset indication is %d, %d expected", op, w.get_wind_estimator_reset(), m.reset);
	float wn[2], wv[2]; w.get_wind(wn); w.get_wind_var(wv); const double got[3] = {wn[0], wn[1], w.get_tas_scale()};
	for (int i = 0; i < 3; i++) { c.close(got[i], m.x[i], m.ex[i] + 1e-12, i < 2 ? "wind" : "airspeed scale"); }
	for (int i = 0; i < 2; i++) { c.close(wv[i], m.P[i][i], m.eP[i][i] + 1e-12, "wind variance"); }
	for (int i = 0; i < 3; i++) { for (int j = 0; j < 3; j++) { c.close(w._P(i, j), m.P[i][j], m.eP[i][j] + 1e-12, "covariance"); } }
	c.close(w.get_tas_innov(), m.innov[0], m.eI[0] + 1e-9, "airspeed innovation"); c.close(w.get_beta_innov(), m.innov[1], m.eI[1] + 1e-9, "sideslip innovation");
	c.close(w.get_tas_innov_var(), m.S[0], m.eS[0] + 1e-9, "airspeed innovation variance"); c.close(w.get_beta_innov_var(), m.S[1], m.eS[1] + 1e-9, "sideslip innovation variance");
}
static void configure(pbt::Ctx &c, WindEstimator &w, Model &m)
{
	auto f = [&](double lo, double hi) { return (float)c.g.logu(lo, hi); };
	if (c.g.below(3)) { const float a = f(1e-3, 1); w.set_wind_p_noise(a); m.qw = (double)a * a; } if (c.g.below(3)) { const float a = f(1e-5, 0.1); w.set_tas_scale_p_noise(a); m.qk = (double)a * a; }
	if (c.g.below(3)) { const float a = f(0.1, 5); w.set_tas_noise(a); m.r[0] = (double)a * a; } if (c.g.below(3)) { const float a = f(0.01, 1); w.set_beta_noise(a); m.r[1] = (double)a * a; }
	if (c.g.below(3)) { const int a = 1 + (int)c.g.below(c.g.below(4) ? 6 : 255); w.set_tas_gate(a); m.gate[0] = a; } if (c.g.below(3)) { const int a = 1 + (int)c.g.below(c.g.below(4) ? 6 : 255); w.set_beta_gate(a); m.gate[1] = a; }
	if (c.g.below(4) == 0) { const float a = (float)c.g.real(0.5, 1.5); w.enforce_airspeed_scale(a); m.enforced = a; if (c.g.below(4) == 0) { w.enforce_airspeed_scale(-1); m.enforced = -1; } }
}
static Q4 normed(matrix::Quatf &q) { q.normalize(); return {q(0), q(1), q(2), q(3)}; }

// one call on an injected state
LAW(step, 2000000, 8000000)
{
	WindEstimator w; Model m; configure(c, w, m);
	m.qw = w._wind_p_var; m.qk = w._tas_scale_p_var; m.r[0] = w._tas_var; m.r[1] = w._beta_var; const uint64_t now = 10000000 + c.g.below(1ull << 40);
	w._initialised = m.init = c.g.below(8) != 0; auto stamp = [&](uint64_t a) { return now - a; };
	w._time_last_airspeed_fuse = m.tFuse[0] = stamp(c.g.pick<uint64_t>({0, 99999, 100000, 100001, c.g.below(5000000)})); w._time_last_beta_fuse = m.tFuse[1] = stamp(c.g.pick<uint64_t>({0, 99999, 100000, 100001, c.g.below(5000000)}));
	w._time_last_update = m.tUpd = c.g.below(6) ? stamp(c.g.pick<uint64_t>({0, 999999, 1000000, 1000001, c.g.below(9000000)})) : 0;
	for (int k = 0; k < 2; k++) { m.tRej[k] = c.g.below(3) ? 0 : stamp(c.g.pick<uint64_t>({4999999, 5000000, 5000001, c.g.below(9000000)})); } w._time_rejected_tas = m.tRej[0]; w._time_rejected_beta = m.tRej[1]; w._wind_estimator_reset = m.reset = c.g.below(2);
	const double sd[3] = {c.g.logu(1e-2, 5), c.g.logu(1e-2, 5), c.g.logu(1e-3, 0.3)}; double A[3][3]; for (auto &row : A) { for (auto &a : row) { a = c.g.sym(1); } }
	for (int i = 0; i < 3; i++) { for (int j = 0; j <= i; j++) { double s = i == j ? 0.05 : 0; for (int k = 0; k < 3; k++) { s += A[i][k] * A[j][k]; } w._P(i, j) = w._P(j, i) = (float)(s * sd[i] * sd[j]); } }
	w._state(0) = (float)c.g.sym(15); w._state(1) = (float)c.g.sym(15); w._state(2) = (float)c.g.real(0.5, 1.5); m.load(w);
	// velocity through the air in body axes, mostly forward
	matrix::Quatf qf((float)c.g.gauss(), (float)c.g.gauss(), (float)c.g.gauss(), (float)c.g.gauss()); if (qf.norm() < 0.1f) { qf = matrix::Quatf(1, 0, 0, 0); }
	if (c.g.below(3)) { const Q4 e = qeuler(c.g.sym(0.6), c.g.sym(0.3), c.g.sym(M_PI)); for (int i = 0; i < 4; i++) { qf(i) = (float)e[i]; } }
	const Q4 q = normed(qf); const D3 air = qrot(q, {c.g.pick<double>({c.g.real(8, 40), c.g.real(0.5, 8), c.g.sym(40)}), c.g.sym(c.g.pick<double>({0, 2, 20})), c.g.sym(5)});
	matrix::Vector3f vf((float)(air.x + m.x[0]), (float)(air.y + m.x[1]), (float)air.z); if (c.g.below(10) == 0) { for (int i = 0; i < 3; i++) { vf(i) = (float)c.g.sym(4); } }
	const D3 v{vf(0), vf(1), vf(2)}; const int op = (int)c.g.below(7);
	if (op < 3) {
		const float vn = (float)c.g.logu(1e-4, 10), ve = (float)c.g.logu(1e-4, 10); const double d = norm(D3{v.x - m.x[0], v.y - m.x[1], v.z}); double sc = std::sqrt(m.r[0] + m.P[2][2] * d * d + m.P[0][0]);
		const float tas = (float)std::max(0.0, m.x[2] * d + m.gate[0] * sc * c.g.pick<double>({0.3, 1, 3}) * c.g.sym(1)); c.note("airspeed %g at velocity %g %g %g", tas, v.x, v.y, v.z);
		const auto f0 = m.tFuse[0], r0 = m.tRej[0]; const bool i0 = m.init; m.airspeed(now, tas, v, vn, ve); w.fuse_airspeed(now, tas, vf, matrix::Vector2f(vn, ve)); if (m.tie) { c.cls("skip: tie"); c.discard(); }
		c.cls(!i0 ? "airspeed: initialise" : f0 == m.tFuse[0] ? "airspeed: too soon" : m.tRej[0] ? "airspeed: rejected" : m.reset && r0 ? "airspeed: initialised again" : "airspeed: fused"); compare(c, w, m, "airspeed");
	} else if (op < 6) {
		c.note("sideslip at velocity %g %g %g q %g %g %g %g", v.x, v.y, v.z, q.w, q.x, q.y, q.z); const auto f0 = m.tFuse[1], r0 = m.tRej[1]; const bool i0 = m.init; m.beta(now, v, q); w.fuse_beta(now, vf, qf); if (m.tie) { c.cls("skip: tie"); c.discard(); }
		c.cls(!i0 ? "sideslip: initialise" : f0 == m.tFuse[1] ? "sideslip: too soon" : m.tRej[1] ? "sideslip: rejected" : m.reset && r0 ? "sideslip: initialised again" : "sideslip: fused"); compare(c, w, m, "sideslip");
	} else { const auto u0 = m.tUpd; m.update(now); w.update(now); c.cls(u0 == m.tUpd ? "prediction: not due" : "prediction"); compare(c, w, m, "prediction"); }
	c.nontrivial();
}
// histories of calls from construction, rates and rejection periods included
LAW(history, 75000, 300000)
{
	WindEstimator w; Model m; configure(c, w, m); m.qw = w._wind_p_var; m.qk = w._tas_scale_p_var; m.r[0] = w._tas_var; m.r[1] = w._beta_var;
	uint64_t t = 1 + c.g.below(1ull << (10 + c.g.below(35))); const int n = (int)c.g.range(5, 120); D3 wind{c.g.sym(10), c.g.sym(10), 0}; double psi = c.g.sym(M_PI), V = c.g.real(5, 30), scale = c.g.real(0.8, 1.2), bad = 0; int fused = 0, rejected = 0, again = 0; const double step = c.g.logu(0.01, 2); compare(c, w, m, "new");
	for (int i = 0; i < n; i++) {
		t += c.g.pick<uint64_t>({0, 1, 99999, 100000, 1000000, (uint64_t)(step * 1e6), (uint64_t)(step * 1e6), (uint64_t)(step * 1e6), c.g.below(6000000)}); psi += c.g.sym(0.5); if (c.g.below(12) == 0) { bad = bad ? 0 : c.g.sym(40); } if (c.g.below(30) == 0) { configure(c, w, m); m.qw = w._wind_p_var; m.qk = w._tas_scale_p_var; m.r[0] = w._tas_var; m.r[1] = w._beta_var; }
		matrix::Quatf qf; const Q4 e = qeuler(c.g.sym(0.4), c.g.sym(0.2), psi); for (int k = 0; k < 4; k++) { qf(k) = (float)e[k]; } const Q4 q = normed(qf); const bool slow = c.g.below(20) == 0;
		const D3 u = qrot(q, {V, bad * 0.5, 0}); matrix::Vector3f vf((float)(u.x + wind.x), (float)(u.y + wind.y), (float)u.z); if (slow) { for (int k = 0; k < 3; k++) { vf(k) = (float)c.g.sym(2); } } const D3 v{vf(0), vf(1), vf(2)};
		const int op = (int)c.g.below(5); const bool i0 = m.init; const auto f0 = m.tFuse[0], f1 = m.tFuse[1];
		if (op < 2) { const float tas = (float)std::max(0.0, V * scale + bad + c.g.sym(1)), vn = (float)c.g.logu(1e-4, 3), ve = (float)c.g.logu(1e-4, 3); m.airspeed(t, tas, v, vn, ve); w.fuse_airspeed(t, tas, vf, matrix::Vector2f(vn, ve)); if (m.tie) { break; } compare(c, w, m, "airspeed"); if (i0 && f0 != m.tFuse[0]) { m.tRej[0] ? rejected++ : m.reset ? again++ : fused++; } }
		else if (op < 4) { m.beta(t, v, q); w.fuse_beta(t, vf, qf); if (m.tie) { break; } compare(c, w, m, "sideslip"); if (i0 && f1 != m.tFuse[1]) { m.tRej[1] ? rejected++ : m.reset ? again++ : fused++; } }
		else { m.update(t); w.update(t); compare(c, w, m, "prediction"); }
		m.load(w);
	}
	c.cls(rejected > 0, "with rejections"); c.cls(again > 0, "with re-initialisation"); c.nontrivial(fused > 3);
}
int main(int a, char **b) { return pbt::run("W01", "a call on a state or history the model could decide (no gate tie); histories with more than three fusions", a, b); }
