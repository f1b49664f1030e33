// LIB: EKF/utils.cpp
// FLAGS: -O1 -fsanitize=address,undefined -fno-sanitize-recover=undefined
#include "pbt.hpp"
#include "dmath.hpp"
#include <ecl.h>
#include <mathlib/mathlib.h>
#include <EKF/utils.hpp>

static Q4 genAtt(pbt::Ctx &c)
{
	switch (c.g.below(5)) {
	case 0: { Q4 q{c.g.gauss(), c.g.gauss(), c.g.gauss(), c.g.gauss()}; if (qnorm(q) < 1e-3) { q = {1, 0, 0, 0}; } return qnormalize(q); }
	case 1: c.cls("steep pitch"); return qeuler(c.g.sym(M_PI), (c.g.below(2) ? 1 : -1) * (M_PI / 2 - c.g.logu(1e-5, 0.3)), c.g.sym(M_PI));
	case 2: { c.cls("steep roll"); const Q4 y = qfromrotvec({0, 0, c.g.sym(M_PI)}), x = qfromrotvec({(c.g.below(2) ? 1 : -1) * (M_PI / 2 - c.g.logu(1e-5, 0.3)), 0, 0}), p = qfromrotvec({0, c.g.sym(M_PI), 0}); return qmul(qmul(y, x), p); }
	case 3: c.cls("multiples of 45 deg"); return qeuler(M_PI / 4 * c.g.range(-4, 4), M_PI / 4 * c.g.range(-2, 2), M_PI / 4 * c.g.range(-4, 4));
	default: return qeuler(c.g.sym(0.6), c.g.sym(0.6), c.g.sym(M_PI));
	}
}
static matrix::Quatf F(Q4 q) { return matrix::Quatf((float)q.w, (float)q.x, (float)q.y, (float)q.z); }
// float body-to-earth matrix rounded from the double one
static matrix::Dcmf R(Q4 q) { matrix::Dcmf m; for (int j = 0; j < 3; j++) { D3 e{0, 0, 0}; e[j] = 1; const D3 col = qrot(q, e); for (int i = 0; i < 3; i++) { m(i, j) = (float)col[i]; } } return m; }
static void desc(pbt::Ctx &c, Q4 q) { c.note("q (%.7g %.7g %.7g %.7g)", q.w, q.x, q.y, q.z); }
static double hyp(double a, double b) { return std::sqrt(a * a + b * b); }

LAW(yaw_extraction, 400000, 8000000)
{
	const Q4 q0 = genAtt(c); desc(c, q0); const matrix::Quatf qf = F(q0); const Q4 q{qf(0), qf(1), qf(2), qf(3)}; const matrix::Dcmf m = R(q0);
	const D3 bx = qrot(q0, {1, 0, 0}), by = qrot(q0, {0, 1, 0});
	// conditioning: length of the projected axis
	const double c321 = hyp(bx.x, bx.y), c312 = hyp(by.x, by.y);
	if (c321 > 1e-3) { c.nontrivial(); c.close(wrapd(getEuler321Yaw(qf) - yaw321(q)), 0, 1e-6 / c321 + 4e-7, "3-2-1 yaw of quaternion"); c.close(wrapd(getEuler321Yaw(m) - yaw321(q0)), 0, 3e-7 / c321 + 4e-7, "3-2-1 yaw of matrix"); }
	if (c312 > 1e-3) { c.nontrivial(); c.close(wrapd(getEuler312Yaw(qf) - yaw312(q)), 0, 1e-6 / c312 + 4e-7, "3-1-2 yaw of quaternion"); c.close(wrapd(getEuler312Yaw(m) - yaw312(q0)), 0, 3e-7 / c312 + 4e-7, "3-1-2 yaw of matrix"); }
	const bool use321 = shouldUse321RotationSequence(m);
	const double sing = use321 ? std::fabs((double)m(2, 0)) : std::fabs((double)m(2, 1));
	PBT_CHECK(c, sing < 0.70711, "sequence %s chosen although its singular component is %.6g", use321 ? "321" : "312", sing);
	const double a = std::fabs((double)m(2, 0)), b = std::fabs((double)m(2, 1));
	if (std::fabs(a - b) > 1e-6) { PBT_CHECK(c, use321 == (a < b), "sequence choice does not follow the larger tilt (pitch %.6g roll %.6g)", a, b); }
	c.cls(use321, "321 chosen"); c.cls(!use321, "312 chosen");
}
static void checkUpdated(pbt::Ctx &c, const matrix::Dcmf &m, const matrix::Dcmf &u, double yaw, bool seq321, double cond)
{
	const double tol = 3e-6 / cond;
	for (int j = 0; j < 3; j++) { c.close(u(2, j), m(2, j), tol, "tilt (third row)"); }
	const double got = seq321 ? std::atan2((double)u(1, 0), (double)u(0, 0)) : std::atan2(-(double)u(0, 1), (double)u(1, 1));
	c.close(wrapd(got - yaw), 0, tol, "requested yaw");
	for (int i = 0; i < 3; i++) for (int j = i; j < 3; j++) { double s = 0; for (int k = 0; k < 3; k++) { s += (double)u(i, k) * u(j, k); } c.close(s, i == j, 2e-6, "orthonormality"); }
	const double det = u(0, 0) * ((double)u(1, 1) * u(2, 2) - (double)u(1, 2) * u(2, 1)) - u(0, 1) * ((double)u(1, 0) * u(2, 2) - (double)u(1, 2) * u(2, 0)) + u(0, 2) * ((double)u(1, 0) * u(2, 1) - (double)u(1, 1) * u(2, 0));
	c.close(det, 1, 3e-6, "proper rotation");
}
LAW(set_yaw, 300000, 6000000)
{
	const Q4 q = genAtt(c); desc(c, q); const matrix::Dcmf m = R(q); const float yaw = (float)(c.g.below(5) ? c.g.sym(M_PI) : c.g.range(-2, 2) * M_PI / 2); c.note("yaw %.7g", yaw); c.nontrivial();
	const double c321 = std::sqrt(std::max(0.0, 1 - (double)m(2, 0) * m(2, 0))), c312 = std::sqrt(std::max(0.0, 1 - (double)m(2, 1) * m(2, 1)));
	if (c321 > 0.02) { checkUpdated(c, m, updateEuler321YawInRotMat(yaw, m), yaw, true, c321); }
	if (c312 > 0.02) { checkUpdated(c, m, updateEuler312YawInRotMat(yaw, m), yaw, false, c312); }
	const bool s = std::fabs((double)m(2, 0)) < std::fabs((double)m(2, 1)); const double d = std::fabs(std::fabs((double)m(2, 0)) - std::fabs((double)m(2, 1)));
	if (d > 1e-6) { checkUpdated(c, m, updateYawInRotMat(yaw, m), yaw, s, 0.7); }
}
LAW(matrices, 300000, 6000000)
{
	const Q4 q0 = genAtt(c); desc(c, q0); const matrix::Quatf qf = F(q0); const Q4 q{qf(0), qf(1), qf(2), qf(3)}; c.nontrivial();
	const matrix::Dcmf inv = quatToInverseRotMat(qf);
	for (int j = 0; j < 3; j++) { D3 e{0, 0, 0}; e[j] = 1; const D3 col = qrotInv(q, e); for (int i = 0; i < 3; i++) { c.close(inv(i, j), col[i], 1e-6, "inverse rotation matrix"); } }
	const float y = (float)c.g.sym(M_PI), r = (float)c.g.sym(M_PI), p = (float)c.g.sym(M_PI); c.note("312 angles %g %g %g", y, r, p);
	const matrix::Dcmf t = taitBryan312ToRotMat(matrix::Vector3f(y, r, p)); const Q4 w = qmul(qmul(qfromrotvec({0, 0, y}), qfromrotvec({r, 0, 0})), qfromrotvec({0, p, 0}));
	for (int j = 0; j < 3; j++) { D3 e{0, 0, 0}; e[j] = 1; const D3 col = qrot(w, e); for (int i = 0; i < 3; i++) { c.close(t(i, j), col[i], 1e-6, "rotation matrix of 3-1-2 angles"); } }
}
LAW(scalars, 300000, 6000000)
{
	const float x = (float)(c.g.below(8) ? c.g.signedLog(1e-3, 1e3) : c.g.pick<double>({0, 1, -1})); const int e = (int)c.g.range(-12, 12); c.note("x %g exp %d", x, e); c.nontrivial(e != 0 && e != 1);
	if (!(x == 0 && e < 0)) { const double w = std::pow((double)x, e); if (std::fabs(w) < 1e37 && std::fabs(w) > 1e-30) { c.close(ecl::powf(x, e), w, 3e-7 * (std::abs(e) + 1) * std::fabs(w), "integer power"); } else if (w == 0) { PBT_CHECK(c, ecl::powf(x, e) == 0, "power of zero"); } }
	c.close(sq(x), (double)x * x, 2e-7 * (double)x * x, "square");
	const float a = (float)c.g.sym(100), b = (float)c.g.sym(100), v = (float)(c.g.below(4) ? c.g.sym(150) : (c.g.below(2) ? a : b)); const float lo = std::fmin(a, b), hi = std::fmax(a, b);
	PBT_CHECK(c, math::constrain(v, lo, hi) == (v < lo ? lo : v > hi ? hi : v), "constrain(%g, %g, %g) = %g", v, lo, hi, math::constrain(v, lo, hi));
	PBT_CHECK(c, math::min(a, b) == lo && math::max(a, b) == hi, "min/max of %g %g", a, b);
	const int ia = (int)c.g.range(-100, 100), ib = (int)c.g.range(-100, 100), iv = (int)c.g.range(-150, 150); const int il = std::min(ia, ib), ih = std::max(ia, ib);
	PBT_CHECK(c, math::min(ia, ib) == il && math::max(ia, ib) == ih && math::constrain(iv, il, ih) == std::max(il, std::min(iv, ih)), "integer min/max/constrain");
	const double d = c.g.sym(1000); c.close(math::radians(d), d * M_PI / 180, 1e-15 * std::fabs(d), "radians"); c.close(math::degrees(d), d * 180 / M_PI, 1e-13 * std::fabs(d), "degrees");
	c.close(math::radians((float)d), (float)d * M_PI / 180, 4e-7 * std::fabs(d), "radians float"); c.close(math::degrees((float)d), (float)d * 180 / M_PI, 3e-5 * std::fabs(d), "degrees float");
}
// compensated summation: after any number of additions the error does not grow with their number
LAW(kahan, 40000, 800000)
{
	// Kahan: |error| <= (2u + O(n u^2)) sum|x|, u = 2^-24, independent of the number of terms
	const int n = 1 + (int)c.g.below(c.g.chance(0.1) ? 8000 : 400); double exact = 0, mag = 0; float sum = (float)(c.g.below(2) ? 0 : c.g.sym(1000)), acc = 0; exact = sum; mag = std::fabs(exact);
	const double s = c.g.logu(1e-6, 1e2); pbt::Noise nz(c.g.seed()); const bool pos = c.g.below(2);
	for (int i = 0; i < n; i++) { const float x = (float)(s * (pos ? nz.uni() : nz.tri())); sum = kahanSummation(sum, x, acc); exact += x; mag += std::fabs(x); }
	c.note("%d terms of size %g", n, s); c.nontrivial(n > 20);
	c.close(sum, exact, 2.0e-7 * mag, "compensated sum");
}
int main(int argc, char **argv) { return pbt::run("U04", "case = attitude (uniform, near either gimbal lock, multiples of 45 degrees) with a requested yaw, or scalar arguments, or a summation sequence; non-trivial when the quantity is well defined there", argc, argv); }
