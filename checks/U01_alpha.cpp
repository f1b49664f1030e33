// FLAGS: -O1 -fsanitize=address,undefined -fno-sanitize-recover=undefined
#include "pbt.hpp"
#include <matrix/math.hpp>
#include <AlphaFilter/AlphaFilter.hpp>

template <class T> struct Tr;
template <> struct Tr<float> { static const int N = 1; static float get(const float &v, int) { return v; } static float make(const double *d) { return (float)d[0]; } };
template <> struct Tr<matrix::Vector2f> { static const int N = 2; static float get(const matrix::Vector2f &v, int i) { return v(i); } static matrix::Vector2f make(const double *d) { return matrix::Vector2f((float)d[0], (float)d[1]); } };
template <> struct Tr<matrix::Vector3f> { static const int N = 3; static float get(const matrix::Vector3f &v, int i) { return v(i); } static matrix::Vector3f make(const double *d) { return matrix::Vector3f((float)d[0], (float)d[1], (float)d[2]); } };

template <class T> static void history(pbt::Ctx &c)
{
	typedef Tr<T> R; const int N = R::N;
	double a = 0; const bool ctor = c.g.below(2); if (ctor) { a = c.g.unit(); }
	AlphaFilter<T> f = ctor ? AlphaFilter<T>((float)a) : AlphaFilter<T>();
	a = (float)a;
	double s[3] = {0, 0, 0}, err[3] = {0, 0, 0}, v[3];
	const double scale = c.g.logu(1e-3, 1e6);
	const int n = 1 + (int)c.g.below(60); int updates = 0;
	for (int k = 0; k < n; k++) {
		const int op = (int)c.g.below(10);
		if (op == 0) { a = (float)(c.g.below(5) ? c.g.unit() : (double)c.g.below(2)); f.setAlpha((float)a); c.cls("setAlpha"); c.note("alpha %g", a); }
		else if (op == 1) {
			const float dt = c.g.below(8) ? (float)c.g.logu(1e-4, 1e7) : 0.f, tc = c.g.below(8) ? (float)c.g.logu(1e-4, 1e7) : (c.g.below(2) ? 0.f : -dt);
			f.setParameters(dt, tc); c.note("dt %g tc %g", dt, tc);
			const float den = tc + dt; if (den > FLT_EPSILON) { a = (double)dt / ((double)tc + dt); c.cls("setParameters"); } else { c.cls("refused parameters"); }
		}
		else if (op == 2) { for (int i = 0; i < N; i++) { v[i] = c.g.sym(scale); } T x = R::make(v); f.reset(x); for (int i = 0; i < N; i++) { s[i] = R::get(x, i); err[i] = 0; } c.cls("reset"); c.note("reset %g", s[0]); }
		else {
			for (int i = 0; i < N; i++) { v[i] = c.g.below(4) ? c.g.sym(scale) : s[i]; }
			const T x = R::make(v); const T before = f.getState(); const T ret = f.update(x); const T st = f.getState(); updates++;
			c.note("update %g -> %g", (double)R::get(x, 0), (double)R::get(st, 0));
			for (int i = 0; i < N; i++) {
				const double xi = R::get(x, i), b = R::get(before, i), g = R::get(st, i), m = std::max(std::fabs(xi), std::fabs(b));
				PBT_CHECK(c, g == R::get(ret, i), "returned %g but state is %g", (double)R::get(ret, i), g);
				const double ulp = 2.5e-7 * m + 1e-37;
				PBT_CHECK(c, g >= std::min(xi, b) - ulp && g <= std::max(xi, b) + ulp, "output %.9g outside [previous %.9g, input %.9g]", g, b, xi);
				s[i] = s[i] + a * (xi - s[i]); err[i] = err[i] * (1 - a) + ulp; // rounding decays with the filter
				c.close(g, s[i], err[i] + 3e-7 * std::fabs(s[i]) + 1e-37, "exponential average");
			}
			c.nontrivial(updates > 1 && a > 0 && a < 1);
		}
		for (int i = 0; i < N; i++) { c.close(R::get(f.getState(), i), s[i], err[i] + 3e-7 * std::fabs(s[i]) + 1e-37, "state"); }
	}
}
LAW(history_scalar, 300000, 3000000) { history<float>(c); }
LAW(history_vector2, 160000, 1500000) { history<matrix::Vector2f>(c); }
LAW(history_vector3, 160000, 1500000) { history<matrix::Vector3f>(c); }
// time response: a constant input is approached monotonically; after k samples the remaining error is (tc/(tc+dt))^k
LAW(step_response, 160000, 1500000)
{
	AlphaFilter<float> f; const float dt = (float)c.g.logu(1e-3, 10), tc = (float)(dt * c.g.logu(0.01, 1000)), x0 = (float)c.g.sym(100), x1 = (float)c.g.sym(100);
	f.setParameters(dt, tc); f.reset(x0); const int n = 1 + (int)c.g.below(200); const double r = (double)tc / ((double)tc + dt); double prev = x0;
	c.note("dt %g tc %g from %g to %g n %d", dt, tc, x0, x1, n); c.nontrivial(std::fabs(x1 - x0) > 0.1);
	for (int k = 1; k <= n; k++) {
		const double y = f.update(x1);
		PBT_CHECK(c, std::fabs(y - x1) <= std::fabs(prev - x1) + 2e-5, "moved away from a constant input: %.9g then %.9g, input %.9g", prev, y, (double)x1); prev = y;
		const double tol = 3e-7 * 100 * std::min((double)k, 1 / (1 - r)) + std::fabs(x1 - x0) * 3e-7 * k * std::pow(r, k) + 1e-6;
		c.close(y - x1, (x0 - (double)x1) * std::pow(r, k), tol, "remaining step error");
	}
}
int main(int argc, char **argv) { return pbt::run("U01", "case = call history (coefficient, time parameters, reset, updates) on a scalar or vector filter, or a step response; non-trivial when at least two updates used a coefficient strictly between 0 and 1", argc, argv); }
