// LIB: EKF geo/geo.cpp geo_lookup/geo_mag_declination.cpp
// TECHNIQUE: model-based property testing: random simulated flights with faults, status, configuration and origin changes; every step of the delayed state and every published sample must be explained by IMU propagation, bounded corrections and the announced resets
#include "ekf_stress.hpp"
#include "output_model.hpp"
using namespace sim;
typedef matrix::Vector<float, 24> Vec;

LAW(announce, 3200, 60000)
{
	Stress s; StressWant w; w.T = 40; w.maxFaults = 8; const char *mode = genStress(c, s, w); c.cls(mode); auto f = std::make_unique<Ekf>(); s.init(*f); OutputModel m; m.N = imuBufferLength(*f->getParamHandle()); const char *d = s.desc.c_str();
	int n = 0, rs = 0; bool lost = false; double svm = 1, spm = 1, wm = 1; ResetCount k0; Vec xp; double sp0[24]; bool have = false; D3 api{0, 0, 0}; auto prev = f->state_reset_status();
	auto same = [&](double t, const char *when) { // a counter that did not move leaves its change alone
		auto &r = f->state_reset_status(); auto eq = [](float a, float b) { return sameWord(a, b); };
		if (r.velNE_counter == prev.velNE_counter) { PBT_CHECK(c, eq(r.velNE_change(0), prev.velNE_change(0)) && eq(r.velNE_change(1), prev.velNE_change(1)), "horizontal velocity change altered without a reset %s at %.3f s [%s]", when, t, d); }
		if (r.velD_counter == prev.velD_counter) { PBT_CHECK(c, eq(r.velD_change, prev.velD_change), "vertical velocity change altered without a reset %s at %.3f s [%s]", when, t, d); }
		if (r.posNE_counter == prev.posNE_counter) { PBT_CHECK(c, eq(r.posNE_change(0), prev.posNE_change(0)) && eq(r.posNE_change(1), prev.posNE_change(1)), "horizontal position change altered without a reset %s at %.3f s [%s]", when, t, d); }
		if (r.posD_counter == prev.posD_counter) { PBT_CHECK(c, eq(r.posD_change, prev.posD_change), "vertical position change altered without a reset %s at %.3f s [%s]", when, t, d); }
		if (r.quat_counter == prev.quat_counter) { for (int i = 0; i < 4; i++) { PBT_CHECK(c, eq(r.quat_change(i), prev.quat_change(i)), "attitude change altered without a reset %s at %.3f s [%s]", when, t, d); } }
		float q[4], a[2], b; uint8_t cnt; f->get_quat_reset(q, &cnt); bool ok = cnt == r.quat_counter; for (int i = 0; i < 4; i++) { ok = ok && eq(q[i], r.quat_change(i)); } f->get_velNE_reset(a, &cnt); ok = ok && cnt == r.velNE_counter && eq(a[0], r.velNE_change(0)) && eq(a[1], r.velNE_change(1)); f->get_velD_reset(&b, &cnt); ok = ok && cnt == r.velD_counter && eq(b, r.velD_change); f->get_posNE_reset(a, &cnt); ok = ok && cnt == r.posNE_counter && eq(a[0], r.posNE_change(0)) && eq(a[1], r.posNE_change(1)); f->get_posD_reset(&b, &cnt); ok = ok && cnt == r.posD_counter && eq(b, r.posD_change);
		PBT_CHECK(c, ok, "the reset getters disagree at %.3f s [%s]", t, d); prev = r;
	};
	for (auto &e : s.events) {
		while (s.nextOp < s.ops.size() && s.ops[s.nextOp].t <= e.t) { // calls: only a new origin moves the estimate, at once and exactly as announced
			const Op &o = s.ops[s.nextOp++]; const Vec x = f->getStateAtFusionHorizonAsVector(); const D3 v = dv(f->getVelocity()), p = dv(f->getPosition()); const Q4 q = dq(f->getQuaternion()); ResetCount a, b; a.read(*f); s.call(*f, o); b.read(*f); const double t = s.sec(o.t); const char *on = opName[o.op];
			same(t, on); auto &r = f->state_reset_status(); const Vec y = f->getStateAtFusionHorizonAsVector(); const D3 dp{b.since(a, 2) ? r.posNE_change(0) : 0., b.since(a, 2) ? r.posNE_change(1) : 0., b.since(a, 3) ? r.posD_change : 0.};
			PBT_CHECK(c, !b.since(a, 0) && !b.since(a, 1) && !b.since(a, 4) && (o.op == 12 || (!b.since(a, 2) && !b.since(a, 3))), "reset announced by %s at %.3f s [%s]", on, t, d); if (m.started) { for (int i = 0; i < 10; i++) { const double ch = i >= 7 ? dp[i - 7] : 0; PBT_CHECK(c, std::fabs(y(i) - x(i) - ch) <= 1e-6 * (1 + std::fabs(x(i)) + std::fabs(y(i))) * (ch != 0), "%s changes state %d by %g, announced %g, at %.3f s [%s]", on, i, y(i) - x(i), ch, t, d); } 
			const D3 ev = dv(f->getVelocity()) - v, ep = dv(f->getPosition()) - p - dp; PBT_CHECK(c, norm(ev) == 0 && norm(ep) <= 1e-6 * (1 + norm(p) + norm(dp)) * (norm(dp) > 0) && norm(rotvec(qmul(dq(f->getQuaternion()), qconj(q)))) < 1e-7, "%s changes the published solution by %g m/s, %g m more than announced at %.3f s [%s]", on, norm(ev), norm(ep), t, d); c.cls(norm(dp) > 1, "origin moved"); }
			for (int i = 0; i < 3; i++) { xp(7 + i) += (float)dp[i]; } api = api + dp; k0 = b;
		}
		const bool step = s.apply(*f, e); if (e.k != IMU) { continue; } const auto &u = s.imu[e.i]; const double t = s.sec(e.t); same(t, "by an update");
		const Vec x = f->getStateAtFusionHorizonAsVector(); auto &C = f->covariances();
		if (!m.started) { if (C(4, 4) <= 0) { continue; } m.start(*f, u); m.rc.read(*f); for (int i = 0; i < 4; i++) { m.rc.n[i] = 0; } k0.read(*f); } 
		ResetCount k; k.read(*f); auto &r = f->state_reset_status();
		if (step && have) {
			auto &del = f->get_imu_sample_delayed(); Q4 q{xp(0), xp(1), xp(2), xp(3)}; const double dt = del.delta_vel_dt; D3 v{xp(4), xp(5), xp(6)}, p{xp(7), xp(8), xp(9)}; const D3 v0 = v;
			q = qmul(q, qfromrotvec(dv(del.delta_ang) - D3{xp(10), xp(11), xp(12)})); v = v + qrot(q, dv(del.delta_vel) - D3{xp(13), xp(14), xp(15)}) + dt * D3{0, 0, 9.80665}; p = p + (0.5 * dt) * (v + v0); for (int i = 0; i < 3; i++) { v[i] = std::max(-1000., std::min(1000., v[i])); p[i] = std::max(-1e6, std::min(1e6, p[i])); }
			if (k.since(k0, 0)) { v = v + D3{r.velNE_change(0), r.velNE_change(1), 0}; } if (k.since(k0, 1)) { v.z += r.velD_change; } if (k.since(k0, 2)) { p = p + D3{r.posNE_change(0) - api.x, r.posNE_change(1) - api.y, 0}; } if (k.since(k0, 3)) { p.z += r.posD_change - api.z; } if (k.since(k0, 4)) { q = qmul(dq(r.quat_change), q); }
			const D3 ea = rotvec(qmul(Q4{x(0), x(1), x(2), x(3)}, qconj(q))), ev = D3{x(4), x(5), x(6)} - v, ep = D3{x(7), x(8), x(9)} - p; double sa = 0; for (int i = 0; i < 4; i++) { sa += sp0[i] * sp0[i]; } sa = 2 * std::sqrt(sa);
			const int fm = f->getParamHandle()->fusion_mode, nsrc = !!(fm & MASK_USE_GPS) + !!(fm & MASK_USE_OF) + !!(fm & MASK_USE_EVPOS) + !!(fm & MASK_USE_EVVEL) + s.sn[AUX].on + (s.sn[ASP].on || f->control_status_flags().fuse_beta);
			const bool any = k.since(k0, 0) || k.since(k0, 1) || k.since(k0, 2) || k.since(k0, 3) || k.since(k0, 4); rs += any; auto aid = [](const filter_control_status_u &cs) { return cs.flags.gps || cs.flags.opt_flow || cs.flags.ev_pos || cs.flags.ev_vel || (cs.flags.fuse_aspd && cs.flags.fuse_beta); };
			const bool aided = aid(f->control_status());
			auto chk = [&](const char *what, double err, double s0, double s1, double change, double mid = 0) { // a correction is a few standard deviations; anything larger has to be announced
				const double ks = !aided ? 120 : any ? 12 : 25, sg = std::max({s0, s1, mid}), tol = ks * sg + (any ? 1.05 + (nsrc > 1 ? .95 + 4 * change : 0) : .3);
				c.worst(std::string(what) + (any ? nsrc > 1 ? " (reset step, several sources)" : " (reset step)" : aided ? "" : " (no aiding)"), err / tol);
				PBT_CHECK(c, err <= tol, "%s estimate moves by %.4g more than propagation and announced resets explain (standard deviation %.3g, after %.3g, resets in this step %d, aided %d, sources %d) at %.3f s [%s]", what, err, s0, s1, any, aided, nsrc, t, d);
			};
			const double ch[] = {k.since(k0, 0) ? std::hypot(r.velNE_change(0), r.velNE_change(1)) : 0, k.since(k0, 1) ? std::fabs(r.velD_change) : 0, k.since(k0, 2) ? std::hypot(r.posNE_change(0), r.posNE_change(1)) : 0, k.since(k0, 3) ? std::fabs(r.posD_change) : 0}; double sb = 0; for (int i = 0; i < 4; i++) { sb += C(i, i); } sb = 2 * std::sqrt(sb);
			chk("attitude", norm(ea), sa, sb, k.since(k0, 4) ? norm(rotvec(dq(r.quat_change))) : 0); for (int i = 0; i < 6; i++) { static const char *const wn[] = {"horizontal velocity", "vertical velocity", "horizontal position", "vertical position"}; const int g = i < 2 ? 0 : i == 2 ? 1 : i < 5 ? 2 : 3; chk(wn[g], std::fabs(i < 3 ? ev[i] : ep[i - 3]), sp0[4 + i], std::sqrt(C(4 + i, 4 + i)), ch[g], g == 1 && k.since(k0, 1) && !f->control_status_flags().gps ? std::sqrt(10.) : i > 2 ? dt * sp0[1 + i] : 0.); /* reset to zero with a variance of 10 before the fusion */ }
		}
		api = {0, 0, 0}; const int ro = m.resets(*f); m.step(*f, u, step); n += step;
		lost = lost || m.track.x > 1.7; // output more than 116 deg away from the estimate (tumbling): the sign of the attitude correction is arbitrary, no comparison from here on
		wm = std::max(wm, norm(dv(u.delta_ang)) / u.delta_ang_dt / 10); const auto q = dq(f->getQuaternion()); const D3 er = rotvec(qmul(q, qconj(m.now.q))), ev = dv(f->getVelocity()) - m.velocity(), ep = dv(f->getPosition()) - m.position(); const double sv = svm = std::max(svm, 1 + norm(m.now.v)), sp = spm = std::max(spm, 1 + norm(m.now.p));
		PBT_CHECK(c, lost || (norm(er) < 1e-3 * wm && norm(ev) < 1e-3 * sv && norm(ep) < 1e-3 * sp), "published solution jumps by %.3g rad, %.3g m/s, %.3g m more than announced (resets %d) at %.3f s [%s]", norm(er), norm(ev), norm(ep), ro, t, d);
		const double vd = std::fabs(f->getVerticalPositionDerivative() - m.vertVel()), vtol = 2e-4 * (sv + sp); if (n >= 50 && !lost && m.N > 1) { c.worst("vertical derivative", vd / vtol); PBT_CHECK(c, vd < vtol, "published vertical position derivative %.5g m/s off (resets %d) at %.3f s [%s]", vd, ro, t, d); }
		if (step) { xp = x; have = true; for (int i = 0; i < 24; i++) { sp0[i] = std::sqrt(C(i, i)); } } k0 = k;
	}
	c.nontrivial(rs > 2); c.cls(rs > 8, "many resets"); c.cls(lost, "published attitude lost");
}
int main(int argc, char **argv) { return pbt::run("E12", "a flight is non-trivial with more than two steps containing resets", argc, argv); }
