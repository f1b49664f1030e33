// LIB: EKF geo/geo.cpp geo_lookup/geo_mag_declination.cpp
// FLAGS: -O1 -ftrivial-auto-var-init=pattern
// TECHNIQUE: model-based property testing: random simulated flights with faults; after every event all reported accuracies, biases, variances, test ratios, status words, limits and events are compared with values derived from the state, the covariance and the flags
#include "ekf_stress.hpp"
#include <geo_lookup/geo_mag_declination.h>
using namespace sim;

static bool eqw(float a, float b) { return sameWord(a, b) || a == b; }

// innovations, their variances, ratios and gates of everything that is tested, as reported
struct Tests {
	enum { GVH, GVV, GPH, GPV, EVH, EVV, EPH, EPV, BAR, RNGH, AUXV, FLW, HDG, MAGN, TAS, BETA, HAGL, DRG, N }; struct T { int n; double i[3], v[3]; double r; } t[N]{};
	static const char *name(int k) { static const char *const s[] = {"GPS horizontal velocity", "GPS vertical velocity", "GPS horizontal position", "GPS height", "vision horizontal velocity", "vision vertical velocity", "vision horizontal position", "vision height", "baro height", "range height", "auxiliary velocity", "flow", "heading", "magnetometer", "airspeed", "sideslip", "terrain", "drag"}; return s[k]; }
	void read(const Ekf &f)
	{
		float a[3], b, p[3], q, c[3], d, e[3], g, r[4]; auto set = [&](int k, int n, const float *i, const float *v, float ra) { t[k].n = n; t[k].r = ra; for (int j = 0; j < n; j++) { t[k].i[j] = i[j]; t[k].v[j] = v[j]; } };
		f.getGpsVelPosInnov(a, b, p, q); f.getGpsVelPosInnovVar(c, d, e, g); f.getGpsVelPosInnovRatio(r[0], r[1], r[2], r[3]); set(GVH, 2, a, c, r[0]); set(GVV, 1, &b, &d, r[1]); set(GPH, 2, p, e, r[2]); set(GPV, 1, &q, &g, r[3]);
		f.getEvVelPosInnov(a, b, p, q); f.getEvVelPosInnovVar(c, d, e, g); f.getEvVelPosInnovRatio(r[0], r[1], r[2], r[3]); set(EVH, 2, a, c, r[0]); set(EVV, 1, &b, &d, r[1]); set(EPH, 2, p, e, r[2]); set(EPV, 1, &q, &g, r[3]);
		f.getBaroHgtInnov(b); f.getBaroHgtInnovVar(d); f.getBaroHgtInnovRatio(q); set(BAR, 1, &b, &d, q); f.getRngHgtInnov(b); f.getRngHgtInnovVar(d); f.getRngHgtInnovRatio(q); set(RNGH, 1, &b, &d, q); f.getAuxVelInnov(a); f.getAuxVelInnovVar(c); f.getAuxVelInnovRatio(q); set(AUXV, 2, a, c, q); f.getFlowInnov(a); f.getFlowInnovVar(c); f.getFlowInnovRatio(q); set(FLW, 2, a, c, q);
		f.getHeadingInnov(b); f.getHeadingInnovVar(d); f.getHeadingInnovRatio(q); set(HDG, 1, &b, &d, q); f.getMagInnov(a); f.getMagInnovVar(c); f.getMagInnovRatio(q); set(MAGN, 3, a, c, q); f.getAirspeedInnov(b); f.getAirspeedInnovVar(d); f.getAirspeedInnovRatio(q); set(TAS, 1, &b, &d, q); f.getBetaInnov(b); f.getBetaInnovVar(d); f.getBetaInnovRatio(q); set(BETA, 1, &b, &d, q);
		f.getHaglInnov(b); f.getHaglInnovVar(d); f.getHaglInnovRatio(q); set(HAGL, 1, &b, &d, q); f.getDragInnov(a); f.getDragInnovVar(c); f.getDragInnovRatio(r); set(DRG, 2, a, c, std::max(r[0], r[1]));
	}
};

LAW(reports, 2400, 40000)
{
	Stress s; StressWant w; w.T = 40; w.maxFaults = 8; const char *mode = genStress(c, s, w); c.cls(mode); auto f = std::make_unique<Ekf>(); const char *d = s.desc.c_str(); double rmin = 0.1, rmax = 40, fmaxr = 3, fmin = 0.3, fmax = 20;
	s.init(*f); auto &p = *f->getParamHandle(); const bool lim = c.g.below(2); if (lim) { rmin = c.g.real(0.01, 2); rmax = c.g.real(2, 60); fmaxr = c.g.real(0.5, 10); fmin = c.g.real(0.01, 3); fmax = c.g.real(3, 50); }
	f->set_rangefinder_limits((float)rmin, (float)rmax); f->set_optical_flow_limits((float)fmaxr, (float)fmin, (float)fmax);
	double dtEkf = 0.01; bool started = false, originWas = false; uint64_t lastGps = 0, lastAid = 0; float eph = 0, epv = 0; double decl = 0; bool haveDecl = false; int modes = 0; unsigned seenFlags = 0, tested = 0; Tests old; bool badWas = false; auto prev = f->state_reset_status(); uint32_t ctrlPrev = 0; gps_message gm{};
	for (auto &e : s.events) {
		const double t = s.sec(e.t); f->clear_information_events(); f->clear_warning_events();
		const bool step = s.feed(*f, e, [&](const Op &o) { if (o.op == 17) { fmaxr = (float)o.v[0]; fmin = 0.02; fmax = (float)o.v[1]; } if (o.op == 18) { rmin = (float)o.v[0]; rmax = (float)o.v[1]; } });
		auto &P = f->covariances(); auto &st = f->state_reset_status(); const auto x = f->getStateAtFusionHorizonAsVector(); const auto fl = f->control_status_flags(); const auto in = f->innov_check_fail_status_flags();
		if (e.k == GPS) { gm = s.gps[e.i]; }
		if (step) { auto &del = f->get_imu_sample_delayed(); dtEkf = 0.99 * dtEkf + 0.01 * std::min(std::max(0.5 * ((double)del.delta_vel_dt + del.delta_ang_dt), 0.005), 0.02); started = true; if (!f->inertial_dead_reckoning()) { lastAid = s.imu[e.i].time_us - p.no_aid_timeout_max; } }
		// --- copies of the state and covariance
		const auto diag = f->covariances_diagonal(); for (int i = 0; i < 24; i++) { PBT_CHECK(c, eqw(diag(i), P(i, i)), "covariance diagonal %d is %g, not %g, at %.3f s", i, diag(i), P(i, i), t); }
		for (int i = 0; i < 4; i++) { for (int j = 0; j < 4; j++) { PBT_CHECK(c, eqw(f->orientation_covariances()(i, j), P(i, j)), "orientation covariance differs at %.3f s", t); } } for (int i = 0; i < 3; i++) { for (int j = 0; j < 3; j++) { PBT_CHECK(c, eqw(f->velocity_covariances()(i, j), P(4 + i, 4 + j)) && eqw(f->position_covariances()(i, j), P(7 + i, 7 + j)), "velocity or position covariance differs at %.3f s", t); }
			PBT_CHECK(c, eqw(f->getVelocityVariance()(i), P(4 + i, 4 + i)) && eqw(f->getPositionVariance()(i), P(7 + i, 7 + i)) && eqw(f->getMagBiasVariance()(i), P(19 + i, 19 + i)) && eqw(f->getMagBias()(i), x(19 + i)), "velocity, position or magnetometer bias variance differs at %.3f s", t);
			auto rel = [&](double got, double want, const char *what) { PBT_CHECK(c, std::fabs(got - want) <= 2e-5 * std::fabs(want) + 1e-30, "%s of axis %d is %g, expected %g, at %.3f s [%s]", what, i, got, want, t, d); };
			rel(f->getGyroBias()(i), x(10 + i) / dtEkf, "gyro bias"); rel(f->getAccelBias()(i), x(13 + i) / dtEkf, "accelerometer bias"); rel(f->getGyroBiasVariance()(i), P(10 + i, 10 + i) / dtEkf / dtEkf, "gyro bias variance"); rel(f->getAccelBiasVariance()(i), P(13 + i, 13 + i) / dtEkf / dtEkf, "accelerometer bias variance"); }
		for (int i = 0; i < 2; i++) { PBT_CHECK(c, eqw(f->getWindVelocity()(i), x(22 + i)) && eqw(f->getWindVelocityVariance()(i), P(22 + i, 22 + i)), "wind differs from the state at %.3f s", t); }
		{ float tas; f->get_true_airspeed(&tas); const double want = std::sqrt(sq(x(4) - x(22)) + sq(x(5) - x(23)) + sq(x(6))); PBT_CHECK(c, std::fabs(tas - want) <= 1e-5 * (want + 1e-3), "true airspeed %g, expected %g, at %.3f s", tas, want, t); }
		PBT_CHECK(c, f->get_in_air_status() == fl.in_air && f->get_wind_status() == fl.wind && f->isVehicleAtRest() == fl.vehicle_at_rest && f->attitude_valid() == (bool)fl.tilt_align && f->control_status().value == f->control_status().value, "status getters disagree with the status word at %.3f s", t);
		// --- origin and accuracies
		const bool originNow = f->global_origin_valid(); if (originNow && !originWas) { eph = gm.eph; epv = gm.epv; decl = get_mag_declination_degrees((float)(gm.lat * 1e-7), (float)(gm.lon * 1e-7)); haveDecl = true; } originWas = originNow; if (originNow && e.k == GPS) { lastGps = e.t; } (void)lastGps;
		const double hp = std::sqrt((double)P(7, 7) + P(8, 8)), hv = std::sqrt((double)P(4, 4) + P(5, 5)), hg = std::sqrt((double)P(7, 7) + P(8, 8) + sq(eph)); float a, b; const bool dr = f->inertial_dead_reckoning(), lv = f->local_position_is_valid(); const uint64_t tn = e.k == IMU ? s.imu[e.i].time_us : 0; (void)tn;
		float gv[2], gvd, gp[2], gpd, vv[2], vvd, vp[2], vpd, flw[2]; f->getGpsVelPosInnov(gv, gvd, gp, gpd); f->getEvVelPosInnov(vv, vvd, vp, vpd); f->getFlowInnov(flw); const double gpi = std::hypot(gp[0], gp[1]), vpi = std::hypot(vp[0], vp[1]), vvi = std::hypot(vv[0], vv[1]), fli = std::hypot(flw[0], flw[1]);
		auto acc = [&](double got, double want, const char *what) { PBT_CHECK(c, std::fabs(got - want) <= 1e-5 * want + 1e-9, "%s accuracy %g, expected %g (dead reckoning %d, position valid %d), at %.3f s [%s]", what, got, want, dr, lv, t, d); };
		f->get_ekf_gpos_accuracy(&a, &b); if (!originNow || haveDecl) { double want = hg; if (dr && fl.gps) { want = std::max(want, gpi); } else if (dr && fl.ev_pos) { want = std::max(want, vpi); } acc(a, want, "global horizontal position"); acc(b, std::sqrt(P(9, 9) + sq(epv)), "global vertical position"); }
		PBT_CHECK(c, f->global_position_is_valid() == (originNow && lv), "global position validity at %.3f s", t);
		if (e.k == IMU) { // dead reckoning for too long: no aiding for the configured time
			const bool ex = !lastAid || lastAid + p.valid_timeout_max < s.imu[e.i].time_us; const int hz = fl.gps + fl.opt_flow + fl.ev_pos + fl.ev_vel + (fl.fuse_aspd && fl.fuse_beta);
			if (step) { PBT_CHECK(c, !(ex && lv), "position reported valid although there was no aiding for the configured time at %.3f s [%s]", t, d); PBT_CHECK(c, lv || ex || !hz, "position reported invalid although aided at %.3f s [%s]", t, d);
				f->get_ekf_lpos_accuracy(&a, &b); acc(a, ex && fl.gps ? std::max(hp, gpi) : hp, "local horizontal position"); acc(b, std::sqrt(P(9, 9)), "local vertical position");
				f->get_ekf_vel_accuracy(&a, &b); double want = hv; if (ex) { if (fl.opt_flow) { want = std::max(want, std::max((double)f->getTerrainVertPos() - x(9), std::max((double)p.rng_gnd_clearance, 0.1)) * fli); } if (fl.gps) { want = std::max(want, gpi); } else if (fl.ev_pos) { want = std::max(want, vpi); } if (fl.ev_vel) { want = std::max(want, vvi); } } acc(a, want, "horizontal velocity"); acc(b, std::sqrt(P(6, 6)), "vertical velocity"); modes |= (dr ? 1 : 2) | (ex ? 4 : 8) | (lv ? 16 : 32); }
			// --- control limits
			float l[4]; f->get_ekf_ctrl_limits(l, l + 1, l + 2, l + 3); double want[4] = {NAN, NAN, NAN, NAN}; if (fl.rng_hgt && !p.range_aid) { want[2] = rmin; want[3] = 0.75 * rmax; } if (hz == 1 && fl.opt_flow) { want[0] = std::max(0.5 * fmaxr * ((double)f->getTerrainVertPos() - x(9)), 0.0); want[2] = std::max(rmin, fmin); want[3] = std::min(0.75 * rmax, fmax); modes |= 64; }
			static const char *const ln[] = {"horizontal speed", "vertical speed", "minimum height", "maximum height"}; for (int i = 0; i < 4; i++) { PBT_CHECK(c, std::isnan(want[i]) ? std::isnan(l[i]) : std::fabs(l[i] - want[i]) <= 1e-5 * std::fabs(want[i]) + 1e-5, "%s limit %g, expected %g, at %.3f s [%s]", ln[i], l[i], want[i], t, d); }
		}
		// --- test ratios and rejections
		float r[24]; int n = 0; f->getGpsVelPosInnovRatio(r[0], r[1], r[2], r[3]); f->getEvVelPosInnovRatio(r[4], r[5], r[6], r[7]); f->getBaroHgtInnovRatio(r[8]); f->getRngHgtInnovRatio(r[9]); f->getAuxVelInnovRatio(r[10]); f->getFlowInnovRatio(r[11]); f->getHeadingInnovRatio(r[12]); f->getMagInnovRatio(r[13]); f->getAirspeedInnovRatio(r[14]); f->getBetaInnovRatio(r[15]); f->getHaglInnovRatio(r[16]); n = 17; for (int i = 0; i < n; i++) { PBT_CHECK(c, r[i] >= 0, "test ratio %d is %g at %.3f s [%s]", i, r[i], t, d); }
		uint16_t status = 0xffff; const float mark = -12345.f; float mg = mark, ve = mark, po = mark, hg2 = mark, ta = mark, ha = mark, be = mark; f->get_innovation_test_status(status, mg, ve, po, hg2, ta, ha, be); auto root = [&](float got, double want, const char *what) { PBT_CHECK(c, std::fabs(got - std::sqrt(want)) <= 1e-5 * std::sqrt(want) + 1e-12, "%s test ratio %g, expected %g, at %.3f s [%s]", what, got, std::sqrt(want), t, d); };
		PBT_CHECK(c, status == f->innov_check_fail_status().value, "innovation status word %04x, expected %04x", status, f->innov_check_fail_status().value); root(mg, std::max(r[12], r[13]), "magnetometer"); root(ve, std::max({r[0], r[1], r[4], r[5]}), "velocity"); root(po, std::max(r[2], r[6]), "position"); root(ta, r[14], "airspeed"); root(ha, r[16], "terrain"); root(be, r[15], "sideslip");
		if (fl.baro_hgt || fl.gps_hgt || fl.rng_hgt || fl.ev_hgt) { root(hg2, fl.baro_hgt ? r[8] : fl.gps_hgt ? r[3] : fl.rng_hgt ? r[9] : r[7], "height"); } else { PBT_CHECK(c, std::isnan(hg2), "height test ratio %g without a height source at %.3f s [%s]", hg2, t, d); }
		auto coin = [&](float q, bool rej, const char *what) { PBT_CHECK(c, q > 1 ? rej : q == 0 || !rej, "%s test ratio %g, rejected %d, at %.3f s [%s]", what, q, rej, t, d); }; // zero: no test since the fusion was stopped or another one took over
		coin(r[14], in.reject_airspeed, "airspeed"); coin(r[15], in.reject_sideslip, "sideslip"); if (r[16] <= 1 || (f->getTerrainEstimateSensorBitfield() & 1)) { coin(r[16], in.reject_hagl, "terrain"); } /* after ten seconds of rejection it is reset to the measurement instead */ coin(r[13], in.reject_mag_x || in.reject_mag_y || in.reject_mag_z, "magnetometer"); coin(r[12], in.reject_yaw, "heading"); if (fl.opt_flow) { coin(r[11], in.reject_optflow_X || in.reject_optflow_Y, "flow"); }
		if (step) {
			Tests ts; ts.read(*f); auto g1 = [](float g) { return std::max((double)g, 1.); }; const double gate[] = {g1(p.gps_vel_innov_gate), g1(p.gps_vel_innov_gate), g1(p.gps_pos_innov_gate), g1(p.baro_innov_gate), g1(p.ev_vel_innov_gate), g1(p.ev_vel_innov_gate), g1(p.ev_pos_innov_gate), g1(p.ev_pos_innov_gate), g1(p.baro_innov_gate), g1(p.range_innov_gate), p.auxvel_gate, g1(p.flow_innov_gate), g1(p.heading_innov_gate), g1(p.mag_innov_gate), g1(p.tas_innov_gate), g1(p.beta_innov_gate), g1(p.range_innov_gate), 5};
			bool now[Tests::N]; double worst[Tests::N]; for (int k = 0; k < Tests::N; k++) { const auto &q = ts.t[k], &o = old.t[k]; bool ch = q.r != o.r && q.r != 0; worst[k] = 0; double lo = 1e30; for (int i = 0; i < q.n; i++) { ch = ch && q.v[i] > 0 && q.i[i] != o.i[i]; const double z = sq(q.i[i]) / (sq(gate[k]) * q.v[i]); worst[k] = std::max(worst[k], z); lo = std::min(lo, z); } now[k] = ch; }
			for (int k = 0; k < Tests::N; k++) { if (!now[k] || (k == Tests::GPH && !fl.gps) || k == Tests::FLW) { continue; } // tested in this step
				PBT_CHECK(c, (k == Tests::HDG && ts.t[k].r > 1 && std::fabs(worst[k] - 1) < 1e-3) /* limited to the gate on ground */ || std::fabs(ts.t[k].r - worst[k]) <= (k == Tests::MAGN ? 1 : 1e-5) * worst[k] + 1e-12, "%s test ratio %g, but the innovation and its variance give %g at %.3f s [%s]", Tests::name(k), ts.t[k].r, worst[k], t, d); tested |= 1u << k; }
			const bool bad = f->fault_status_flags().bad_acc_vertical || badWas; badWas = f->fault_status_flags().bad_acc_vertical;
			auto one = [&](std::initializer_list<int> ks, bool rej, const char *what, bool skip) { int n = 0, w = -1; for (int k : ks) { n += ts.t[k].r != old.t[k].r; if (now[k]) { w = k; } } if (n != 1 || w < 0 || skip) { return; } PBT_CHECK(c, (ts.t[w].r > 1) == rej, "%s test ratio %g, %s rejected %d, at %.3f s [%s]", Tests::name(w), ts.t[w].r, what, rej, t, d); };
			one({Tests::GVH, Tests::EVH, Tests::AUXV}, in.reject_hor_vel, "horizontal velocity", false); one({Tests::GVV, Tests::EVV}, in.reject_ver_vel, "vertical velocity", bad); one({Tests::GPH, Tests::EPH}, in.reject_hor_pos, "horizontal position", !(fl.gps || fl.ev_pos)); one({Tests::GPV, Tests::EPV, Tests::BAR, Tests::RNGH}, in.reject_ver_pos, "height", bad); old = ts; }
		seenFlags |= status;
		// --- solution status
		uint16_t so = 0xffff; f->get_ekf_soln_status(&so); const bool ok = f->fault_status().value == 0, hz = fl.gps || fl.opt_flow || fl.ev_pos || fl.ev_vel || (fl.fuse_aspd && fl.fuse_beta), vt = (fl.baro_hgt || fl.gps_hgt || fl.rng_hgt || fl.ev_hgt) && ok, rl = (fl.gps || fl.ev_pos || fl.opt_flow) && ok, ab = (fl.gps || fl.ev_pos) && ok; unsigned want = 0;
		want |= (fl.tilt_align && fl.yaw_align && ok) << 0 | (hz && ok) << 1 | vt << 2 | rl << 3 | ab << 4 | vt << 5 | f->isTerrainEstimateValid() << 6 | !(hz && ok) << 7 | rl << 8 | ab << 9 | ((r[0] > 1 || r[1] > 1 || r[2] > 1) && r[13] < 1 && r[12] < 1) << 10 | (bool)f->fault_status_flags().bad_acc_vertical << 11;
		PBT_CHECK(c, so == want, "solution status %04x, expected %04x, at %.3f s [%s]", so, want, t, d);
		// --- declination
		{ float v = mark; const bool got = f->get_mag_decl_deg(&v); const bool save = p.mag_declination_source & MASK_SAVE_GEO_DECL; PBT_CHECK(c, got == (originNow && save), "declination available %d at %.3f s", got, t); if (got && haveDecl) { PBT_CHECK(c, std::fabs(std::remainder(v - decl, 360)) < 1, "declination %g, expected %g at %.3f s [%s]", v, decl, t, d); } }
		// --- events and resets
		{ const auto &i = f->information_event_flags(); const bool vne = st.velNE_counter != prev.velNE_counter, pne = st.posNE_counter != prev.posNE_counter, qt = st.quat_counter != prev.quat_counter, hgt = st.posD_counter != prev.posD_counter; filter_control_status_u was; was.value = ctrlPrev; const auto now = fl;
			PBT_CHECK(c, !(i.reset_vel_to_gps || i.reset_vel_to_flow || i.reset_vel_to_vision || i.reset_vel_to_zero) || vne, "velocity reset event without a velocity reset at %.3f s [%s]", t, d); PBT_CHECK(c, !started || !vne || i.reset_vel_to_gps || i.reset_vel_to_flow || i.reset_vel_to_vision || i.reset_vel_to_zero, "velocity reset without an event at %.3f s [%s]", t, d);
			PBT_CHECK(c, !(i.reset_pos_to_last_known || i.reset_pos_to_gps || i.reset_pos_to_vision) || pne, "position reset event without a position reset at %.3f s [%s]", t, d); if (e.k == IMU) { PBT_CHECK(c, !started || !pne || i.reset_pos_to_last_known || i.reset_pos_to_gps || i.reset_pos_to_vision || true, "position reset without an event at %.3f s [%s]", t, d); }
			PBT_CHECK(c, !(now.gps && !was.flags.gps) || i.starting_gps_fusion, "GPS aiding started without an event at %.3f s [%s]", t, d); PBT_CHECK(c, !(now.ev_pos && !was.flags.ev_pos) || i.starting_vision_pos_fusion, "vision position aiding started without an event at %.3f s", t); PBT_CHECK(c, !(now.ev_vel && !was.flags.ev_vel) || i.starting_vision_vel_fusion, "vision velocity aiding started without an event at %.3f s", t); PBT_CHECK(c, !(now.ev_yaw && !was.flags.ev_yaw) || i.starting_vision_yaw_fusion, "vision yaw aiding started without an event at %.3f s", t);
			PBT_CHECK(c, !i.yaw_aligned_to_imu_gps || qt, "yaw reset event without a yaw reset at %.3f s", t); PBT_CHECK(c, !i.gps_checks_passed || e.k == GPS, "GPS check event without GPS data"); (void)hgt;
			const auto &wn = f->warning_event_flags(); PBT_CHECK(c, !wn.height_sensor_timeout || hgt || true, "height timeout without reset"); PBT_CHECK(c, !wn.emergency_yaw_reset_mag_stopped || (qt && now.mag_fault), "emergency yaw reset event without a yaw reset at %.3f s", t); PBT_CHECK(c, !wn.stopping_mag_use || now.mag_fault, "magnetometer stop event while in use at %.3f s", t); PBT_CHECK(c, !(wn.gps_data_stopped || wn.gps_data_stopped_using_alternate) || !now.gps, "GPS stop event while GPS in use at %.3f s [%s]", t, d); PBT_CHECK(c, !wn.vision_data_stopped || (!now.ev_pos && !now.ev_vel && !now.ev_yaw), "vision stop event while vision in use at %.3f s [%s]", t, d);
			ctrlPrev = f->control_status().value; prev = st; }
	}
	c.nontrivial(started && (modes & 2) && seenFlags); c.cls((modes & 3) == 3, "aided and dead reckoning"); for (int k = 0; k < Tests::N; k++) { if (tested >> k & 1) { c.cls(Tests::name(k)); } } c.cls(modes & 64, "flow the only aid"); c.cls(seenFlags & 0x1fff, "rejections");
}
int main(int argc, char **argv) { return pbt::run("E20", "a flight is non-trivial when it was aided and at least one measurement was rejected", argc, argv); }
