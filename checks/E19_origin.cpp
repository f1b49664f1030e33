// LIB: EKF geo/geo.cpp geo_lookup/geo_mag_declination.cpp
// TECHNIQUE: stateful property-based testing: random flights in which the origin is set by GPS and by generated requests, valid and invalid, against a model of the origin and a long-double projection; metamorphic: a flight with the origin moved equals the flight without, in geographic coordinates
#define SIM_WHITE_BOX
#include "pbt.hpp"
#include "dmath.hpp"
#include <memory>
#include <sstream>
#define private public
#define protected public
#include <EKF/ekf.h>
#undef private
#undef protected
#include "ekf_stress.hpp"
namespace gr {
#include "geo_ref.hpp"
}
using namespace sim;

static void project(double la0, double lo0, double la, double lo, double &x, double &y) { const double d = (double)gr::dist(la0, lo0, la, lo); if (d < 1e-9) { x = y = 0; return; } const double b = (double)gr::course(la0, lo0, la, lo); x = d * std::cos(b); y = d * std::sin(b); }
static void place(double la0, double lo0, double x, double y, double &la, double &lo) { const auto v = gr::travel(la0, lo0, std::atan2(y, x), std::hypot(x, y)); la = (double)gr::latOf(v); lo = (double)gr::lonOf(v); }
struct Geo { double la, lo, alt; };
static Geo geoOf(const Ekf &f, double x, double y, double z) { uint64_t t; double la, lo; float al; f.getEkfGlobalOrigin(t, la, lo, al); Geo g; place(la, lo, x, y, g.la, g.lo); g.alt = (double)al - z; return g; }
static double apart(const Geo &a, const Geo &b) { return (double)gr::dist(a.la, a.lo, b.la, b.lo); }
static bool aided(const Ekf &f) { const auto fl = f.control_status_flags(); return fl.gps || fl.opt_flow || fl.ev_pos || fl.ev_vel || (fl.fuse_aspd && fl.fuse_beta); }
struct Req { double t, la, lo; float alt; bool ok; };
static Req request(pbt::Ctx &c, const Scenario &s, double t, double far)
{
	auto &g = c.g; Req r{t, 0, 0, 0, true}; s.latlon({g.sym(far), g.sym(far), 0}, r.la, r.lo); r.alt = (float)(s.alt0 + g.sym(200));
	if (g.below(3) == 0) { r.ok = false; switch (g.below(8)) { case 0: r.la = NAN; break; case 1: r.lo = NAN; break; case 2: r.alt = NAN; break; case 3: r.la = g.below(2) ? 90.0001 : -g.logu(90.1, 1e9); break; case 4: r.lo = g.below(2) ? 180.001 : -g.logu(181, 1e9); break; case 5: r.alt = INFINITY; break; case 6: r.alt = (float)(g.below(2) ? 1e6 : -2e4); break; default: r.lo = -INFINITY; } }
	return r;
}
LAW(origin, 1000, 30000)
{
	Stress s; StressWant w; w.T = 40; w.maxFaults = c.g.below(2) ? 5 : 0; w.extreme = false; const char *mode = genStress(c, s, w); c.cls(mode); auto &g = c.g; s.ops.erase(std::remove_if(s.ops.begin(), s.ops.end(), [](const Op &o) { return o.op == 12; }), s.ops.end());
	std::vector<Req> req; const int n = (int)g.below(5); for (int i = 0; i < n; i++) { req.push_back(request(c, s, g.below(2) ? g.real(0.1, 16) : g.real(10, s.T), g.pick<double>({3, 500, 5000}))); } std::sort(req.begin(), req.end(), [](const Req &a, const Req &b) { return a.t < b.t; });
	const bool lever = s.par.gps_pos_body.norm() + s.par.imu_pos_body.norm() > 0; auto f = std::make_unique<Ekf>(); s.init(*f); const char *d = s.desc.c_str(); std::string rs; for (auto &r : req) { char b[120]; std::snprintf(b, sizeof b, "%.2f s: %.7f %.7f %.2f; ", r.t, r.la, r.lo, r.alt); rs += b; } c.note("%s; requests %s faults %s", mode, rs.c_str(), d);
	struct Origin { bool set{false}, valid{false}; double la{0}, lo{0}; float alt{0}; uint64_t t{0}; } o; uint64_t lastImu = 0; size_t k = 0; std::vector<std::pair<uint64_t, std::pair<double, double>>> msgs; uint64_t popped = 0; int fused = 0, moved = 0; long steps = 0;
	for (auto &e : s.events) {
		const double t = s.sec(e.t);
		while (k < req.size() && req[k].t <= t) {
			const Req &r = req[k++]; const auto x0 = f->getStateAtFusionHorizonAsVector(); const auto p0 = f->getPosition(); const Snap a = snapshot(*f); const bool aid = aided(*f), had = o.set; const Geo g0 = geoOf(*f, x0(7), x0(8), x0(9)), q0 = geoOf(*f, p0(0), p0(1), p0(2)); const float tv = f->getTerrainVertPos(); 
			const bool ret = f->setEkfGlobalOrigin(r.la, r.lo, r.alt); PBT_CHECK(c, ret == r.ok, "request for %g %g %g %s at %.3f s", r.la, r.lo, r.alt, ret ? "accepted" : "refused", t);
			const Snap b = snapshot(*f); if (!ret) { const int i = firstDiff(a, b); PBT_CHECK(c, i < 0, "refused request for %g %g %g changed %s from %g to %g", r.la, r.lo, r.alt, i < 0 ? "" : a.n[i], i < 0 ? 0 : a.v[i], i < 0 ? 0 : b.v[i]); c.cls("refused"); continue; }
			o.set = true; o.la = r.la; o.lo = r.lo; o.alt = r.alt; o.t = lastImu; const auto x1 = f->getStateAtFusionHorizonAsVector(); const auto p1 = f->getPosition();
			for (int i = 0; i < 24; i++) { if (i < 7 || i > 9) { PBT_CHECK(c, sameWord(x0(i), x1(i)), "setting the origin changed state %d", i); } }
			if (had && aid) {
				const Geo g1 = geoOf(*f, x1(7), x1(8), x1(9)), q1 = geoOf(*f, p1(0), p1(1), p1(2)); const double sc = std::fabs(x0(7)) + std::fabs(x0(8)) + std::fabs(x1(7)) + std::fabs(x1(8)), tol = 2e-3 + 3e-7 * sc, far = (double)gr::dist(g0.la, g0.lo, q0.la, q0.lo); moved++;
				if (sc < 2e5 && std::fabs(x0(9)) < 1e4) { PBT_CHECK(c, apart(g0, g1) < tol && std::fabs(g0.alt - g1.alt) < 2e-3, "moving the origin at %.3f s moved the vehicle by %.4f m and %.4f m up [%s]", t, apart(g0, g1), g1.alt - g0.alt, d); if (far < 1e3) { PBT_CHECK(c, apart(q0, q1) < tol + 2e-3 * far && std::fabs(q0.alt - q1.alt) < 4e-3, "moving the origin at %.3f s moved the published position by %.4f m and %.4f m up [%s]", t, apart(q0, q1), q1.alt - q0.alt, d); }
					PBT_CHECK(c, std::fabs((double)f->getTerrainVertPos() - tv - (x1(9) - x0(9))) < 1e-3 + 1e-6 * std::fabs(tv), "moving the origin at %.3f s changed the height above terrain by %.4f m", t, (double)f->getTerrainVertPos() - tv - (x1(9) - x0(9))); }
			} else { for (int i = 7; i < 10; i++) { PBT_CHECK(c, sameWord(x0(i), x1(i)), "setting the origin without horizontal aiding changed the position at %.3f s", t); } }
			c.cls(had ? aid ? "moved in flight" : "set again" : "set first");
		}
		const bool aid0 = aided(*f), was = f->global_origin_valid(); const double z0 = f->getStateAtFusionHorizonAsVector()(9), n0 = f->getStateAtFusionHorizonAsVector()(7), e0 = f->getStateAtFusionHorizonAsVector()(8);
		const bool stepd = s.feed(*f, e); if (e.k == IMU) { lastImu = s.imu[e.i].time_us; } const bool now = f->global_origin_valid();
		uint64_t ot; double la, lo; float al; const bool ov = f->getEkfGlobalOrigin(ot, la, lo, al); PBT_CHECK(c, ov == now && sameWord(f->getEkfGlobalOriginAltitude(), al), "origin getters disagree at %.3f s", t);
		if (now && !was && e.k == GPS) {
			const auto &m = s.gps[e.i]; const double mla = m.lat * 1e-7, mlo = m.lon * 1e-7; o.valid = true;
			if (!o.set) { // from this message
				o.alt = (float)(m.alt * 1e-3 + z0); PBT_CHECK(c, std::fabs((double)al - o.alt) < 1e-3 + 2e-7 * std::fabs(o.alt), "origin altitude %.4f, expected %.4f, at %.3f s", al, o.alt, t); o.alt = al;
				if (aid0) { double x, y; project(la, lo, mla, mlo, x, y); const double tol = 0.01 + 1e-3 * std::hypot(n0, e0); c.cls("origin by GPS while aided"); if (std::hypot(n0, e0) < 1e4) { PBT_CHECK(c, std::hypot(x - n0, y - e0) < tol, "origin set by GPS while aided: message is %.3f %.3f from the origin, vehicle at %.3f %.3f, at %.3f s", x, y, n0, e0, t); } }
				else { PBT_CHECK(c, std::fabs(la - mla) < 1e-11 && std::fabs(lo - mlo) < 1e-11, "origin %.9f %.9f differs from the GPS message %.9f %.9f at %.3f s", la, lo, mla, mlo, t); c.cls("origin by GPS"); }
				o.la = la; o.lo = lo; o.set = true;
			} else { c.cls("origin set before GPS"); }
			o.t = lastImu; PBT_CHECK(c, ot == lastImu, "origin time is %.4f s old when set", 1e-6 * ((double)lastImu - (double)ot));
		}
		PBT_CHECK(c, now == o.valid, "origin valid %d, expected %d at %.3f s", now, o.valid, t);
		if (o.set) { PBT_CHECK(c, std::fabs(la - o.la) < 1e-11 && std::fabs(lo - o.lo) < 1e-11 && al == o.alt && ot == o.t, "origin read back %.9f %.9f %.4f set %.4f s ago, expected %.9f %.9f %.4f set %.4f s ago, at %.3f s [%s]", la, lo, al, 1e-6 * (double)(lastImu - ot), o.la, o.lo, o.alt, 1e-6 * (double)(lastImu - o.t), t, d); }
		PBT_CHECK(c, f->global_position_is_valid() == (now && f->local_position_is_valid()), "global position validity wrong at %.3f s", t);
		if (e.k == GPS) { const auto &m = s.gps[e.i]; msgs.push_back({m.time_usec, {m.lat * 1e-7, m.lon * 1e-7}}); }
		// the GPS position in use lies at the reported place
		if (stepd) {
			steps++; const auto &smp = f->_gps_sample_delayed;
			if (smp.time_us != popped) {
				popped = smp.time_us; const uint64_t stamp = popped + (uint64_t)((int64_t)(s.par.gps_delay_ms * 1000)) + 5000;
				if (f->control_status_flags().gps && f->_gps_data_ready) { for (size_t i = msgs.size(); i-- > 0;) { if (std::llabs((int64_t)(msgs[i].first - stamp)) <= 1) {
					double x, y; project(la, lo, msgs[i].second.first, msgs[i].second.second, x, y); const matrix::Vector3f off{f->_R_to_earth * (s.par.gps_pos_body - s.par.imu_pos_body)}; const double ex = smp.pos(0) + off(0) - x, ey = smp.pos(1) + off(1) - y; fused++; const double tl = lever ? 0.05 + 2 * off.norm() : 0.0;
					if (std::hypot(x, y) < 1e5) { PBT_CHECK(c, std::hypot(ex, ey) < 2e-3 + 1e-6 * std::hypot(x, y) + tl, "GPS position used is %.3f %.3f, the message lies %.3f %.3f from the reported origin (antenna offset %.2f %.2f), at %.3f s [%s]", smp.pos(0), smp.pos(1), x, y, off(0), off(1), t, d); } break; } } }
			}
		}
	}
	c.nontrivial(steps > 500); if (fused) { c.cls("GPS positions compared"); } if (moved) { c.cls("origin moved while aided"); }
}
// the same flight with the origin moved at one moment: the same places, heights, velocities and status
LAW(moved, 600, 20000)
{
	Scenario s; auto &g = c.g; Want w; w.T = 60; const char *mode = genAny(c, s, w); s.setDelays(); s.build(); c.cls(mode); const bool absEv = (s.par.fusion_mode & MASK_USE_EVPOS) && !(s.par.fusion_mode & MASK_USE_GPS); if (absEv || s.par.vdist_sensor_type == VDIST_SENSOR_EV) { c.discard(); } // the vision frame is the local frame
	auto f = std::make_unique<Ekf>(), h = std::make_unique<Ekf>(); s.init(*f); s.init(*h); const double t0 = g.real(19, 45); Req r = request(c, s, t0, g.pick<double>({3, 300, 2000})); if (!r.ok) { s.latlon({g.sym(50), g.sym(50), 0}, r.la, r.lo); r.alt = (float)s.alt0; }
	bool done = false; double worst = 0; c.note("%s; origin moved at %.3f s to %.7f %.7f %.2f", mode, t0, r.la, r.lo, r.alt); c.nontrivial();
	for (auto &e : s.events) {
		const double t = s.sec(e.t);
		if (!done && t >= t0) { done = true; if (!h->global_origin_valid() || !aided(*h)) { c.cls("no origin yet"); c.discard(); } if (!h->control_status_flags().gps) { c.cls("GPS not in use"); } PBT_CHECK(c, h->setEkfGlobalOrigin(r.la, r.lo, r.alt), "valid request refused"); }
		s.apply(*f, e); const bool st = s.apply(*h, e); if (!done || !st) { continue; }
		if (t - t0 > 1 && ((f->control_status().value ^ h->control_status().value) & 0x70)) { c.cls("magnetic mode chosen differently at a threshold"); break; } // rounding
		const auto a = f->getStateAtFusionHorizonAsVector(), b = h->getStateAtFusionHorizonAsVector(); const Geo ga = geoOf(*f, a(7), a(8), a(9)), gb = geoOf(*h, b(7), b(8), b(9)); const auto pa = f->getPosition(), pb = h->getPosition(); const Geo qa = geoOf(*f, pa(0), pa(1), pa(2)), qb = geoOf(*h, pb(0), pb(1), pb(2));
		const double far = std::hypot(b(7), b(8)) + std::hypot(a(7), a(8)), tol = 0.03 + 5e-5 * far; worst = std::max(worst, apart(ga, gb) / tol);
		PBT_CHECK(c, apart(ga, gb) < tol && apart(qa, qb) < tol && std::fabs(ga.alt - gb.alt) < 0.02 && std::fabs(qa.alt - qb.alt) < 0.02, "%.2f s after the origin was moved the vehicle is %.3f m away (published %.3f m) and %.3f m higher than without, at %.3f s", t - t0, apart(ga, gb), apart(qa, qb), gb.alt - ga.alt, t);
		double dv = 0; for (int i = 4; i < 7; i++) { dv = std::max(dv, (double)std::fabs(a(i) - b(i))); } PBT_CHECK(c, dv < 0.02 + 1e-5 * far, "velocity differs by %.4f m/s %.2f s after the origin was moved", dv, t - t0);
		PBT_CHECK(c, f->control_status().value == h->control_status().value, "control status %x instead of %x %.2f s after the origin was moved", h->control_status().value, f->control_status().value, t - t0);
		PBT_CHECK(c, std::fabs(((double)f->getTerrainVertPos() - a(9)) - ((double)h->getTerrainVertPos() - b(9))) < 0.02 && f->isTerrainEstimateValid() == h->isTerrainEstimateValid(), "height above terrain %.3f instead of %.3f, %.2f s after the origin was moved", h->getTerrainVertPos() - b(9), f->getTerrainVertPos() - a(9), t - t0);
	}
	c.worst("place", worst);
}
int main(int argc, char **argv) { return pbt::run("E19", "case = a flight with origin requests, non-trivial if the filter made 500 steps; or a flight flown with and without moving the origin", argc, argv); }
