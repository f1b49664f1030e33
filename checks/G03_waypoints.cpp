// LIB: geo/geo.cpp
// FLAGS: -O1 -fsanitize=undefined -fno-sanitize-recover=undefined
#include "geo_ref.hpp"
#include <geo/geo.h>

static const double F = 1.3e-7;
static double poleTol(double lat) { double cl = std::cos(lat * M_PI / 180); return 6.4e6 * std::min(1.5e-7, 1e-14 / std::max(cl, 1e-12)) + 1e-8; }
// metres lost by the longitude formula when start and target are both close to a pole
static double lonTol(double laStart, double laTarget)
{
	const double cs = std::fabs(std::cos(laStart * M_PI / 180)), ct = std::fabs(std::cos(laTarget * M_PI / 180));
	return std::min(2.01 * 6371000 * std::asin(std::min(1.0, ct)), 6371000 * 2e-15 / std::max(cs, 1e-18));
}
struct Pair { double la1, lo1, la2, lo2, d; };
static Pair genPair(pbt::Ctx &c)
{
	Pair p; p.la1 = genLat(c); p.lo1 = genLon(c);
	switch (c.g.below(6)) {
	case 0: p.la2 = genLat(c); p.lo2 = genLon(c); c.cls("unrelated pair"); break;
	case 1: p.la2 = p.la1; p.lo2 = p.lo1; c.cls("coincident"); break;
	case 2: { // antipode and around
		p.la2 = -p.la1; p.lo2 = p.lo1 > 0 ? p.lo1 - 180 : p.lo1 + 180; c.cls("antipodal");
		if (c.g.below(2)) { V3 q = travel(p.la2, p.lo2, c.g.sym(M_PI), c.g.logu(1e-3, 1e5)); p.la2 = (double)latOf(q); p.lo2 = (double)lonOf(q); } break; }
	case 3: p.la2 = p.la1; p.lo2 = genLon(c); break;
	default: { V3 q = travel(p.la1, p.lo1, c.g.sym(M_PI), c.g.logu(1e-3, 1.9e7)); p.la2 = (double)latOf(q); p.lo2 = (double)lonOf(q); }
	}
	p.d = (double)dist(p.la1, p.lo1, p.la2, p.lo2);
	c.cls(std::fabs(p.lo1 - p.lo2) > 180, "across date line"); c.cls(p.d < 1, "below 1 m"); c.cls(p.d > 1e6, "beyond 1000 km");
	c.note("(%.10g,%.10g) (%.10g,%.10g) %.6g m", p.la1, p.lo1, p.la2, p.lo2, p.d);
	return p;
}
// the haversine loses precision near the antipode
static double distTol(double d) { double back = M_PI * 6371000 - d; return F * d + 2e-8 + (back < 1e6 ? std::min(0.3, 2e-2 / std::max(back, 1e-2) + 1e-3) : 0); }

LAW(distance, 1600000, 15000000)
{
	Pair p = genPair(c); c.nontrivial(p.d > 0);
	const float d = get_distance_to_next_waypoint(p.la1, p.lo1, p.la2, p.lo2);
	const float d2 = get_distance_to_next_waypoint(p.la2, p.lo2, p.la1, p.lo1);
	PBT_CHECK(c, std::isfinite(d), "distance is %g", d);
	c.close(d, p.d, distTol(p.d), "distance");
	c.close(d, d2, F * p.d + 1e-9 + (p.d > 1.9e7 ? distTol(p.d) : 0), "distance symmetry");
	if (p.la1 == p.la2 && p.lo1 == p.lo2) { PBT_CHECK(c, d == 0, "distance %g between equal positions", d); }
	// 3-D variant
	const float a1 = (float)c.g.sym(20000), a2 = c.g.below(4) ? (float)c.g.sym(20000) : a1; float xy = -1, z = -1;
	const float t = get_distance_to_point_global_wgs84(p.la1, p.lo1, a1, p.la2, p.lo2, a2, &xy, &z);
	c.close(xy, p.d, distTol(p.d), "3-D horizontal"); c.close(z, std::fabs((double)a1 - a2), F * std::fabs((double)a1 - a2), "3-D vertical");
	c.close(t, std::hypot(p.d, (double)a1 - a2), 2 * F * std::hypot(p.d, (double)a1 - a2) + distTol(p.d), "3-D distance");
}
LAW(bearing, 1600000, 15000000)
{
	Pair p = genPair(c);
	const float b = get_bearing_to_next_waypoint(p.la1, p.lo1, p.la2, p.lo2);
	PBT_CHECK(c, b >= -3.1415930f && b <= 3.1415930f, "bearing %.9g out of [-pi, pi]", b);
	const double back = M_PI * 6371000 - p.d;
	float vn, ve; get_vector_to_next_waypoint(p.la1, p.lo1, p.la2, p.lo2, &vn, &ve);
	const double s = 6371000 * std::sin(p.d / 6371000);
	const double br = (double)course(p.la1, p.lo1, p.la2, p.lo2);
	// the full vector is the tangent-plane projection of the target
	c.close(vn, s * std::cos(br), F * s + 1e-7, "north component"); c.close(ve, s * std::sin(br), F * s + 1e-7, "east component");
	if (p.d < 1e-4 || back < 1e-4) { return; }
	const double m = std::min(p.d, back);
	c.nontrivial();
	c.close((double)wrapPi((ld)b - br), 0, 5e-7 + 1e-7 / m, "bearing");
}
static void landed(pbt::Ctx &c, double la, double lo, double b, double d, double tla, double tlo, double tol)
{
	PBT_CHECK(c, std::isfinite(tla) && std::isfinite(tlo), "target (%g, %g) is not a position", tla, tlo);
	const V3 want = travel(la, lo, b, d);
	c.close((double)(RE * angle(want, unitv(tla, tlo))), 0, tol, "distance of the target from where the travel ends (m)");
}
LAW(travel_heading, 1600000, 15000000)
{
	const double la = genLat(c), lo = genLon(c);
	float b = (float)(c.g.below(4) ? c.g.sym(M_PI) : std::round(c.g.sym(4)) * M_PI / 4); if (c.g.below(5) == 0) { b += 2 * (float)M_PI * (float)c.g.range(-2, 2); c.cls("bearing beyond one turn"); }
	float d = (float)(c.g.below(10) ? c.g.signedLog(1e-3, 1.9e7) : 0);
	if (c.g.below(10) == 0) { b = 0; d = (float)((90 - la) * M_PI / 180 * 6371000); c.cls("aimed at pole"); }
	double tla = NAN, tlo = NAN; waypoint_from_heading_and_distance(la, lo, b, d, &tla, &tlo);
	c.note("(%.10g,%.10g) bearing %.9g dist %.9g -> (%.12g,%.12g)", la, lo, b, d, tla, tlo); c.nontrivial(d != 0); c.cls(d < 0, "negative distance");
	PBT_CHECK(c, std::isfinite(tla) && std::isfinite(tlo), "target (%g, %g) from (%.12g, %.12g) bearing %.9g distance %.9g", tla, tlo, la, lo, b, d);
	const double ad = std::fabs((double)d), bt = 1e-6 * (1 + std::fabs(b)) * 6371000 * std::fabs(std::sin(ad / 6371000));
	landed(c, la, lo, b, d, tla, tlo, 1.3 * (bt + poleTol(tla) + lonTol(la, tla) + 1e-15 * ad + 2e-8));
	if (ad > 0.01 && ad < 1e6 && std::fabs(la) < 89 && std::fabs(tla) < 89) {
		c.close(get_distance_to_next_waypoint(la, lo, tla, tlo), ad, F * ad + bt + 1e-6, "distance back");
		c.close((double)wrapPi((ld)get_bearing_to_next_waypoint(la, lo, tla, tlo) - b - (d < 0 ? PIl : 0)), 0, 1e-6 * (1 + std::fabs(b)) + 1e-6 / ad, "bearing back");
	}
}
LAW(travel_line, 800000, 9000000)
{
	Pair p = genPair(c); const double back = M_PI * 6371000 - p.d; if (p.d < 0.01 || back < 1) { c.discard(); }
	float d = (float)(c.g.below(10) ? c.g.signedLog(1e-3, 1e6) : 0);
	if (c.g.below(5) == 0) { d = (float)p.d; c.cls("to B"); }
	double tla = NAN, tlo = NAN; create_waypoint_from_line_and_dist(p.la1, p.lo1, p.la2, p.lo2, d, &tla, &tlo);
	c.note("dist %.9g -> (%.12g,%.12g)", d, tla, tlo); c.nontrivial(d != 0); c.cls(d < 0, "negative distance");
	const double br = (double)course(p.la1, p.lo1, p.la2, p.lo2);
	const double tol = (1e-6 + 1e-7 / std::min(p.d, back)) * std::min(std::fabs((double)d), 6.4e6) + poleTol(tla) + lonTol(p.la1, tla) + 3e-8 + 1e-15 * p.d;
	landed(c, p.la1, p.lo1, br, d, tla, tlo, tol);
	if (d == 0) { PBT_CHECK(c, tla == p.la1 && tlo == p.lo1, "zero distance moved the point"); }
}
LAW(vectors, 1200000, 12000000)
{
	const double la = genLat(c, 85), lo = genLon(c);
	const double d = c.g.below(10) ? c.g.logu(1e-3, 1e5) : 0, b = c.g.sym(M_PI);
	const float vn = (float)(d * std::cos(b)), ve = (float)(d * std::sin(b));
	double rla = NAN, rlo = NAN; add_vector_to_global_position(la, lo, vn, ve, &rla, &rlo);
	c.note("(%.10g,%.10g) + (%.9g,%.9g) -> (%.12g,%.12g)", la, lo, vn, ve, rla, rlo); c.nontrivial(d != 0);
	c.cls(std::fabs(rlo) > 180, "crosses date line");
	c.close(rla, la + vn / 6371000.0 * 180 / M_PI, 1e-12, "latitude"); c.close((double)(wrapPi((rlo - lo) * PIl / 180) * 180 / PIl), ve / (6371000.0 * std::cos(la * M_PI / 180)) * 180 / M_PI, 2e-12, "longitude change");
	// the fast vector is the inverse, whichever way the resulting longitude is written
	const double rlo2 = c.g.below(2) ? rlo : std::remainder(rlo, 360.0);
	float fn, fe; get_vector_to_next_waypoint_fast(la, lo, rla, rlo2, &fn, &fe);
	c.close(fn, vn, F * d + 2e-8, "fast vector north"); c.close(fe, ve, F * d + 2e-8, "fast vector east");
	// against the sphere: a locally flat step is right to second order
	const double t = std::tan(std::fabs(la) * M_PI / 180) + 1, err = d * d / 6371000 * t * 1.2 + d * d / 6371000 * d / 6371000 * t * t * 2 + F * d + 5e-8;
	float gn, ge; get_vector_to_next_waypoint(la, lo, rla, rlo, &gn, &ge);
	c.close(gn, vn, err, "vector north"); c.close(ge, ve, err, "vector east");
	if (d > 0) { c.close(get_distance_to_next_waypoint(la, lo, rla, rlo), d, err, "distance of the step"); }
}
LAW(local_distance, 800000, 6000000)
{
	float v[6]; for (float &x : v) { x = (float)(c.g.below(3) ? c.g.signedLog(1e-3, 1e6) : c.g.sym(1000)); }
	float xy = -1, z = -1; const float d = mavlink_wpm_distance_to_point_local(v[0], v[1], v[2], v[3], v[4], v[5], &xy, &z);
	const double dx = (double)v[0] - v[3], dy = (double)v[1] - v[4], dz = (double)v[2] - v[5];
	c.note("(%g %g %g) (%g %g %g)", v[0], v[1], v[2], v[3], v[4], v[5]); c.nontrivial(dx != 0 && dz != 0);
	const double t = std::sqrt(dx * dx + dy * dy + dz * dz);
	c.close(xy, std::hypot(dx, dy), 3e-7 * std::hypot(dx, dy), "local horizontal"); c.close(z, std::fabs(dz), 1e-7 * std::fabs(dz), "local vertical"); c.close(d, t, 3e-7 * t, "local distance");
}
int main(int argc, char **argv) { return pbt::run("G03", "case = position pair (unrelated, coincident, antipodal, given distance and course), bearing, signed distance or vector; non-trivial when the separation is non-zero", argc, argv); }
