// LIB: geo/geo.cpp
// FLAGS: -O1 -fsanitize=undefined -fno-sanitize-recover=undefined
#include "geo_ref.hpp"
#include <geo/geo.h>

struct Line { double sla, slo, ela, elo, vla, vlo; };
static crosstrack_error_s dirty(pbt::Ctx &c) { crosstrack_error_s e; e.past_end = c.g.below(2); e.distance = 1234; e.bearing = 9; return e; }

LAW(line, 5000000, 30000000)
{
	Line l; l.sla = c.g.sym(70); l.slo = genLon(c);
	const double len = c.g.logu(0.5, 1e5), tb = c.g.below(3) ? c.g.sym(M_PI) : std::round(c.g.sym(2)) * M_PI / 2;
	V3 e = travel(l.sla, l.slo, tb, len); l.ela = (double)latOf(e); l.elo = (double)lonOf(e);
	// the vehicle sits around some point along the line, before it or past it
	const double along = len * (c.g.below(4) ? c.g.real(-0.5, 1.5) : c.g.real(0.98, 1.02)), off = c.g.below(6) ? c.g.signedLog(1e-3, std::max(1.0, len)) : 0;
	V3 m = travel(l.sla, l.slo, tb, along); V3 v = travel(latOf(m), lonOf(m), tb + M_PI / 2, off);
	l.vla = (double)latOf(v); l.vlo = (double)lonOf(v);
	const double d = (double)dist(l.vla, l.vlo, l.ela, l.elo);
	c.note("start (%.9g,%.9g) end (%.9g,%.9g) vehicle (%.9g,%.9g) len %.5g along %.5g off %.5g", l.sla, l.slo, l.ela, l.elo, l.vla, l.vlo, len, along, off);
	crosstrack_error_s x = dirty(c);
	const int rc = get_distance_to_line(&x, l.vla, l.vlo, l.sla, l.slo, l.ela, l.elo);
	if (d < 0.0999) { PBT_CHECK(c, rc != 0 && x.distance == 0 && x.bearing == 0 && !x.past_end, "no error although the vehicle is %.4g m from the end", d); c.cls("at end"); c.nontrivial(); return; }
	if (d < 0.1001) { return; }
	PBT_CHECK(c, rc == 0, "valid request refused");
	// angle errors: float bearings, meridian convergence over the scene, spherical excess
	const double D = std::max(len, std::max(d, std::fabs(along))) , lat = std::max(std::fabs(l.sla), std::fabs(l.vla)) * M_PI / 180;
	const double aerr = 1.5e-6 + 2e-8 / std::min(len, d) + 1.3 * D / 6371000 * (std::tan(lat) + D / 6371000 * 2);
	const double track = (double)course(l.sla, l.slo, l.ela, l.elo), toEnd = (double)course(l.vla, l.vlo, l.ela, l.elo);
	const double diff = (double)wrapPi(track - toEnd);
	const double over = std::fabs(diff) - M_PI / 2;
	if (std::fabs(over) > aerr) { PBT_CHECK(c, x.past_end == (over > 0), "past_end=%d with the end %.6g rad off the track direction", (int)x.past_end, diff); }
	if (x.past_end) { c.cls("past end"); c.nontrivial(); PBT_CHECK(c, over > -aerr, "past_end although the end is ahead"); return; }
	// signed distance to the great circle through start and end, right positive
	V3 n = cross(unitv(l.sla, l.slo), unitv(l.ela, l.elo)); const ld nn = norm(n);
	const double xt = (double)(-RE * std::asin(dot(unitv(l.vla, l.vlo), n) / nn));
	c.close(x.distance, xt, aerr * d + 3e-7 * d + 1e-3 * d * (d / 6371000) + 1e-5 + 2e-8 * d / std::min(1.0, len), "cross-track distance");
	c.cls(xt > 0, "right of track"); c.cls(xt < 0, "left of track"); c.nontrivial(std::fabs(xt) > aerr * d);
	PBT_CHECK(c, x.bearing >= -3.1416f && x.bearing <= 3.1416f, "bearing %g out of range", x.bearing);
	c.close((double)std::fabs(wrapPi((ld)x.bearing - track)), M_PI / 2, 1.5e-6 + 1e-7 / len, "bearing perpendicular to the track");
	if (std::fabs(xt) > 1.05 * aerr * d + 1e-5) {
		// following the bearing must reduce the distance: right of the track means turning left
		const double side = (double)wrapPi((ld)x.bearing - track);
		PBT_CHECK(c, (xt > 0) == (side < 0), "bearing %.6g points away from the line (track %.6g, cross-track %.6g)", x.bearing, track, xt);
	}
}
// arcs: the part of the documented behaviour that does not depend on the end points (see known_findings.txt for the rest):
// nearly full clockwise circle, vehicle on the western side
LAW(arc_near_full_circle, 300000, 5000000)
{
	const double cla = c.g.sym(70), clo = genLon(c); const float r = (float)c.g.logu(0.2, 2e4);
	const double brg = -c.g.real(0.02, M_PI - 0.02), dc = r * c.g.logu(0.01, 20);
	V3 v = travel(cla, clo, brg, dc); const double vla = (double)latOf(v), vlo = (double)lonOf(v);
	const float sweep = (float)(2 * M_PI - c.g.logu(1e-4, 1e-2));
	crosstrack_error_s x = dirty(c);
	c.note("centre (%.9g,%.9g) r %.6g vehicle at %.6g m bearing %.6g sweep %.7g", cla, clo, r, dc, brg, sweep); c.nontrivial();
	PBT_CHECK(c, get_distance_to_arc(&x, vla, vlo, cla, clo, r, 0.f, sweep) == 0, "valid request refused");
	PBT_CHECK(c, !x.past_end, "past_end inside the sector");
	const double d = (double)dist(vla, vlo, cla, clo), toC = (double)course(vla, vlo, cla, clo);
	c.close(std::fabs(x.distance), std::fabs(d - r), 4e-7 * (d + r) + 1e-6, "distance to the circle");
	if (std::fabs(d - r) > 1e-6 * (d + r)) {
		c.cls(d < r, "inside"); c.close((double)wrapPi((ld)x.bearing - (toC + (d < r ? M_PI : 0))), 0, 2e-6 + 1e-7 / d, "bearing to the circle");
	}
}
LAW(arc_bad_arguments, 20000, 200000)
{
	const float r = c.g.below(2) ? (float)c.g.real(0, 0.0999) : (float)-c.g.logu(1e-3, 1e4); crosstrack_error_s x = dirty(c);
	c.note("radius %g", r); c.nontrivial();
	PBT_CHECK(c, get_distance_to_arc(&x, c.g.sym(80), genLon(c), c.g.sym(80), genLon(c), r, (float)c.g.real(0, 6.28), (float)c.g.sym(6.28)) != 0 && x.distance == 0 && x.bearing == 0 && !x.past_end, "radius %g accepted", r);
}
// the two recorded defects of get_distance_to_arc, by the input that shows them
LAW(arc_known_findings, 8, 8)
{
	crosstrack_error_s x{};
	// centre (47, 8), radius 100 m, quarter circle from north to east; vehicle 150 m north-east of the centre: 50 m outside the arc
	V3 v = travel(47, 8, M_PI / 4, 150); c.note("quarter arc"); c.nontrivial();
	get_distance_to_arc(&x, (double)latOf(v), (double)lonOf(v), 47, 8, 100, 0, (float)M_PI / 2);
	if (std::fabs(std::fabs(x.distance) - 50) > 0.1 && !pbt::known(c, "arc-sector")) { c.fail("vehicle in the sector of a quarter arc, 50 m outside: reported %g m", x.distance); }
	// same arc, vehicle 150 m south of the centre: the nearest end is the east end, 180.3 m away
	v = travel(47, 8, M_PI, 150);
	get_distance_to_arc(&x, (double)latOf(v), (double)lonOf(v), 47, 8, 100, 0, (float)M_PI / 2);
	if (std::fabs(x.distance - 180.28) > 1 && !pbt::known(c, "arc-end-points")) { c.fail("vehicle outside the sector of a quarter arc, 180.28 m from its end: reported %g m past_end %d", x.distance, (int)x.past_end); }
}
int main(int argc, char **argv) { return pbt::run("G04", "case = segment (0.5 m..100 km, all courses, |lat|<70) and a vehicle placed along/off/before/past it, or an arc; non-trivial when the cross-track offset exceeds the angular error or the past-end/at-end rule applies", argc, argv); }
