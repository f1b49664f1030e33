// LIB: geo/geo.cpp
// FLAGS: -O1 -fsanitize=undefined -fno-sanitize-recover=undefined
#include "geo_ref.hpp"
#include <geo/geo.h>

static const double F = 1.2e-7; // two float roundings
// metres lost by recovering a latitude through asin() near a pole
static double poleTol(double lat) { double cl = std::cos(lat * M_PI / 180); return 6.4e6 * std::min(1.5e-7, 1e-14 / std::max(cl, 1e-12)) + 1e-8; }

static void initRef(pbt::Ctx &c, map_projection_reference_s &r, double la, double lo)
{
	if (c.g.below(2)) { PBT_CHECK(c, map_projection_init(&r, la, lo) == 0, "init refused"); }
	else { PBT_CHECK(c, map_projection_init_timestamped(&r, la, lo, 5) == 0, "init refused"); }
}
// projection of a position at a given distance and course (up to a quarter of the globe)
LAW(project, 1500000, 12000000)
{
	const double la = genLat(c), lo = genLon(c);
	map_projection_reference_s ref{}; initRef(c, ref, la, lo);
	const double d = c.g.below(8) ? c.g.logu(1e-3, 1.0e7) : 0.0, b = c.g.sym(M_PI);
	const V3 p = travel(la, lo, b, d);
	const double pla = (double)latOf(p), plo = (double)lonOf(p) + (c.g.below(6) ? 0 : (c.g.below(2) ? 360 : -360));
	float x = NAN, y = NAN;
	PBT_CHECK(c, map_projection_project(&ref, pla, plo, &x, &y) == 0, "projection refused on an initialised reference");
	const double tol = F * d + 5e-8 + 1e-9 * (std::fabs(plo) > 180);
	c.note("ref (%.9g,%.9g) dist %.6g course %.4g -> x %.9g y %.9g", la, lo, d, b, x, y); c.nontrivial(d > 0); c.cls(d > 1e6, "beyond 1000 km"); c.cls(d < 1, "below 1 m");
	// the reference frame at the pole itself is defined by the longitude
	c.close(x, d * std::cos(b), tol, "north"); c.close(y, d * std::sin(b), tol, "east");
}
LAW(round_trip, 1500000, 12000000)
{
	const double la = genLat(c), lo = genLon(c);
	map_projection_reference_s ref{}; initRef(c, ref, la, lo);
	float x, y;
	if (c.g.below(10) == 0) { x = y = 0; }
	else { const double d = c.g.logu(1e-3, 1.0e7), b = c.g.below(4) ? c.g.sym(M_PI) : std::round(c.g.sym(4)) * M_PI / 4; x = (float)(d * std::cos(b)); y = (float)(d * std::sin(b)); }
	if (c.g.below(8) == 0) { // aim at the pole exactly
		x = (float)((90 - la) * M_PI / 180 * 6371000); y = 0; c.cls("aimed at pole");
		if (x > 1e7) { x = (float)((-90 - la) * M_PI / 180 * 6371000); }
	}
	double la2 = NAN, lo2 = NAN; float x2 = NAN, y2 = NAN;
	PBT_CHECK(c, map_projection_reproject(&ref, x, y, &la2, &lo2) == 0, "reprojection refused on an initialised reference");
	c.note("ref (%.9g,%.9g) x %.9g y %.9g -> (%.12g,%.12g)", la, lo, x, y, la2, lo2); c.nontrivial(x != 0 || y != 0);
	PBT_CHECK(c, std::isfinite(la2) && std::isfinite(lo2), "reprojection of (%.9g, %.9g) about (%.9g, %.9g) gives (%.9g, %.9g)", x, y, la, lo, la2, lo2);
	PBT_CHECK(c, std::fabs(la2) <= 90 + 1e-9, "latitude %.12g out of range", la2);
	const double dd = std::hypot((double)x, (double)y);
	// against the geodesic reference
	const V3 want = travel(la, lo, std::atan2((double)y, (double)x), dd);
	c.close((double)(RE * angle(want, unitv(la2, lo2))), 0, 2e-9 * 5 + poleTol(la2) + 1e-15 * dd, "distance of the reprojected point from the geodesic end point (m)");
	PBT_CHECK(c, map_projection_project(&ref, la2, lo2, &x2, &y2) == 0, "projection refused");
	const double tol = F * dd + poleTol(la2) + 5e-8;
	c.close(x2, x, tol, "north after round trip"); c.close(y2, y, tol, "east after round trip");
}
LAW(global_round_trip, 1000000, 9000000)
{
	const double la = genLat(c), lo = genLon(c), pla = genLat(c), plo = genLon(c);
	const double d = (double)dist(la, lo, pla, plo);
	if (d > 1.0e7) { c.discard(); }
	map_projection_reference_s ref{}; initRef(c, ref, la, lo);
	float x, y; double la2, lo2;
	PBT_CHECK(c, map_projection_project(&ref, pla, plo, &x, &y) == 0 && map_projection_reproject(&ref, x, y, &la2, &lo2) == 0, "refused");
	c.note("ref (%.9g,%.9g) point (%.9g,%.9g) -> x %.9g y %.9g -> (%.9g,%.9g)", la, lo, pla, plo, x, y, la2, lo2); c.nontrivial(d > 0);
	c.close((double)dist(pla, plo, la2, lo2), 0, F * d + poleTol(pla) + 1e-7, "position error after round trip (m)");
	c.close(std::hypot((double)x, (double)y), d, F * d + 1e-7, "local distance against great-circle distance");
}
LAW(api_history, 600000, 4500000)
{
	map_projection_reference_s r[2] = {}; bool init[2] = {false, false}; double la[2] = {}, lo[2] = {}; uint64_t ts[2] = {};
	const int n = 1 + (int)c.g.below(12);
	for (int i = 0; i < n; i++) {
		const int k = (int)c.g.below(2);
		switch (c.g.below(6)) {
		case 0: {
			la[k] = genLat(c); lo[k] = genLon(c); ts[k] = c.g.below(1ull << 40);
			PBT_CHECK(c, map_projection_init_timestamped(&r[k], la[k], lo[k], ts[k]) == 0, "init refused"); init[k] = true; c.cls("init"); c.note("init %d (%g,%g)", k, la[k], lo[k]); break;
		}
		case 1: { double a = 1e9, b = 1e9; int rc = map_projection_reference(&r[k], &a, &b); c.note("reference %d", k);
			PBT_CHECK(c, (rc == 0) == init[k], "reference query returned %d with initialised=%d", rc, (int)init[k]);
			if (init[k]) { c.close(a, la[k] * M_PI / 180, 1e-15, "reference latitude"); c.close(b, lo[k] * M_PI / 180, 2e-15, "reference longitude"); c.nontrivial(); }
			else { PBT_CHECK(c, a == 1e9 && b == 1e9, "uninitialised reference wrote a position"); c.cls("uninitialised query"); c.nontrivial(); } break; }
		case 2: PBT_CHECK(c, map_projection_initialized(&r[k]) == init[k], "initialised flag wrong"); break;
		case 3: if (init[k]) { PBT_CHECK(c, map_projection_timestamp(&r[k]) == ts[k], "timestamp not the one set"); } break;
		case 4: { float x = 123, y = 123; int rc = map_projection_project(&r[k], 1, 2, &x, &y);
			PBT_CHECK(c, (rc == 0) == init[k], "project returned %d with initialised=%d", rc, (int)init[k]); if (!init[k]) { PBT_CHECK(c, x == 123 && y == 123, "uninitialised projection wrote a result"); c.cls("uninitialised project"); c.nontrivial(); }
			if (init[k]) { float x0, y0; map_projection_project(&r[k], la[k], lo[k], &x0, &y0); c.close(x0, 0, 1e-8, "reference north"); c.close(y0, 0, 1e-8, "reference east"); } break; }
		default: { double x = 123, y = 123; int rc = map_projection_reproject(&r[k], 1, 2, &x, &y);
			PBT_CHECK(c, (rc == 0) == init[k], "reproject returned %d with initialised=%d", rc, (int)init[k]); if (!init[k]) { PBT_CHECK(c, x == 123 && y == 123, "uninitialised reprojection wrote a result"); c.cls("uninitialised reproject"); c.nontrivial(); }
			if (init[k]) { map_projection_reproject(&r[k], 0, 0, &x, &y); c.close(x, la[k], 1e-12, "origin latitude"); c.close(y, lo[k], 1e-12, "origin longitude"); } break; }
		}
	}
}
int main(int argc, char **argv) { return pbt::run("G02", "case = reference point and a position/local offset (log-uniform 1 mm..10000 km, all courses, poles and date line) or an API call sequence; non-trivial when the offset is non-zero / a query followed", argc, argv); }
