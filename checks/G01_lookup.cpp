// LIB: geo_lookup/geo_mag_declination.cpp
// FLAGS: -O1 -fsanitize=address,undefined -fno-sanitize-recover=undefined
#include "pbt.hpp"
#include "g01_tables.hpp"
#include <geo_lookup/geo_mag_declination.h>

typedef float (*Fn)(float, float);
struct Q { const char *name; const int16_t (*t)[37]; Fn base; Fn variant; double variantScale; };
static const Q QS[3] = {
	{"declination", ref_tables::declination, get_mag_declination_radians, get_mag_declination_degrees, 180.0 / M_PI},
	{"inclination", ref_tables::inclination, get_mag_inclination_radians, get_mag_inclination_degrees, 180.0 / M_PI},
	{"strength", ref_tables::strength, get_mag_strength_gauss, get_mag_strength_tesla, 1e-4},
};
struct Ref { double v, tol, lo, hi; };
static Ref ref(const int16_t t[19][37], double lat, double lon)
{
	if (lat < -90) { lat = -90; } if (lat > 90) { lat = 90; }
	if (lon > 180) { lon -= 360; } if (lon < -180) { lon += 360; }
	double y = (lat + 90) / 10, x = (lon + 180) / 10;
	int i = std::min(17, std::max(0, (int)std::floor(y))), j = std::min(35, std::max(0, (int)std::floor(x)));
	double fy = y - i, fx = x - j;
	double sw = t[i][j], se = t[i][j + 1], nw = t[i + 1][j], ne = t[i + 1][j + 1];
	double v = sw * (1 - fx) * (1 - fy) + se * fx * (1 - fy) + nw * (1 - fx) * fy + ne * fx * fy;
	double lo = std::min(std::min(sw, se), std::min(nw, ne)), hi = std::max(std::max(sw, se), std::max(nw, ne));
	double tol = 2e-6 * (hi - lo) + 4e-7 * std::max(std::fabs(lo), std::fabs(hi)) + 1e-6;
	return {v * 1e-4, tol * 1e-4, lo * 1e-4, hi * 1e-4};
}
static float genLat(pbt::Ctx &c)
{
	switch (c.g.below(6)) {
	case 0: return (float)c.g.sym(90);
	case 1: c.cls("lat node"); return -90 + 10 * (float)c.g.below(19);
	case 2: { c.cls("lat next to node"); float n = -90 + 10 * (float)c.g.below(19); return nextafterf(n, c.g.chance(0.5) ? 1000 : -1000); }
	case 3: { c.cls("lat near node"); return -90 + 10 * (float)c.g.below(19) + (float)c.g.signedLog(1e-6, 1); }
	case 4: c.cls("lat beyond pole"); return (float)((c.g.below(2) ? -1 : 1) * (90 + c.g.logu(1e-5, 1e5)));
	default: c.cls("lat polar row"); return (float)((c.g.below(2) ? -1 : 1) * c.g.real(80, 90));
	}
}
static float genLon(pbt::Ctx &c)
{
	switch (c.g.below(7)) {
	case 0: return (float)c.g.sym(180);
	case 1: c.cls("lon node"); return -180 + 10 * (float)c.g.below(37);
	case 2: { c.cls("lon next to node"); float n = -180 + 10 * (float)c.g.below(37); return nextafterf(n, c.g.chance(0.5) ? 1000 : -1000); }
	case 3: { c.cls("lon near node"); return -180 + 10 * (float)c.g.below(37) + (float)c.g.signedLog(1e-6, 1); }
	case 4: c.cls("lon next turn"); return (float)((c.g.below(2) ? -1 : 1) * c.g.real(180, 540));
	case 5: c.cls("lon 0..360"); return (float)c.g.real(0, 360);
	default: c.cls("lon last column"); return (float)((c.g.below(2) ? -1 : 1) * c.g.real(169, 181));
	}
}
LAW(interpolation, 1600000, 36000000)
{
	const float lat = genLat(c), lon = genLon(c); const Q &q = QS[c.g.below(3)];
	const Ref r = ref(q.t, lat, lon);
	const float v = q.base(lat, lon);
	c.note("%s lat %.9g lon %.9g -> %.9g", q.name, lat, lon, v);
	c.nontrivial(r.hi > r.lo);
	c.close(v, r.v, r.tol, "interpolated value");
	PBT_CHECK(c, v >= r.lo - r.tol && v <= r.hi + r.tol, "%s at lat %.9g lon %.9g = %.9g outside its four nodes [%.9g, %.9g]", q.name, lat, lon, v, r.lo, r.hi);
	const float w = q.variant(lat, lon);
	c.close(w, (double)v * q.variantScale, 4e-7 * std::fabs(v * q.variantScale) + 1e-30, "unit variant");
}
// every node, in all three longitude branches
LAW(all_nodes, 8, 8)
{
	for (const Q &q : QS) for (int i = 0; i < 19; i++) for (int j = 0; j < 37; j++) for (int k = -1; k <= 1; k++) {
		const float lat = -90 + 10 * i, lon = -180 + 10 * j + 360 * k;
		if (lon < -540 || lon > 540) { continue; }
		const float v = q.base(lat, lon);
		if (std::fabs(v - q.t[i][j] * 1e-4) > 1e-6 * std::fabs(v) + 1e-9) { c.fail("%s at node lat %g lon %g: got %.9g, grid value %.9g", q.name, lat, lon, v, q.t[i][j] * 1e-4); }
	}
	c.note("all %d grid nodes", 3 * 19 * 37);
	c.nontrivial();
}
// longitudes one turn apart name the same place; a pole row holds beyond the pole
LAW(periodic, 400000, 9000000)
{
	const float lat = genLat(c); const Q &q = QS[c.g.below(3)];
	float lon = (float)c.g.sym(180);
	lon = std::round(lon * 256) / 256; // keeps lon +- 360 exact in float
	const float sgn = c.g.below(2) ? -1.f : 1.f, lon2 = lon + 360 * sgn;
	if (std::fabs(lon2) > 540) { c.discard(); }
	const Ref r = ref(q.t, lat, lon);
	c.note("%s lat %.9g lon %.9g and %.9g", q.name, lat, lon, lon2); c.nontrivial(r.hi > r.lo);
	c.close(q.base(lat, lon2), q.base(lat, lon), 2 * r.tol, "value one turn away");
	const float pole = lat > 0 ? 90 : -90, beyond = pole * (float)c.g.logu(1.0001, 1e4);
	c.close(q.base(beyond, lon), q.base(pole, lon), 2 * r.tol + 1e-9, "value beyond the pole");
}
// continuity: adjacent floats give values that differ by no more than the cell slopes allow
LAW(continuity, 400000, 9000000)
{
	const float lat = genLat(c), lon = genLon(c); const Q &q = QS[c.g.below(3)];
	const float h = (float)c.g.logu(1e-5, 0.1);
	const float lat2 = lat + (c.g.below(2) ? h : -h), lon2 = lon + (c.g.below(2) ? h : -h);
	if (std::fabs(lon2) > 540) { c.discard(); }
	double slope = 0; // largest change between neighbouring nodes around either point
	for (float la : {lat, lat2}) for (float lo : {lon, lon2}) { Ref r = ref(q.t, la, lo); slope = std::max(slope, (r.hi - r.lo) / 10); }
	const double dl = std::fabs((double)lat2 - lat) + std::fabs((double)lon2 - lon);
	c.note("%s (%.9g,%.9g) (%.9g,%.9g)", q.name, lat, lon, lat2, lon2); c.nontrivial(slope > 0);
	c.close(q.base(lat, lon), q.base(lat2, lon2), slope * dl * 1.05 + 2 * ref(q.t, lat, lon).tol + 2 * ref(q.t, lat2, lon2).tol, "change between nearby points");
}
int main(int argc, char **argv) { return pbt::run("G01", "case = quantity and a latitude/longitude drawn from nodes, float neighbours of nodes, cell borders, polar rows, beyond the poles and one turn around; non-trivial when the four surrounding nodes differ", argc, argv); }
