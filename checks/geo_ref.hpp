// Spherical reference geometry with unit vectors in long double.
#pragma once
#include <cmath>
#include "pbt.hpp"
typedef long double ld;
static const ld PIl = 3.14159265358979323846264338327950288L;
static const ld RE = 6371000.0L;
struct V3 { ld x, y, z; };
static inline ld dot(V3 a, V3 b) { return a.x * b.x + a.y * b.y + a.z * b.z; }
static inline V3 cross(V3 a, V3 b) { return {a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x}; }
static inline ld norm(V3 a) { return std::sqrt(dot(a, a)); }
static inline V3 unitv(ld latDeg, ld lonDeg)
{
	ld la = latDeg * PIl / 180, lo = lonDeg * PIl / 180;
	return {std::cos(la) * std::cos(lo), std::cos(la) * std::sin(lo), std::sin(la)};
}
static inline V3 northv(ld latDeg, ld lonDeg)
{
	ld la = latDeg * PIl / 180, lo = lonDeg * PIl / 180;
	return {-std::sin(la) * std::cos(lo), -std::sin(la) * std::sin(lo), std::cos(la)};
}
static inline V3 eastv(ld lonDeg) { ld lo = lonDeg * PIl / 180; return {-std::sin(lo), std::cos(lo), 0}; }
// angle between unit vectors, accurate for all separations
static inline ld angle(V3 a, V3 b) { return std::atan2(norm(cross(a, b)), dot(a, b)); }
static inline ld dist(ld la1, ld lo1, ld la2, ld lo2) { return RE * angle(unitv(la1, lo1), unitv(la2, lo2)); }
// initial course from 1 to 2
static inline ld course(ld la1, ld lo1, ld la2, ld lo2)
{
	V3 b = unitv(la2, lo2); return std::atan2(dot(b, eastv(lo1)), dot(b, northv(la1, lo1)));
}
// position after travelling s metres on course brg: returned as unit vector
static inline V3 travel(ld la, ld lo, ld brg, ld s)
{
	V3 u = unitv(la, lo), n = northv(la, lo), e = eastv(lo); ld a = s / RE, c = std::cos(a), k = std::sin(a);
	ld cn = std::cos(brg) * k, ce = std::sin(brg) * k;
	return {u.x * c + n.x * cn + e.x * ce, u.y * c + n.y * cn + e.y * ce, u.z * c + n.z * cn + e.z * ce};
}
static inline ld latOf(V3 v) { return std::atan2(v.z, std::sqrt(v.x * v.x + v.y * v.y)) * 180 / PIl; }
static inline ld lonOf(V3 v) { return std::atan2(v.y, v.x) * 180 / PIl; }
static inline ld wrapPi(ld a) { return std::remainder(a, 2 * PIl); }

static inline double genLat(pbt::Ctx &c, double lim = 90)
{
	switch (c.g.below(5)) {
	case 0: return c.g.sym(lim);
	case 1: c.cls("equator"); return c.g.below(2) ? 0.0 : c.g.signedLog(1e-9, 1e-2);
	case 2: c.cls("near pole"); return (c.g.below(2) ? -1 : 1) * (lim - c.g.logu(1e-9, 1));
	case 3: c.cls("exact limit/integer"); return std::round(c.g.sym(lim));
	default: return c.g.sym(lim * 0.7);
	}
}
static inline double genLon(pbt::Ctx &c)
{
	switch (c.g.below(5)) {
	case 0: return c.g.sym(180);
	case 1: c.cls("date line"); return (c.g.below(2) ? -1 : 1) * (180 - c.g.logu(1e-9, 1));
	case 2: return std::round(c.g.sym(180));
	case 3: c.cls("greenwich"); return c.g.signedLog(1e-9, 1e-2);
	default: return c.g.sym(180);
	}
}
