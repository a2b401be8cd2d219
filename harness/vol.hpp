// helpers shared by the volume drivers
#pragma once
#include "surf.hpp"
#include "UVW.h"
namespace H
{
static const VolumeDirection VD[3] = { VolumeDirection::U, VolumeDirection::V, VolumeDirection::W };
inline const Knots& kv(const LN_NurbsVolume& s, int d) { return d == 0 ? s.KnotVectorU : d == 1 ? s.KnotVectorV : s.KnotVectorW; }
inline int deg(const LN_NurbsVolume& s, int d) { return d == 0 ? s.DegreeU : d == 1 ? s.DegreeV : s.DegreeW; }
inline size_t dim(const LN_NurbsVolume& s, int d) { return d == 0 ? s.ControlPoints.size() : d == 1 ? s.ControlPoints[0].size() : s.ControlPoints[0][0].size(); }
inline double vlo(const LN_NurbsVolume& s, int d) { return lo(deg(s, d), kv(s, d)); }
inline double vhi(const LN_NurbsVolume& s, int d) { return hi(deg(s, d), kv(s, d)); }
inline ld wRatio(const LN_NurbsVolume& s)
{
	ld a = 1e300L, b = 0;
	for (auto& p : s.ControlPoints) for (auto& r : p) for (auto& q : r) { a = std::min(a, (ld)q.GetW()); b = std::max(b, (ld)q.GetW()); }
	return b / a;
}
inline ld volTol(const LN_NurbsVolume& s) { return 1e-9L * wRatio(s) * (1e-3L + maxAbs(s)); }
inline bool identicalV(const LN_NurbsVolume& a, const LN_NurbsVolume& b)
{
	for (int d = 0; d < 3; d++) if (deg(a, d) != deg(b, d) || kv(a, d) != kv(b, d)) return false;
	if (a.ControlPoints.size() != b.ControlPoints.size()) return false;
	for (size_t i = 0; i < a.ControlPoints.size(); i++)
	{
		if (a.ControlPoints[i].size() != b.ControlPoints[i].size()) return false;
		for (size_t j = 0; j < a.ControlPoints[i].size(); j++)
		{
			if (a.ControlPoints[i][j].size() != b.ControlPoints[i][j].size()) return false;
			for (size_t l = 0; l < a.ControlPoints[i][j].size(); l++) for (int k = 0; k < 4; k++) if (a.ControlPoints[i][j][l][k] != b.ControlPoints[i][j][l][k]) return false;
		}
	}
	return true;
}
inline LN_NurbsVolume dirtyVolume()
{
	LN_NurbsVolume s;
	s.DegreeU = s.DegreeV = s.DegreeW = 1;
	s.KnotVectorU = s.KnotVectorV = s.KnotVectorW = { 0, 0, 1, 1 };
	s.ControlPoints = std::vector<std::vector<std::vector<XYZW>>>(2, std::vector<std::vector<XYZW>>(2, std::vector<XYZW>(2, XYZW(1, 2, 3, 1))));
	return s;
}
inline void validVolume(Ctx& ctx, const LN_NurbsVolume& v, const char* monitor)
{
	std::string e = invalidVolume(v);
	ctx.check(e.empty(), monitor, "invalid volume: " + e);
}
// r at f(u,v,w) equals s at (u,v,w) on a grid over r's own samples mapped back, domain of s
inline void sameVolume(Ctx& ctx, const LN_NurbsVolume& s, const LN_NurbsVolume& r, std::function<void(ld*, ld*)> f, const double* a, const double* b, ld tol, const char* monitor)
{
	for (int c = 0; c < 28; c++)
	{
		ld x[3], y[3];
		for (int d = 0; d < 3; d++)
		{
			ld t = c < 8 ? ((c >> d) & 1) : ctx.rng.uni();
			x[d] = a[d] + t * (b[d] - a[d]);
			if (c >= 8 && ctx.rng.chance(0.25)) { double k = ctx.rng.pick(kv(s, d)); if (k >= a[d] && k <= b[d]) x[d] = k; }
			y[d] = x[d];
		}
		if (f) f(x, y);
		nearPt(ctx, refPoint(r, y[0], y[1], y[2]), refPoint(s, x[0], x[1], x[2]), tol, monitor, strf("(%.12Lg,%.12Lg,%.12Lg)", x[0], x[1], x[2]));
	}
}
}
