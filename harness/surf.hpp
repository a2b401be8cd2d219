// helpers shared by the surface drivers
#pragma once
#include "common.h"
namespace H
{
inline ld wRatio(const LN_NurbsSurface& s)
{
	ld a = 1e300L, b = 0;
	for (auto& r : s.ControlPoints) for (auto& q : r) { a = std::min(a, (ld)q.GetW()); b = std::max(b, (ld)q.GetW()); }
	return b / a;
}
inline ld surfTol(const LN_NurbsSurface& s) { return 1e-9L * wRatio(s) * (1e-3L + maxAbs(s)); }
inline bool identicalS(const LN_NurbsSurface& a, const LN_NurbsSurface& b)
{
	if (a.DegreeU != b.DegreeU || a.DegreeV != b.DegreeV || a.KnotVectorU != b.KnotVectorU || a.KnotVectorV != b.KnotVectorV || a.ControlPoints.size() != b.ControlPoints.size()) return false;
	for (size_t i = 0; i < a.ControlPoints.size(); i++)
	{
		if (a.ControlPoints[i].size() != b.ControlPoints[i].size()) return false;
		for (size_t j = 0; j < a.ControlPoints[i].size(); j++) for (int k = 0; k < 4; k++) if (a.ControlPoints[i][j][k] != b.ControlPoints[i][j][k]) return false;
	}
	return true;
}
inline std::vector<double> innerKnots(int p, const Knots& U)
{
	std::vector<double> v;
	for (auto& q : groups(U)) if (q.first > lo(p, U) && q.first < hi(p, U)) v.push_back(q.first);
	return v;
}
inline Knots withKnots(Knots U, const std::vector<double>& x) { for (double d : x) U.push_back(d); std::sort(U.begin(), U.end()); return U; }
// an output argument that is not empty: results must not depend on what it held
inline LN_NurbsSurface dirtySurface()
{
	LN_NurbsSurface s;
	s.DegreeU = 1; s.DegreeV = 1;
	s.KnotVectorU = { 0, 0, 1, 1 };
	s.KnotVectorV = { 0, 0, 1, 1 };
	s.ControlPoints = { { XYZW(1, 2, 3, 1), XYZW(4, 5, 6, 1) }, { XYZW(1, 2, 3, 1), XYZW(4, 5, 6, 1) } };
	return s;
}
inline void gridSame(Ctx& ctx, const LN_NurbsSurface& s, const LN_NurbsSurface& r, ld tol, const char* monitor, int per = 2, std::function<void(ld, ld, ld&, ld&)> f = nullptr)
{
	sameSurface(ctx, s, r, f, sampleParams(s.DegreeU, s.KnotVectorU, per), sampleParams(s.DegreeV, s.KnotVectorV, per), tol, monitor);
}
inline ld maxDevS(const LN_NurbsSurface& a, const LN_NurbsSurface& b, int per = 4)
{
	ld d = 0;
	for (double u : sampleParams(a.DegreeU, a.KnotVectorU, per)) for (double v : sampleParams(a.DegreeV, a.KnotVectorV, per)) d = std::max(d, dist(refPoint(a, u, v), refPoint(b, u, v)));
	return d;
}
}
