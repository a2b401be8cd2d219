// P02: curve point evaluation
#include "common.h"
using namespace H;

// the corner cutting routine treats a parameter within 1e-6 of a knot as that knot
static ld snap(const LN_NurbsCurve& c, double t, int span)
{
	bool near = false;
	for (double u : c.KnotVector) if (u != t && fabs(u - t) <= 1.1e-6 * (1 + std::max(fabs(u), fabs(t)))) near = true;
	if (!near) return 0;
	ld a = refCurveMag(c, t, 1, span), w = fabsl(refCurveH(c, t, 0, span).w), b = refCurveMag(c, t, 0, span);
	return 4e-6L * (1 + fabsl(t)) * (a / w) * (1 + b / w) * c.Degree;
}
SCENARIO(point_all_algorithms, 5)
{
	CurveOpt o;
	o.closeChance = 0.1;
	LN_NurbsCurve c = genCurve(ctx, o);
	NurbsCurve::Check(c);
	ld tol = pointTol(c), m = maxAbs(c);
	for (int rep = 0; rep < 8; rep++)
	{
		double t = genParam(ctx, c);
		ctx.dump("t", t);
		int span = Polynomials::GetKnotSpanIndex(c.Degree, c.KnotVector, t);
		V3 want = refCurveH(c, t, 0, span).proj();
		XYZ got = NurbsCurve::GetPointOnCurve(c, t);
		nearPt(ctx, got, want, tol, "point-value", strf("GetPointOnCurve(%.17g)", t));
		// continuity with the exact definition (span chosen independently)
		nearPt(ctx, got, refPoint(c, t), tol + 1e-4L * m * weightRatio(c), "point-definition", "point by the independent span");
		nearPt(ctx, NurbsCurve::GetPointOnCurveByCornerCut(c, t), want, tol * 10 + snap(c, t, span), "point-by-corner-cutting", strf("GetPointOnCurveByCornerCut(%.17g)", t));
		XYZW h = BsplineCurve::GetPointOnCurve(c, t);
		V4 hw = refCurveH(c, t, 0, span);
		ld ht = 1e-11L * (refCurveMag(c, t, 0, span) + 1e-3L);
		ctx.near(h.GetWX(), hw.x, ht, "homogeneous-point", "wx");
		ctx.near(h.GetWY(), hw.y, ht, "homogeneous-point", "wy");
		ctx.near(h.GetWZ(), hw.z, ht, "homogeneous-point", "wz");
		ctx.near(h.GetW(), hw.w, ht, "homogeneous-point", "w");
		// the derivative routines return the point as order zero
		auto d = NurbsCurve::ComputeRationalCurveDerivatives(c, 1, t);
		nearPt(ctx, d[0], want, tol, "point-as-zeroth-derivative", "ComputeRationalCurveDerivatives[0]");
		// convex hull of the active control points (bounding box of it)
		V3 mn(1e300L, 1e300L, 1e300L), mx(-1e300L, -1e300L, -1e300L);
		for (int i = span - c.Degree; i <= span; i++)
		{
			V3 q = V4(c.ControlPoints[i]).proj();
			mn = V3(std::min(mn.x, q.x), std::min(mn.y, q.y), std::min(mn.z, q.z));
			mx = V3(std::max(mx.x, q.x), std::max(mx.y, q.y), std::max(mx.z, q.z));
		}
		V3 g(got);
		bool in = g.x >= mn.x - tol && g.y >= mn.y - tol && g.z >= mn.z - tol && g.x <= mx.x + tol && g.y <= mx.y + tol && g.z <= mx.z + tol;
		bool inside = t > lo(c) + 1e-4 * (hi(c) - lo(c)) && t < hi(c) - 1e-4 * (hi(c) - lo(c));
		if (inside || t == lo(c) || t == hi(c)) ctx.check(in, "convex-hull", "point leaves the box of its active control points");
	}
	// end point interpolation
	nearPt(ctx, NurbsCurve::GetPointOnCurve(c, lo(c)), V4(c.ControlPoints.front()).proj(), tol, "endpoint-start", "clamped start");
	nearPt(ctx, NurbsCurve::GetPointOnCurve(c, hi(c)), V4(c.ControlPoints.back()).proj(), tol, "endpoint-end", "clamped end");
}

SCENARIO(unclamped_point, 2)
{
	CurveOpt o;
	o.closeChance = 0.1;
	o.allowUnclamped = true;
	LN_NurbsCurve c = genCurve(ctx, o);
	ld tol = pointTol(c);
	for (int rep = 0; rep < 6; rep++)
	{
		double t = genParam(ctx, c);
		int span = Polynomials::GetKnotSpanIndex(c.Degree, c.KnotVector, t);
		nearPt(ctx, NurbsCurve::GetPointOnCurve(c, t), refCurveH(c, t, 0, span).proj(), tol, "point-value", strf("GetPointOnCurve(%.17g)", t));
	}
}

// local control: moving a control point changes the curve only on its support
SCENARIO(local_support, 1)
{
	CurveOpt o;
	o.closeChance = 0.1;
	o.maxWeightMode = 1;
	LN_NurbsCurve c = genCurve(ctx, o), e = c;
	int i = ctx.rng.irange(0, (int)c.ControlPoints.size() - 1);
	e.ControlPoints[i] = XYZW(c.ControlPoints[i].ToXYZ(true) + XYZ(3, -2, 1), c.ControlPoints[i].GetW() * ctx.rng.uni(0.5, 2));
	for (double t : sampleParams(c.Degree, c.KnotVector, 3))
	{
		int s1 = Polynomials::GetKnotSpanIndex(c.Degree, c.KnotVector, t);
		bool active = i >= s1 - c.Degree && i <= s1;
		ld d = dist(NurbsCurve::GetPointOnCurve(c, t), NurbsCurve::GetPointOnCurve(e, t));
		if (!active) ctx.near(d, 0, 1e-9L * (1 + maxAbs(c)), "local-control", strf("control point %d moved the curve at t=%.12g outside its support", i, t).c_str());
		else
		{
			V3 w = refCurveH(e, t, 0, s1).proj();
			nearPt(ctx, NurbsCurve::GetPointOnCurve(e, t), w, pointTol(e), "point-value", "edited curve");
		}
	}
}
#include "main.inc"
