// P05: knot removal, degree elevation and reduction
#include "common.h"
#include "ValidationUtils.h"
using namespace H;

static ld maxDev(const LN_NurbsCurve& a, const LN_NurbsCurve& b, int per = 5)
{
	ld d = 0;
	for (double t : sampleParams(a.Degree, a.KnotVector, per)) d = std::max(d, dist(refPoint(a, t), refPoint(b, t)));
	return d;
}

SCENARIO(elevate, 4)
{
	CurveOpt o;
	o.maxP = 6;
	o.allowUnclamped = false;
	LN_NurbsCurve c = genCurve(ctx, o), r;
	int times = ctx.rng.irange(1, std::min(3, 7 - c.Degree));
	ctx.bucket("times", times);
	ctx.note(strf("times=%d", times));
	NurbsCurve::ElevateDegree(c, times, r);
	ctx.check(r.Degree == c.Degree + times, "elevate-degree", strf("degree %d", r.Degree));
	validCurve(ctx, r, "elevate-valid");
	// every distinct knot gains exactly 'times'
	Knots want;
	for (auto& g : groups(c.KnotVector)) for (int i = 0; i < g.second + times; i++) want.push_back(g.first);
	ctx.check(sameKnots(r.KnotVector, want), "elevate-knots", "every distinct knot must gain the elevation count");
	sameCurve(ctx, c, r, nullptr, sampleParams(c.Degree, c.KnotVector, 4), 1e-8L * weightRatio(c) * (1e-3L + maxAbs(c)), "elevate-same-curve");
	double u = genParam(ctx, c, P_INNER);
	nearPt(ctx, NurbsCurve::GetPointOnCurve(r, u), refPoint(c, u), 1e-8L * weightRatio(c) * (1e-3L + maxAbs(c)), "elevate-same-evaluation", "evaluation of the result");
}

SCENARIO(elevate_then_reduce, 3)
{
	CurveOpt o;
	o.maxP = 6;
	o.maxInterior = 0;
	o.maxWeightMode = 1;
	LN_NurbsCurve c = genCurve(ctx, o), e, r;
	NurbsCurve::ElevateDegree(c, 1, e);
	ctx.check(NurbsCurve::ReduceDegree(e, r), "reduce-accepts", "a Bezier curve that was degree elevated must be reducible");
	ctx.check(r.Degree == c.Degree, "reduce-degree", strf("degree %d", r.Degree));
	validCurve(ctx, r, "reduce-valid");
	sameCurve(ctx, c, r, nullptr, sampleParams(c.Degree, c.KnotVector, 8), 1e-7L * weightRatio(c) * (1e-3L + maxAbs(c)), "reduce-same-curve");
	for (size_t i = 0; i < c.ControlPoints.size(); i++)
		nearPt(ctx, r.ControlPoints[i].ToXYZ(true), V3(c.ControlPoints[i].ToXYZ(true)), 1e-6L * weightRatio(c) * (1e-3L + maxAbs(c)), "reduce-round-trip", strf("control point %zu", i));
}

// near the tolerance: small unweighted curves, where the promised bound of 1e-4 is sharp
SCENARIO(reduce_at_tolerance, 2)
{
	Rng& g = ctx.rng;
	int p = g.irange(1, 6);
	LN_NurbsCurve c, e, r;
	c.Degree = p;
	for (int i = 0; i <= p; i++) { c.KnotVector.push_back(0); c.ControlPoints.push_back(XYZW(genPoint(g, 0.02), 1)); }
	for (int i = 0; i <= p; i++) c.KnotVector.push_back(1);
	NurbsCurve::ElevateDegree(c, 1, e);
	double eps = 1e-4 * g.logu(0.05, 100);
	for (int k = g.irange(1, p); k > 0; k--)
	{
		XYZW& q = e.ControlPoints[g.irange(1, p)];
		q = XYZW(q.ToXYZ(true) + genPoint(g, 1).Normalize() * eps, 1);
	}
	ctx.dump("perturbed", e);
	ctx.bucket("degree", p);
	bool ok = NurbsCurve::ReduceDegree(e, r);
	ctx.bucket("accepted", ok);
	if (eps < 1e-6) ctx.check(ok, "reduce-accepts", "a reduction far below the tolerance was refused");
	if (!ok) return;
	validCurve(ctx, r, "reduce-valid");
	ctx.near(maxDev(e, r, 40), 0, 1.02e-4L, "reduce-within-tolerance", "deviation of an accepted reduction");
}
SCENARIO(reduce_any, 2)
{
	CurveOpt o;
	o.maxWeightMode = 1;
	bool bez = ctx.rng.chance(0.8);
	o.maxInterior = bez ? 0 : 3;
	LN_NurbsCurve c = genCurve(ctx, o), r;
	if (c.Degree > 1 && ctx.rng.chance(0.6))
	{
		// nearly reducible: perturb an elevated curve by an amount around the tolerance
		LN_NurbsCurve base = c, e;
		if (base.Degree == 7) return;
		NurbsCurve::ElevateDegree(base, 1, e);
		int i = ctx.rng.irange(1, (int)e.ControlPoints.size() - 2);
		double eps = ctx.rng.logu(1e-9, 1.0);
		XYZW& q = e.ControlPoints[i];
		q = XYZW(q.GetWX() + eps, q.GetWY(), q.GetWZ(), q.GetW());
		c = e;
		ctx.bucket("perturbation", (int)std::floor(std::log10(eps)));
		ctx.dump("perturbed", c);
	}
	bool bezier = (int)c.ControlPoints.size() == c.Degree + 1;
	bool ok = NurbsCurve::ReduceDegree(c, r);
	ctx.bucket("accepted", ok);
	ctx.check(bezier || !ok, "reduce-only-bezier", "reduction of a multi-span curve reported success");
	ctx.check(c.Degree > 1 || !ok, "reduce-not-linear", "a degree one curve cannot be reduced");
	if (!ok) return;
	ctx.check(r.Degree == c.Degree - 1, "reduce-degree", strf("degree %d", r.Degree));
	validCurve(ctx, r, "reduce-valid");
	// an accepted reduction stays within the library's distance tolerance
	ctx.near(maxDev(c, r, 20), 0, 1.1e-4L, "reduce-within-tolerance", "deviation of an accepted reduction");
}

SCENARIO(insert_then_remove, 5)
{
	CurveOpt o;
	o.maxWeightMode = 1;
	o.minGap = 0.08;
	o.scale = ctx.rng.chance(0.5) ? 10 : 1;
	LN_NurbsCurve c = genCurve(ctx, o), e, r;
	Rng& g = ctx.rng;
	double t;
	std::vector<double> inner;
	for (auto& q : groups(c.KnotVector)) if (q.first > lo(c) && q.first < hi(c)) inner.push_back(q.first);
	bool atKnot = !inner.empty() && g.chance(0.4);
	if (atKnot) t = g.pick(inner);
	else
	{
		t = genParam(ctx, c, P_INNER);
		for (auto& q : groups(c.KnotVector)) if (fabs(q.first - t) < 0.03 * (hi(c) - lo(c))) return;
	}
	int s = multOf(c.KnotVector, t);
	if (s >= c.Degree) return;
	int times = g.irange(1, c.Degree - s);
	ctx.bucket("at", atKnot ? "knot" : "between");
	ctx.bucket("times", times);
	ctx.cls(strf("s%d", s));
	ctx.dump("t", t);
	ctx.note(strf("times=%d", times));
	ctx.check(NurbsCurve::InsertKnot(c, t, times, e) == times, "insert-count", "insertion refused");
	LN_NurbsCurve e0 = e;
	ctx.check(NurbsCurve::RemoveKnot(e, t, times, r), "remove-accepts", "a knot that was just inserted must be removable");
	ctx.check(identical(e, e0), "input-untouched", "RemoveKnot modified its input");
	validCurve(ctx, r, "remove-valid");
	ctx.check(sameKnots(r.KnotVector, c.KnotVector), "remove-knots", "removing the inserted knots must give back the knot vector");
	sameCurve(ctx, c, r, nullptr, sampleParams(c.Degree, c.KnotVector, 4), 1e-5L * (1 + maxAbs(c)), "remove-same-curve");
}

// a knot that is not removable: either refused, or (recorded finding) forced when degree-multiplicity is even
SCENARIO(remove_refused, 2)
{
	CurveOpt o;
	o.maxWeightMode = 1;
	o.minGap = 0.08;
	o.minP = 2;
	o.scale = 10;
	o.pointMode = 0;
	LN_NurbsCurve c = genCurve(ctx, o), r;
	std::vector<double> inner;
	for (auto& q : groups(c.KnotVector)) if (q.first > lo(c) && q.first < hi(c)) inner.push_back(q.first);
	int mode = ctx.rng.irange(0, 2);
	ctx.bucket("mode", mode);
	if (mode == 0)
	{
		if (inner.empty()) return;
		double t = ctx.rng.pick(inner);
		int s = multOf(c.KnotVector, t);
		if ((c.Degree - s) % 2 == 0) return; // recorded known finding: removal is forced there
		ctx.dump("t", t);
		bool ok = NurbsCurve::RemoveKnot(c, t, 1, r);
		ctx.bucket("accepted", ok);
		if (ok) { validCurve(ctx, r, "remove-valid"); ctx.near(maxDev(c, r), 0, 1e-2L, "remove-within-tolerance", "accepted removal moves the curve"); }
		else ctx.check(true, "remove-refused", "");
	}
	else
	{
		double t = mode == 1 ? (ctx.rng.chance(0.5) ? lo(c) : hi(c)) : genParam(ctx, c, P_INNER);
		ctx.dump("t", t);
		ctx.check(!NurbsCurve::RemoveKnot(c, t, 1, r), "remove-nonknot-refused", mode == 1 ? "removal of an end knot reported success" : "removal of a parameter that is not a knot reported success");
	}
}

SCENARIO(remove_excessive, 3)
{
	CurveOpt o;
	o.maxWeightMode = 1;
	o.minGap = 0.08;
	o.scale = 10;
	o.pointMode = ctx.rng.chance(0.5) ? 0 : 2;
	LN_NurbsCurve c = genCurve(ctx, o), e = c, r;
	// raise multiplicities without changing the shape
	std::vector<double> inner;
	for (auto& q : groups(c.KnotVector)) if (q.first > lo(c) && q.first < hi(c)) inner.push_back(q.first);
	int raised = 0;
	for (double t : inner)
	{
		int s = multOf(e.KnotVector, t);
		if (s >= c.Degree || ctx.rng.chance(0.5)) continue;
		LN_NurbsCurve z;
		int k = NurbsCurve::InsertKnot(e, t, ctx.rng.irange(1, c.Degree - s), z);
		if (k > 0) { e = z; raised += k; }
	}
	ctx.bucket("raised", std::min(raised, 6));
	ctx.dump("raised", e);
	NurbsCurve::RemoveExcessiveKnots(e, r);
	validCurve(ctx, r, "excessive-valid");
	ctx.check(r.Degree == c.Degree && r.ControlPoints.size() <= c.ControlPoints.size(), "excessive-removed", strf("%zu control points left, %zu are enough", r.ControlPoints.size(), c.ControlPoints.size()));
	ctx.near(maxDev(c, r), 0, 1e-2L, "excessive-same-curve", "shape after removing excessive knots");
	ctx.check(r.KnotVector.front() == c.KnotVector.front() && r.KnotVector.back() == c.KnotVector.back(), "excessive-domain", "domain");
}

PROBE(remove_forced)
{
	// degree 3, simple interior knot 0.66 that the curve needs: removal succeeds and moves the curve
	LN_NurbsCurve c, r;
	c.Degree = 3;
	c.KnotVector = { 0, 0, 0, 0, 0.33, 0.66, 1, 1, 1, 1 };
	for (XYZ p : { XYZ(5, 5, 0), XYZ(10, 10, 0), XYZ(20, 15, 0), XYZ(35, 15, 0), XYZ(45, 10, 0), XYZ(50, 5, 0) }) c.ControlPoints.push_back(XYZW(p, 1));
	bool ok = NurbsCurve::RemoveKnot(c, 0.66, 1, r);
	ctx.check(!ok || maxDev(c, r) < 1e-2L, "remove-within-tolerance", "accepted removal moves the curve");
}
#include "main.inc"
