// P04: knot insertion, refinement and Bezier decomposition preserve the curve
#include "common.h"
using namespace H;

static Knots withKnots(Knots U, const std::vector<double>& x) { for (double d : x) U.push_back(d); std::sort(U.begin(), U.end()); return U; }

SCENARIO(insert_knot, 4)
{
	CurveOpt o;
	o.closeChance = 0.1;
	o.allowUnclamped = ctx.rng.chance(0.2);
	LN_NurbsCurve c = genCurve(ctx, o), r;
	Rng& g = ctx.rng;
	double t;
	std::vector<double> inner;
	for (auto& q : groups(c.KnotVector)) if (q.first > lo(c) && q.first < hi(c)) inner.push_back(q.first);
	bool atKnot = !inner.empty() && g.chance(0.45);
	t = atKnot ? g.pick(inner) : genParam(ctx, c, P_INNER);
	int s = multOf(c.KnotVector, t);
	int times = g.irange(1, c.Degree + 1);
	ctx.bucket("at", atKnot ? "knot" : "between");
	ctx.bucket("fill", s + times > c.Degree + 1 ? "over" : s + times == c.Degree + 1 ? "break" : s + times == c.Degree ? "full" : "partial");
	ctx.cls(strf("s%d t%d", s, times));
	ctx.dump("t", t);
	ctx.note(strf("times=%d", times));
	LN_NurbsCurve c0 = c;
	int n = NurbsCurve::InsertKnot(c, t, times, r);
	ctx.check(identical(c, c0), "input-untouched", "InsertKnot modified its input");
	if (s + times <= c.Degree + 1)
		ctx.check(n == times, "insert-count", strf("asked for %d insertions of %.17g (multiplicity %d, degree %d), %d reported", times, t, s, c.Degree, n));
	else ctx.check(n >= 0 && n <= c.Degree + 1 - s, "insert-count", strf("%d insertions reported", n));
	if (n == 0) return;
	if (n + s <= c.Degree) validCurve(ctx, r, "insert-valid");
	ctx.check(sameKnots(r.KnotVector, withKnots(c.KnotVector, std::vector<double>(n, t))), "insert-knots", "result knots are not the old knots plus the inserted ones");
	ctx.check(r.Degree == c.Degree && r.ControlPoints.size() == c.ControlPoints.size() + n, "insert-structure", "degree or control point count");
	sameCurve(ctx, c, r, nullptr, sampleParams(c.Degree, c.KnotVector, 4), 20 * pointTol(c), "insert-same-curve");
	sameCurve(ctx, c, r, nullptr, { t }, 20 * pointTol(c), "insert-same-curve");
	// the library's own evaluation agrees as well
	double u = genParam(ctx, c, P_INNER);
	nearPt(ctx, NurbsCurve::GetPointOnCurve(r, u), refPoint(c, u), 20 * pointTol(c), "insert-same-evaluation", "evaluation of the result");
	// full multiplicity: the curve point becomes a control point
	if (n + s >= c.Degree)
	{
		ld best = 1e300L;
		for (auto& q : r.ControlPoints) best = std::min(best, dist(V4(q).proj(), refPoint(c, t)));
		ctx.near(best, 0, 20 * pointTol(c), "insert-full-multiplicity", "curve point appears as a control point");
	}
}

// a parameter that agrees with an existing knot only up to rounding
SCENARIO(insert_near_knot, 1)
{
	CurveOpt o;
	o.closeChance = 0.1;
	o.maxWeightMode = 1;
	o.minGap = 0.05;
	LN_NurbsCurve c = genCurve(ctx, o), r;
	Rng& g = ctx.rng;
	std::vector<double> inner;
	for (auto& q : groups(c.KnotVector)) if (q.first > lo(c) && q.first < hi(c)) inner.push_back(q.first);
	if (inner.empty()) return;
	double k = g.pick(inner);
	double t = k + g.sgn() * g.logu(1e-15, 1e-7) * (1 + fabs(k));
	int s = multOf(c.KnotVector, k);
	if (s >= c.Degree) return;
	int times = g.irange(1, c.Degree - s);
	ctx.bucket("side", t < k ? "below" : "above");
	ctx.dump("t", t);
	ctx.note(strf("knot=%.17g times=%d", k, times));
	int n = NurbsCurve::InsertKnot(c, t, times, r);
	ctx.check(n == times, "insert-count", strf("%d insertions reported", n));
	validCurve(ctx, r, "insert-valid");
	ctx.check(sameKnots(r.KnotVector, withKnots(c.KnotVector, std::vector<double>(n, k)), 1e-6), "insert-knots", "result knots are not the old knots plus the inserted ones");
	sameCurve(ctx, c, r, nullptr, sampleParams(c.Degree, c.KnotVector, 4), 1e-3L * (1e-3L + maxAbs(c)), "insert-same-curve");
}

SCENARIO(refine, 4)
{
	CurveOpt o;
	o.closeChance = 0.1;
	LN_NurbsCurve c = genCurve(ctx, o), r;
	Rng& g = ctx.rng;
	int p = c.Degree;
	int k = g.irange(1, 6);
	std::map<double, int> add;
	std::vector<double> inner;
	for (auto& q : groups(c.KnotVector)) if (q.first > lo(c) && q.first < hi(c)) inner.push_back(q.first);
	for (int i = 0; i < k; i++)
	{
		double t = !inner.empty() && g.chance(0.35) ? g.pick(inner) : genParam(ctx, c, P_INNER);
		bool close = false;
		for (auto& q : add) if (q.first != t && fabs(q.first - t) < 1e-3 * (hi(c) - lo(c))) close = true;
		if (close) continue;
		int room = p - multOf(c.KnotVector, t) - add[t];
		if (room > 0) add[t] += g.irange(1, room);
	}
	std::vector<double> x;
	for (auto& q : add) for (int i = 0; i < q.second; i++) x.push_back(q.first);
	if (x.empty()) return;
	ctx.bucket("inserted", (int)std::min<size_t>(x.size(), 8));
	ctx.dump("inserted", x);
	NurbsCurve::RefineKnotVector(c, x, r);
	validCurve(ctx, r, "refine-valid");
	ctx.check(sameKnots(r.KnotVector, withKnots(c.KnotVector, x)), "refine-knots", "result knots are not the old knots plus the inserted ones");
	ctx.check(r.Degree == p && r.ControlPoints.size() == c.ControlPoints.size() + x.size(), "refine-structure", "degree or control point count");
	sameCurve(ctx, c, r, nullptr, sampleParams(p, r.KnotVector, 3), 50 * pointTol(c), "refine-same-curve");
	// refinement equals repeated insertion (control points are unique for given knots)
	LN_NurbsCurve q = c;
	for (auto& e : add) if (e.second > 0) { LN_NurbsCurve z; if (NurbsCurve::InsertKnot(q, e.first, e.second, z) == e.second) q = z; }
	if (q.ControlPoints.size() == r.ControlPoints.size())
		for (size_t i = 0; i < q.ControlPoints.size(); i++)
			nearPt(ctx, r.ControlPoints[i].ToXYZ(true), V3(q.ControlPoints[i].ToXYZ(true)), 50 * pointTol(c), "refine-equals-insert", strf("control point %zu", i));
}

// a new knot close to an existing one, but further away than the tolerance: a knot of its own
SCENARIO(close_knot, 2)
{
	CurveOpt o;
	o.closeChance = 0.1;
	o.minGap = 0.02;
	LN_NurbsCurve c = genCurve(ctx, o), r;
	Rng& g = ctx.rng;
	std::vector<double> ks;
	for (auto& q : groups(c.KnotVector)) ks.push_back(q.first);
	double k = g.pick(ks);
	double d = g.logu(6e-6, 2e-3) * (1 + fabs(k));
	double t = k <= lo(c) ? k + d : k >= hi(c) ? k - d : k + g.sgn() * d;
	for (double q : ks) if (q != k && fabs(q - t) < 2 * d) return;
	if (t <= lo(c) || t >= hi(c)) return;
	int times = g.irange(1, c.Degree);
	ctx.bucket("gap", strf("%d", (int)floor(log10(d))));
	ctx.bucket("api", g.chance(0.5) ? "insert" : "refine");
	ctx.dump("t", t);
	ctx.note(strf("knot=%.17g times=%d", k, times));
	if (ctx.classKey.find("api=insert") != std::string::npos)
	{
		int n = NurbsCurve::InsertKnot(c, t, times, r);
		ctx.check(n == times, "insert-count", strf("%d insertions reported of %d", n, times));
	}
	else
	{
		std::vector<double> x(times, t);
		// the existing knot as well, when there is room
		if (k > lo(c) && k < hi(c) && multOf(c.KnotVector, k) < c.Degree && g.chance(0.5)) { x.push_back(k); std::sort(x.begin(), x.end()); }
		ctx.dump("inserted", x);
		NurbsCurve::RefineKnotVector(c, x, r);
		ctx.check(r.ControlPoints.size() == c.ControlPoints.size() + x.size(), "refine-structure", "control point count");
		ctx.check(sameKnots(r.KnotVector, withKnots(c.KnotVector, x)), "refine-knots", "result knots are not the old knots plus the inserted ones");
	}
	validCurve(ctx, r, "insert-valid");
	sameCurve(ctx, c, r, nullptr, sampleParams(c.Degree, r.KnotVector, 3), 50 * pointTol(c), "close-knot-same-curve");
}

SCENARIO(decompose, 3)
{
	CurveOpt o;
	o.closeChance = 0.1;
	LN_NurbsCurve c = genCurve(ctx, o);
	auto g = groups(c.KnotVector);
	auto b = NurbsCurve::DecomposeToBeziers(c);
	ctx.bucket("spans", (int)g.size() - 1);
	ctx.check(b.size() == g.size() - 1, "decompose-count", strf("%zu segments for %zu spans", b.size(), g.size() - 1));
	for (size_t i = 0; i < b.size(); i++)
	{
		validCurve(ctx, b[i], "decompose-valid");
		ctx.check(b[i].Degree == c.Degree && (int)b[i].ControlPoints.size() == c.Degree + 1, "decompose-structure", "segment is not a Bezier segment of the same degree");
		double a = g[i].first, e = g[i + 1].first;
		for (int k = 0; k <= 6; k++)
		{
			ld t = a + (ld)(e - a) * k / 6;
			ld x = lo(b[i]) + (ld)(hi(b[i]) - lo(b[i])) * k / 6;
			nearPt(ctx, refPoint(b[i], x), refPoint(c, t), 50 * pointTol(c), "decompose-same-curve", strf("segment %zu at local %.3Lg", i, x));
		}
	}
}
#include "main.inc"
