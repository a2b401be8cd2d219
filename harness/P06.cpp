// P06: splitting, extracting, merging, reversing, reparametrising, transforming and (un)clamping keep the geometry
#include "common.h"
using namespace H;

static std::vector<double> between(const LN_NurbsCurve& c, double a, double b, int per = 4)
{
	std::vector<double> r;
	for (double t : sampleParams(c.Degree, c.KnotVector, per)) if (t > a && t < b) r.push_back(t);
	for (int i = 0; i <= 8; i++) r.push_back(a + (b - a) * i / 8);
	r.front() = std::max(r.front(), a);
	return r;
}
static double innerKnotOr(Ctx& ctx, const LN_NurbsCurve& c, double pKnot)
{
	std::vector<double> inner;
	for (auto& q : groups(c.KnotVector)) if (q.first > lo(c) + 1e-9 && q.first < hi(c) - 1e-9) inner.push_back(q.first);
	if (!inner.empty() && ctx.rng.chance(pKnot)) { ctx.bucket("at", "knot"); return ctx.rng.pick(inner); }
	ctx.bucket("at", "between");
	return genParam(ctx, c, P_INNER);
}

SCENARIO(split, 4)
{
	CurveOpt o;
	o.closeChance = 0.1;
	o.allowUnclamped = ctx.rng.chance(0.2);
	LN_NurbsCurve c = genCurve(ctx, o), c0 = c, l, r;
	double t = innerKnotOr(ctx, c, 0.4);
	ctx.cls(strf("m%d", multOf(c.KnotVector, t)));
	ctx.dump("t", t);
	bool ok = NurbsCurve::SplitAt(c, t, l, r);
	ctx.check(ok, "split-accepts", "an interior parameter was rejected");
	ctx.check(identical(c, c0), "input-untouched", "SplitAt modified its input");
	validCurve(ctx, l, "split-valid");
	validCurve(ctx, r, "split-valid");
	ctx.check(l.Degree == c.Degree && r.Degree == c.Degree, "split-degree", "degree changed");
	ctx.near(lo(l), lo(c), 1e-9 * (1 + fabs(lo(c))), "split-domain", "left start");
	ctx.near(hi(l), t, 1e-9 * (1 + fabs(t)), "split-domain", "left end");
	ctx.near(lo(r), t, 1e-9 * (1 + fabs(t)), "split-domain", "right start");
	ctx.near(hi(r), hi(c), 1e-9 * (1 + fabs(hi(c))), "split-domain", "right end");
	sameCurve(ctx, c, l, nullptr, between(c, lo(c), t), 50 * pointTol(c), "split-same-curve");
	sameCurve(ctx, c, r, nullptr, between(c, t, hi(c)), 50 * pointTol(c), "split-same-curve");
	nearPt(ctx, NurbsCurve::GetPointOnCurve(l, hi(l)), V3(NurbsCurve::GetPointOnCurve(r, lo(r))), 50 * pointTol(c), "split-joint", "joint");
}
SCENARIO(split_outside, 1)
{
	CurveOpt o;
	o.closeChance = 0.1;
	LN_NurbsCurve c = genCurve(ctx, o), l, r;
	double t = ctx.rng.chance(0.5) ? lo(c) : hi(c);
	ctx.bucket("at", t == lo(c) ? "start" : "end");
	ctx.check(!NurbsCurve::SplitAt(c, t, l, r), "split-rejects-ends", "splitting at an end of the domain was accepted");
}
// parameter that equals a knot up to rounding
SCENARIO(split_near_knot, 1)
{
	CurveOpt o;
	o.closeChance = 0.1;
	o.maxWeightMode = 1;
	o.minGap = 0.05;
	LN_NurbsCurve c = genCurve(ctx, o), l, r;
	std::vector<double> inner;
	for (auto& q : groups(c.KnotVector)) if (q.first > lo(c) + 1e-9 && q.first < hi(c) - 1e-9) inner.push_back(q.first);
	if (inner.empty()) return;
	double k = ctx.rng.pick(inner), t = k + ctx.rng.sgn() * ctx.rng.logu(1e-15, 1e-8) * (1 + fabs(k));
	ctx.bucket("side", t < k ? "below" : "above");
	ctx.dump("t", t);
	ctx.check(NurbsCurve::SplitAt(c, t, l, r), "split-accepts", "an interior parameter was rejected");
	validCurve(ctx, l, "split-valid");
	validCurve(ctx, r, "split-valid");
	ctx.near(hi(l), t, 1e-6 * (1 + fabs(t)), "split-domain", "left end");
	ctx.near(lo(r), t, 1e-6 * (1 + fabs(t)), "split-domain", "right start");
	ld tol = 1e-4L * (1e-3L + maxAbs(c));
	sameCurve(ctx, c, l, nullptr, between(c, lo(c), t - 1e-5 * (1 + fabs(t))), tol, "split-same-curve");
	sameCurve(ctx, c, r, nullptr, between(c, t + 1e-5 * (1 + fabs(t)), hi(c)), tol, "split-same-curve");
}

SCENARIO(extract, 4)
{
	CurveOpt o;
	o.closeChance = 0.1;
	o.allowUnclamped = ctx.rng.chance(0.15);
	LN_NurbsCurve c = genCurve(ctx, o), c0 = c, r;
	double a, b;
	int it = 0;
	do
	{
		a = ctx.rng.chance(0.2) ? lo(c) : innerKnotOr(ctx, c, 0.4);
		b = ctx.rng.chance(0.2) ? hi(c) : innerKnotOr(ctx, c, 0.4);
		if (a > b) std::swap(a, b);
	} while (b - a < 1e-2 * (hi(c) - lo(c)) && ++it < 50);
	if (b - a < 1e-2 * (hi(c) - lo(c))) return;
	ctx.bucket("range", a == lo(c) ? (b == hi(c) ? "whole" : "head") : b == hi(c) ? "tail" : "middle");
	ctx.cls(strf("ma%d mb%d", multOf(c.KnotVector, a), multOf(c.KnotVector, b)));
	ctx.note(strf("range [%.17g, %.17g]", a, b));
	NurbsCurve::Extract(c, a, b, r);
	ctx.check(identical(c, c0), "input-untouched", "Extract modified its input");
	validCurve(ctx, r, "extract-valid");
	ctx.check(r.Degree == c.Degree, "extract-degree", "degree changed");
	ctx.near(lo(r), a, 1e-9 * (1 + fabs(a)), "extract-domain", "start");
	ctx.near(hi(r), b, 1e-9 * (1 + fabs(b)), "extract-domain", "end");
	sameCurve(ctx, c, r, nullptr, between(c, a, b), 50 * pointTol(c), "extract-same-curve");
}

SCENARIO(merge, 3)
{
	CurveOpt o;
	o.closeChance = 0.1;
	o.maxP = ctx.rng.chance(0.5) ? 7 : 4;
	o.maxPointMode = 2;
	o.minGap = 0.05;
	o.maxWeightMode = 1;
	LN_NurbsCurve a = genCurve(ctx, o), b = genCurve(ctx, o), m;
	// move the second curve so that its homogeneous start point is the first one's end point
	// (or only the same location, with a weight of its own)
	double k = ctx.rng.chance(0.6) ? a.ControlPoints.back().GetW() / b.ControlPoints[0].GetW() : ctx.rng.logu(0.1, 10);
	XYZ d = a.ControlPoints.back().ToXYZ(true) - b.ControlPoints[0].ToXYZ(true);
	for (auto& q : b.ControlPoints) q = XYZW(q.ToXYZ(true) + d, q.GetW() * k);
	ctx.dump("left", a);
	ctx.dump("right", b);
	LN_NurbsCurve a0 = a, b0 = b;
	bool ok = NurbsCurve::Merge(a, b, m);
	ctx.bucket("degrees", a.Degree == b.Degree ? "equal" : a.Degree > b.Degree ? "left" : "right");
	ctx.check(ok, "merge-accepts", "two clamped curves that share their joint were rejected");
	ctx.check(identical(a, a0) && identical(b, b0), "input-untouched", "Merge modified its input");
	validCurve(ctx, m, "merge-valid");
	ctx.check(m.Degree == std::max(a.Degree, b.Degree), "merge-degree", "degree is not the larger one");
	ld tol = 1e-8L * weightRatio(a) * weightRatio(b) * (1e-2L + maxAbs(a) + maxAbs(b));
	double mid = 0.5 * (lo(m) + hi(m));
	for (double t : sampleParams(a.Degree, a.KnotVector, 3))
	{
		double f = (t - lo(a)) / (hi(a) - lo(a));
		if (f > 1 - 1e-7) f = 1 - 1e-7;
		V3 w = refPoint(a, lo(a) + (ld)(hi(a) - lo(a)) * f);
		nearPt(ctx, refPoint(m, lo(m) + (ld)(mid - lo(m)) * f), w, tol, "merge-left", strf("left part at %.9g", f));
	}
	for (double t : sampleParams(b.Degree, b.KnotVector, 3))
	{
		double f = (t - lo(b)) / (hi(b) - lo(b));
		if (f < 1e-7) f = 1e-7;
		V3 w = refPoint(b, lo(b) + (ld)(hi(b) - lo(b)) * f);
		nearPt(ctx, refPoint(m, mid + (ld)(hi(m) - mid) * f), w, tol, "merge-right", strf("right part at %.9g", f));
	}
	double u = ctx.rng.chance(0.3) ? mid : ctx.rng.uni(lo(m), hi(m));
	nearPt(ctx, NurbsCurve::GetPointOnCurve(m, u), refPoint(m, u), tol, "merge-evaluates", "library evaluation of the merged curve");
}
SCENARIO(merge_apart, 1)
{
	CurveOpt o;
	o.closeChance = 0.1;
	o.maxP = 4;
	o.weightMode = 0;
	LN_NurbsCurve a = genCurve(ctx, o), b = genCurve(ctx, o), m;
	// b is moved so that it starts a chosen distance away from the end of a, along one coordinate or all of them
	V3 e = V4(a.ControlPoints.back()).proj(), st = V4(b.ControlPoints[0]).proj();
	double gap = ctx.rng.logu(3e-5, 1) * (1 + (double)maxAbs(a) + (double)maxAbs(b));
	int axis = ctx.rng.irange(0, 3);
	V3 mv = e - st;
	if (axis == 0 || axis == 3) mv.x += gap;
	if (axis == 1 || axis == 3) mv.y -= gap;
	if (axis == 2 || axis == 3) mv.z += gap;
	for (auto& q : b.ControlPoints)
	{
		double w = q.GetW();
		q = XYZW(q.GetWX() + (double)mv.x * w, q.GetWY() + (double)mv.y * w, q.GetWZ() + (double)mv.z * w, w);
	}
	ctx.dump("gap", gap);
	ctx.check(!NurbsCurve::Merge(a, b, m), "merge-rejects-gap", strf("curves %.3g apart were merged", gap));
}
// split, then merge back: same geometry
SCENARIO(split_merge, 1)
{
	CurveOpt o;
	o.closeChance = 0.1;
	o.maxWeightMode = 1;
	o.minGap = 0.05;
	LN_NurbsCurve c = genCurve(ctx, o), l, r, m;
	double t = innerKnotOr(ctx, c, 0.3);
	ctx.dump("t", t);
	ctx.check(NurbsCurve::SplitAt(c, t, l, r), "split-accepts", "an interior parameter was rejected");
	ctx.check(NurbsCurve::Merge(l, r, m), "merge-accepts", "the two halves of a curve were rejected");
	validCurve(ctx, m, "merge-valid");
	double mid = 0.5 * (lo(m) + hi(m));
	sameCurve(ctx, c, m, [&](ld x) { return x <= t ? lo(m) + (x - lo(c)) / (t - lo(c)) * (mid - lo(m)) : mid + (x - t) / (hi(c) - t) * (hi(m) - mid); },
		sampleParams(c.Degree, c.KnotVector, 3), 1e-8L * weightRatio(c) * (1e-2L + maxAbs(c)), "split-merge-roundtrip");
}

SCENARIO(reverse, 2)
{
	CurveOpt o;
	o.closeChance = 0.1;
	o.allowUnclamped = ctx.rng.chance(0.3);
	LN_NurbsCurve c = genCurve(ctx, o), c0 = c, r, rr;
	NurbsCurve::Reverse(c, r);
	ctx.check(identical(c, c0), "input-untouched", "Reverse modified its input");
	validCurve(ctx, r, "reverse-valid");
	double s = c.KnotVector.front() + c.KnotVector.back();
	sameCurve(ctx, c, r, [&](ld t) { return (ld)s - t; }, sampleParams(c.Degree, c.KnotVector, 4), 100 * pointTol(c), "reverse-mirrors-parameter");
	NurbsCurve::Reverse(r, rr);
	ctx.check(sameKnots(rr.KnotVector, c.KnotVector), "reverse-involution", "knots after two reversals");
	for (size_t i = 0; i < c.ControlPoints.size(); i++)
		for (int k = 0; k < 4; k++) ctx.near(rr.ControlPoints[i][k], c.ControlPoints[i][k], 1e-12 * (1 + fabs(c.ControlPoints[i][k])), "reverse-involution", "control point after two reversals");
}

SCENARIO(reparam_affine, 2)
{
	CurveOpt o;
	o.closeChance = 0.1;
	o.allowUnclamped = ctx.rng.chance(0.2);
	LN_NurbsCurve c = genCurve(ctx, o), c0 = c, r;
	double a = ctx.rng.uni(-10, 10), b = a + ctx.rng.logu(0.3, 40);
	if (ctx.rng.chance(0.15)) { a = c.KnotVector.front(); b = a + 2 * (c.KnotVector.back() - a); ctx.bucket("target", "same-start"); }
	else if (ctx.rng.chance(0.15)) { b = c.KnotVector.back(); a = b - 2 * (b - c.KnotVector.front()); ctx.bucket("target", "same-end"); }
	else ctx.bucket("target", "generic");
	ctx.note(strf("target [%.17g, %.17g]", a, b));
	NurbsCurve::Reparametrize(c, a, b, r);
	ctx.check(identical(c, c0), "input-untouched", "Reparametrize modified its input");
	validCurve(ctx, r, "reparam-valid");
	ctx.near(r.KnotVector.front(), a, 1e-9 * (1 + fabs(a)), "reparam-domain", "first knot");
	ctx.near(r.KnotVector.back(), b, 1e-9 * (1 + fabs(b)), "reparam-domain", "last knot");
	double k0 = c.KnotVector.front(), k1 = c.KnotVector.back();
	sameCurve(ctx, c, r, [&](ld t) { return a + (t - k0) / ((ld)k1 - k0) * ((ld)b - a); }, sampleParams(c.Degree, c.KnotVector, 4), 1e3L * pointTol(c), "reparam-same-curve");
}

SCENARIO(reparam_moebius, 2)
{
	CurveOpt o;
	o.closeChance = 0.1;
	o.maxWeightMode = 1;
	o.minGap = 0.05;
	o.simpleDomain = true;
	LN_NurbsCurve c = genCurve(ctx, o), c0 = c, r;
	// g(u) = (alpha u + beta) / (gamma u + delta), denominator of one sign over the domain
	double gm = ctx.rng.chance(0.2) ? 0.0 : ctx.rng.sgn() * ctx.rng.uni(0.2, 3);
	double root = ctx.rng.chance(0.5) ? lo(c) - ctx.rng.uni(0.5, 3) * (hi(c) - lo(c)) : hi(c) + ctx.rng.uni(0.5, 3) * (hi(c) - lo(c));
	double dl = gm == 0 ? ctx.rng.uni(0.3, 3) : -gm * root;
	double al = ctx.rng.uni(-3, 3), be = ctx.rng.uni(-3, 3);
	double det = al * dl - gm * be;
	if (fabs(det) < 0.3) return;
	if (det < 0) { al = -al; be = -be; }
	ctx.bucket("kind", gm == 0 ? "affine" : root < lo(c) ? "pole-left" : "pole-right");
	ctx.note(strf("alpha %.17g beta %.17g gamma %.17g delta %.17g", al, be, gm, dl));
	NurbsCurve::Reparametrize(c, al, be, gm, dl, r);
	ctx.check(identical(c, c0), "input-untouched", "Reparametrize modified its input");
	validCurve(ctx, r, "reparam-valid");
	sameCurve(ctx, c, r, [&](ld t) { return (al * t + be) / (gm * t + dl); }, sampleParams(c.Degree, c.KnotVector, 4), 1e4L * pointTol(c) * weightRatio(r) / weightRatio(c), "reparam-rational-same-curve");
}

static void genAffine(Ctx& ctx, Matrix4d& m, V3 col[4])
{
	Rng& g = ctx.rng;
	for (int i = 0; i < 3; i++) col[i] = V3(g.uni(-2, 2), g.uni(-2, 2), g.uni(-2, 2));
	col[3] = V3(g.uni(-9, 9), g.uni(-9, 9), g.uni(-9, 9));
	m = Matrix4d(col[0].xyz(), col[1].xyz(), col[2].xyz(), col[3].xyz());
	ctx.dump("ex", col[0].xyz()); ctx.dump("ey", col[1].xyz()); ctx.dump("ez", col[2].xyz()); ctx.dump("origin", col[3].xyz());
}
SCENARIO(transform, 2)
{
	CurveOpt o;
	o.closeChance = 0.1;
	LN_NurbsCurve c = genCurve(ctx, o), c0 = c, r;
	Matrix4d m;
	V3 col[4];
	genAffine(ctx, m, col);
	NurbsCurve::CreateTransformed(c, m, r);
	ctx.check(identical(c, c0), "input-untouched", "CreateTransformed modified its input");
	validCurve(ctx, r, "transform-valid");
	ctx.check(r.KnotVector == c.KnotVector, "transform-knots", "knots changed");
	for (double t : sampleParams(c.Degree, c.KnotVector, 3))
	{
		V3 p = refPoint(c, t);
		nearPt(ctx, refPoint(r, t), col[0] * p.x + col[1] * p.y + col[2] * p.z + col[3], 20 * pointTol(c) + 1e-9L, "transform-commutes", strf("t=%.9g", t));
	}
}

SCENARIO(clamp, 2)
{
	CurveOpt o;
	o.closeChance = 0.1;
	o.allowUnclamped = true;
	o.maxWeightMode = 1;
	o.maxMult = 1;
	LN_NurbsCurve c = genCurve(ctx, o), c0 = c, r;
	NurbsCurve::ToClampCurve(c, r);
	ctx.check(identical(c, c0), "input-untouched", "ToClampCurve modified its input");
	validCurve(ctx, r, "clamp-valid");
	ctx.check(NurbsCurve::IsClamp(r), "clamp-is-clamped", "result is not clamped");
	ctx.near(lo(r), lo(c), 1e-9 * (1 + fabs(lo(c))), "clamp-domain", "start");
	ctx.near(hi(r), hi(c), 1e-9 * (1 + fabs(hi(c))), "clamp-domain", "end");
	ctx.check(r.ControlPoints.size() == c.ControlPoints.size(), "clamp-structure", strf("%zu control points became %zu", c.ControlPoints.size(), r.ControlPoints.size()));
	sameCurve(ctx, c, r, nullptr, sampleParams(c.Degree, c.KnotVector, 4), 1e3L * pointTol(c), "clamp-same-curve");
}
SCENARIO(unclamp, 2)
{
	CurveOpt o;
	o.closeChance = 0.1;
	o.maxWeightMode = 1;
	o.minGap = 0.15;
	o.maxMult = 1;
	o.maxP = 5;
	o.maxInterior = 8;
	LN_NurbsCurve c = genCurve(ctx, o), c0 = c, r, rr;
	ctx.check(NurbsCurve::IsClamp(c), "isclamp", "a clamped curve is not recognised");
	if ((int)groups(c.KnotVector).size() - 2 < c.Degree - 1) return; // the knots to copy are the interior ones
	NurbsCurve::ToUnclampCurve(c, r);
	ctx.check(identical(c, c0), "input-untouched", "ToUnclampCurve modified its input");
	validCurve(ctx, r, "unclamp-valid");
	ctx.check(!NurbsCurve::IsClamp(r), "unclamp-is-unclamped", "result is still clamped");
	ctx.near(lo(r), lo(c), 1e-9 * (1 + fabs(lo(c))), "unclamp-domain", "start");
	ctx.near(hi(r), hi(c), 1e-9 * (1 + fabs(hi(c))), "unclamp-domain", "end");
	ld mag = 0;
	for (auto& q : r.ControlPoints) for (int k = 0; k < 4; k++) mag = std::max(mag, fabsl((ld)q[k]));
	sameCurve(ctx, c, r, nullptr, sampleParams(c.Degree, c.KnotVector, 4), 1e-11L * mag * mag * 100 + 1e3L * pointTol(c), "unclamp-same-curve");
	NurbsCurve::ToClampCurve(r, rr);
	validCurve(ctx, rr, "unclamp-clamp-valid");
	sameCurve(ctx, c, rr, nullptr, sampleParams(c.Degree, c.KnotVector, 4), 1e-11L * mag * mag * 100 + 1e3L * pointTol(c), "unclamp-clamp-roundtrip");
}

// predicates agree with the geometry
SCENARIO(predicates, 3)
{
	CurveOpt o;
	o.closeChance = 0.1;
	o.maxWeightMode = 1;
	o.allowUnclamped = ctx.rng.chance(0.3);
	LN_NurbsCurve c = genCurve(ctx, o);
	Rng& g = ctx.rng;
	int n = (int)c.ControlPoints.size();
	int kind = g.irange(0, 4);
	if (kind == 1) // a closed polygon walked 1.x times: control points repeat with period q
	{
		int q = g.irange(2, std::max(2, n - 1));
		for (int i = q; i < n; i++) c.ControlPoints[i] = c.ControlPoints[i - q];
	}
	else if (kind == 2) { XYZ a = genPoint(g, 10), d = genPoint(g, 5); for (auto& w : c.ControlPoints) w = XYZW(a + g.uni(-1, 2) * d, w.GetW()); }
	else if (kind == 3) { int i = g.irange(0, n - 1), j = g.irange(0, n - 1); c.ControlPoints[i] = c.ControlPoints[j]; }
	ctx.bucket("kind", kind);
	ctx.dump("tested", c);
	ld d = dist(refPoint(c, lo(c)), refPoint(c, hi(c)));
	ld sc = 1e-3L + maxAbs(c);
	if (d > 1e-3L * sc) { ctx.bucket("closed", "no"); ctx.check(!NurbsCurve::IsClosed(c), "isclosed", strf("curve with ends %.3Lg apart is reported closed", d)); }
	else if (d < 1e-9L * sc && d < 1e-8L) { ctx.bucket("closed", "yes"); ctx.check(NurbsCurve::IsClosed(c), "isclosed", "closed curve is not recognised"); }
	bool cl = multOf(c.KnotVector, c.KnotVector.front()) == c.Degree + 1 && multOf(c.KnotVector, c.KnotVector.back()) == c.Degree + 1;
	ctx.check(NurbsCurve::IsClamp(c) == cl, "isclamp", strf("clamped=%d misreported", (int)cl));
	// linear: all control points on one line
	ld off = 0;
	V3 p0 = V4(c.ControlPoints[0]).proj(), far = p0;
	for (auto& w : c.ControlPoints) { V3 p = V4(w).proj(); if (dist(p, p0) > dist(far, p0)) far = p; }
	V3 e = (far - p0).unit();
	for (auto& w : c.ControlPoints) off = std::max(off, (V4(w).proj() - p0).cross(e).len());
	if (off > 1e-2L * sc && off > 1e-2L) ctx.check(!NurbsCurve::IsLinear(c), "islinear", strf("control points %.3Lg off the line are reported linear", off));
	else if (off < 1e-9L) ctx.check(NurbsCurve::IsLinear(c), "islinear", strf("collinear control points (off by %.3Lg) are not recognised", off));
}

// periodic: unclamped, uniform and joining itself with degree-1 derivatives
// quadratic, uniform and unclamped, ends and tangent directions meet: periodic only if the tangents are equally long
SCENARIO(periodic_speed, 1)
{
	Rng& g = ctx.rng;
	LN_NurbsCurve c;
	c.Degree = 2;
	int n = g.irange(4, 9);
	double a = g.uni(-3, 3), h = g.uni(0.2, 2);
	for (int i = 0; i <= n + 2; i++) c.KnotVector.push_back(a + h * i);
	for (int i = 0; i < n; i++) c.ControlPoints.push_back(XYZW(genPoint(g, 10), 1));
	XYZ p0 = c.ControlPoints[0].ToXYZ(true), p1 = c.ControlPoints[1].ToXYZ(true), m = (p0 + p1) / 2, d = (p1 - p0) / 2;
	if (d.Length() < 1) return;
	double k = g.chance(0.3) ? 1 : g.chance(0.5) ? g.uni(1.05, 3) : g.uni(0.2, 0.95);
	c.ControlPoints[n - 2] = XYZW(m - d * k, 1);
	c.ControlPoints[n - 1] = XYZW(m + d * k, 1);
	ctx.dump("curve", c);
	ctx.cls(strf("seam speed %d %d", n, k == 1 ? 0 : k > 1 ? 1 : 2));
	bool got = NurbsCurve::IsPeriodic(c);
	if (k == 1) ctx.check(got, "periodic", "a quadratic curve that meets itself with the same tangent is not called periodic");
	else ctx.check(!got, "periodic", strf("the tangents at the seam differ in length by a factor %.3g, yet the curve is called periodic", k));
}
// one control point of a straight control polygon is moved off the line
SCENARIO(linear_but_one, 1)
{
	Rng& g = ctx.rng;
	CurveOpt o;
	o.weightMode = g.irange(0, 1);
	o.maxInterior = 8;
	LN_NurbsCurve c = genCurve(ctx, o);
	int n = (int)c.ControlPoints.size();
	XYZ q = genPoint(g, 10), d = genPoint(g, 1).Normalize(), e = perpTo(g, d);
	bool closed = g.chance(0.3);
	for (int i = 0; i < n; i++) c.ControlPoints[i] = XYZW(q + d * (closed && i == n - 1 ? 0 : closed && i == 0 ? 0 : i == 1 ? 2.5 : g.uni(-9, 9)), c.ControlPoints[i].GetW());
	ctx.dump("straight", c);
	ctx.check(NurbsCurve::IsLinear(c), "islinear", "collinear control points are not recognised");
	if (n < 3) return;
	int k = g.chance(0.4) ? n - 1 : g.irange(0, n - 1);
	double off = g.logu(1e-3, 5);
	if (k <= 1) off = std::max(off, 1.0);   // (moves the line the others are compared with)
	c.ControlPoints[k] = XYZW(c.ControlPoints[k].ToXYZ(true) + e * off, c.ControlPoints[k].GetW());
	ld far = 0;
	for (int i = 0; i < n; i++) if (i != k) far = std::max(far, (ld)fabs((c.ControlPoints[i].ToXYZ(true) - c.ControlPoints[k == 0 ? 1 : 0].ToXYZ(true)).DotProduct(d)));
	if (far < 1 || (k <= 1 && n < 4)) return;
	ctx.dump("bent", c);
	ctx.check(!NurbsCurve::IsLinear(c), "islinear", strf("control point %d of %d is %.3g off the line of the others and the curve is called linear", k, n, off));
}
SCENARIO(periodic, 2)
{
	Rng& g = ctx.rng;
	LN_NurbsCurve c;
	int p = c.Degree = g.irange(1, 5);
	int n = g.irange(p + 1, 3 * p + 5);
	double a = g.uni(-3, 3), h = g.uni(0.2, 2);
	if (g.chance(0.4)) { a = std::round(a); h = 1; }
	int kind = g.irange(0, 4);
	for (int i = 0; i <= n + p; i++) c.KnotVector.push_back(a + h * i);
	int wm = g.irange(0, 1);
	for (int i = 0; i < n; i++) c.ControlPoints.push_back(XYZW(genPoint(g, 10), genWeight(g, wm)));
	bool wrap = kind <= 2;
	if (wrap) for (int i = n - p; i < n; i++) c.ControlPoints[i] = c.ControlPoints[i - (n - p)];
	if (kind == 1 && n >= 2) { int i = g.irange(0, n - 1); int k = g.irange(0, 2); c.ControlPoints[i][k] += g.uni(1, 5) * (g.chance(0.5) ? 1 : -1); }   // one control point moved
	if (kind == 2) for (int i = 0; i <= n + p; i++) if (i == (n + p) / 2) c.KnotVector[i] += 0.3 * h;           // no longer uniform
	if (kind == 4)   // ends meet, tangents do not: move the last control point
	{
		V3 d = refPoint(c, lo(c)) - refPoint(c, hi(c));
		ld N = refN(n - 1, p, c.KnotVector, hi(c), refSpanLeft(p, c.KnotVector, hi(c)));
		if (N > 1e-6L)
		{
			V4 H = refCurveH(c, hi(c), 0, refSpanLeft(p, c.KnotVector, hi(c)));
			for (int k = 0; k < 3; k++) c.ControlPoints[n - 1][k] += (double)((k == 0 ? d.x : k == 1 ? d.y : d.z) * H.w / N);
		}
	}
	ctx.bucket("kind", kind);
	ctx.bucket("degree", p);
	ctx.cls(strf("n%d", n));
	ctx.dump("curve", c);
	ctx.nontrivial = true;
	bool got = NurbsCurve::IsPeriodic(c);
	if (kind == 2) { ctx.check(!got, "periodic", "a curve on a non-uniform knot vector is called periodic"); return; }
	if (kind == 0)
	{
		// a derivative that vanishes at the seam has no direction to compare
		if (n < 2 * p) for (auto& q : refDers(c, lo(c), p - 1, refSpan(p, c.KnotVector, lo(c)))) if (q.len() < 1e-3L) return;
		ctx.check(got, "periodic", "a uniform unclamped curve with repeated control points is not called periodic");
		return;
	}
	// how well do the derivatives up to degree-1 join?
	auto A = refDers(c, lo(c), p - 1, refSpan(p, c.KnotVector, lo(c))), B = refDers(c, hi(c), p - 1, refSpanLeft(p, c.KnotVector, hi(c)));
	ld gap = 0;
	for (int k = 0; k < p; k++) gap = std::max(gap, dist(A[k], B[k]) / (1 + A[k].len()));
	if (gap > 1e-2L) ctx.check(!got, "periodic", strf("derivatives at the seam differ by %.3Lg of their size, yet the curve is called periodic", gap));
	LN_NurbsCurve k;
	NurbsCurve::ToClampCurve(c, k);
	ctx.check(!NurbsCurve::IsPeriodic(k), "periodic", "a clamped curve is called periodic");
}
#include "main.inc"
