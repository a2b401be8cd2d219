// P07: point inversion returns a parameter of the domain whose curve point is a closest point
#include "common.h"
using namespace H;

struct Closest { ld d; ld t; ld sag; };
// reference closest point: dense sampling of every span, local refinement of the best samples
static Closest refClosest(const LN_NurbsCurve& c, const V3& p, int per = 160)
{
	Closest best{ 1e300L, 0, 0 };
	int q = c.Degree;
	const Knots& U = c.KnotVector;
	struct Cand { ld d, t, h; int span; };
	std::vector<Cand> cand;
	V3 prev, prev2;
	int have = 0;
	for (int i = q; i < (int)U.size() - q - 1; i++)
	{
		if (!(U[i] < U[i + 1])) continue;
		ld h = ((ld)U[i + 1] - U[i]) / per;
		have = 0;
		std::vector<ld> d(per + 1);
		for (int k = 0; k <= per; k++)
		{
			ld t = U[i] + h * k;
			V3 x = refCurveH(c, t, 0, i).proj();
			d[k] = dist(x, p);
			if (have >= 2) best.sag = std::max(best.sag, dist(prev, (x + prev2) * 0.5L));
			prev2 = prev; prev = x; have++;
		}
		for (int k = 0; k <= per; k++)
			if ((k == 0 || d[k] <= d[k - 1]) && (k == per || d[k] <= d[k + 1])) cand.push_back({ d[k], U[i] + h * k, h, i });
	}
	std::sort(cand.begin(), cand.end(), [](const Cand& a, const Cand& b) { return a.d < b.d; });
	for (size_t j = 0; j < cand.size() && j < 6; j++)
	{
		ld a = std::max((ld)U[cand[j].span], cand[j].t - cand[j].h), b = std::min((ld)U[cand[j].span + 1], cand[j].t + cand[j].h);
		const ld g = 0.6180339887498948482L;
		for (int it = 0; it < 70; it++)
		{
			ld x = b - g * (b - a), y = a + g * (b - a);
			if (dist(refCurveH(c, x, 0, cand[j].span).proj(), p) < dist(refCurveH(c, y, 0, cand[j].span).proj(), p)) b = y; else a = x;
		}
		ld t = (a + b) / 2, d = dist(refCurveH(c, t, 0, cand[j].span).proj(), p);
		if (d < best.d) best.d = d, best.t = t;
		if (cand[j].d < best.d) best.d = cand[j].d, best.t = cand[j].t;
	}
	return best;
}
static LN_NurbsCurve inversionCurve(Ctx& ctx, bool regular)
{
	CurveOpt o;
	o.maxP = 6;
	o.maxInterior = 4;
	o.maxWeightMode = 1;
	o.minGap = 0.08;
	o.scale = ctx.rng.chance(0.5) ? 10 : ctx.rng.logu(1, 300);
	if (regular) { o.pointMode = 2; o.minP = 2; o.multChance = 0.15; }
	return genCurve(ctx, o);
}

SCENARIO(on_curve, 4)
{
	LN_NurbsCurve c = inversionCurve(ctx, ctx.rng.chance(0.5)), c0 = c;
	double t = genParam(ctx, c);
	XYZ p = refPoint(c, t).xyz();
	ctx.dump("t", t);
	ctx.dump("point", p);
	double u = NurbsCurve::GetParamOnCurve(c, p);
	ctx.check(identical(c, c0), "input-untouched", "GetParamOnCurve modified its input");
	ctx.check(u >= lo(c) - 1e-9 * (1 + fabs(lo(c))) && u <= hi(c) + 1e-9 * (1 + fabs(hi(c))), "param-in-domain", strf("returned %.17g, domain [%.17g, %.17g]", u, lo(c), hi(c)));
	ld d = dist(refPoint(c, u), V3(p));
	ld slow = refDers(c, t, 1)[1].len() < 0.02L ? 1e-3L * maxAbs(c) : 0;
	ctx.check(d <= 2e-4L + slow + 1e-9L * maxAbs(c), "inversion-on-curve", strf("point at t=%.12g inverted to %.12g, %.3Lg away", t, u, d));
}

SCENARIO(off_curve, 3)
{
	bool reg = ctx.rng.chance(0.6);
	LN_NurbsCurve c = inversionCurve(ctx, reg);
	double sc = (double)maxAbs(c);
	XYZ p = refPoint(c, genParam(ctx, c)).xyz() + genPoint(ctx.rng, sc * ctx.rng.logu(0.01, 1.5));
	ctx.dump("point", p);
	double u = NurbsCurve::GetParamOnCurve(c, p);
	ctx.check(u >= lo(c) - 1e-9 * (1 + fabs(lo(c))) && u <= hi(c) + 1e-9 * (1 + fabs(hi(c))), "param-in-domain", strf("returned %.17g, domain [%.17g, %.17g]", u, lo(c), hi(c)));
	Closest b = refClosest(c, p);
	ld d = dist(refPoint(c, u), V3(p));
	// the library seeds its iteration on a polyline with 99 chords per span: allow for its sag
	ctx.bucket("sag", b.sag < 1e-3L * sc ? "small" : "large");
	ctx.check(d <= b.d + 2e-4L + 8 * b.sag + 1e-6L * sc, "inversion-closest", strf("returned %.12g at distance %.9Lg, but %.12Lg is at %.9Lg (sag %.3Lg)", u, d, b.t, b.d, b.sag));
}

// no corners and no (nearly) stationary points
static bool regularCurve(const LN_NurbsCurve& c)
{
	ld a = 1e300L, b = 0;
	for (auto& q : groups(c.KnotVector)) if (q.first > lo(c) && q.first < hi(c) && q.second >= c.Degree) return false;
	for (double t : sampleParams(c.Degree, c.KnotVector, 24)) { ld s = refDers(c, t, 1)[1].len(); a = std::min(a, s); b = std::max(b, s); }
	return a > 0.03L * b;
}
SCENARIO(all_params, 2)
{
	LN_NurbsCurve c = inversionCurve(ctx, ctx.rng.chance(0.6));
	if (!regularCurve(c)) { ctx.cls("irregular"); return; }
	double t = genParam(ctx, c, P_INNER);
	XYZ p = refPoint(c, t).xyz();
	ctx.dump("t", t);
	auto v = NurbsCurve::GetAllParamsOnCurve(c, p);
	ctx.check(!v.empty(), "all-params-nonempty", "no parameter for a point on the curve");
	ld best = 1e300L;
	for (double u : v)
	{
		ctx.check(u >= lo(c) - 1e-6 * (1 + fabs(lo(c))) && u <= hi(c) + 1e-6 * (1 + fabs(hi(c))), "param-in-domain", strf("returned %.17g, domain [%.17g, %.17g]", u, lo(c), hi(c)));
		best = std::min(best, dist(refPoint(c, u), V3(p)));
	}
	// (the library's iteration stops where the squared speed is below 1e-6)
	ld slow = refDers(c, t, 1)[1].len() < 0.02L ? 1e-3L * maxAbs(c) : 0;
	ctx.check(best <= 2e-4L + slow + 1e-9L * maxAbs(c), "all-params-contain-point", strf("none of %zu parameters is within tolerance of the point (best %.3Lg)", v.size(), best));
	for (size_t i = 0; i < v.size(); i++)
		for (size_t j = i + 1; j < v.size(); j++)
			ctx.check(fabs(v[i] - v[j]) > 1e-7, "all-params-distinct", strf("parameters %.17g and %.17g", v[i], v[j]));
}

// closed curves: the two ends of the domain are one point, and it is reported once
SCENARIO(all_params_closed, 1)
{
	Rng& g = ctx.rng;
	LN_NurbsCurve c;
	// a closed polygon-like control net around the origin: regular, and no point of it is close to another branch
	int n = g.irange(5, 9), p = g.irange(2, 4);
	double a = g.uni(-5, 5), len = g.logu(0.5, 20);
	c.Degree = p;
	for (int i = 0; i <= p; i++) c.KnotVector.push_back(a);
	for (int i = 1; i < n - p; i++) c.KnotVector.push_back(a + len * i / (n - p));
	for (int i = 0; i <= p; i++) c.KnotVector.push_back(a + len);
	for (int i = 0; i < n; i++)
	{
		double th = 2 * Constants::Pi * i / (n - 1);
		c.ControlPoints.push_back(i == n - 1 ? c.ControlPoints[0] : XYZW(XYZ(8 * cos(th), 8 * sin(th), g.uni(-1, 1)), g.uni(0.7, 1.4)));
	}
	ctx.dump("curve", c);
	double t = g.chance(0.4) ? (g.chance(0.5) ? lo(c) : hi(c)) : g.uni(lo(c), hi(c));
	ctx.cls(strf("closed %d %d %d", p, n, t == lo(c) || t == hi(c)));
	ctx.dump("t", t);
	XYZ q = refPoint(c, t).xyz();
	auto v = NurbsCurve::GetAllParamsOnCurve(c, q);
	ld best = 1e300L;
	for (double u : v) best = std::min(best, dist(refPoint(c, u), V3(q)));
	ctx.check(best <= 2e-4L, "all-params-contain-point", strf("none of %zu parameters is within tolerance of the point (best %.3Lg)", v.size(), best));
	for (size_t i = 0; i < v.size(); i++)
		for (size_t j = i + 1; j < v.size(); j++)
		{
			double d = fabs(v[i] - v[j]);
			ctx.check(std::min(d, fabs(d - len)) > 1e-7, "all-params-distinct", strf("closed curve, parameters %.17g and %.17g", v[i], v[j]));
		}
}

// every crossing of a self-intersecting planar curve: two different parameters with the same point
SCENARIO(double_point, 1)
{
	// cubic Bezier loop (0,0) (a,b) (-a',b) (1,0): symmetric curves cross themselves on the axis of symmetry
	Rng& g = ctx.rng;
	double a = g.uni(3, 8), h = g.uni(2, 8);
	LN_NurbsCurve c;
	c.Degree = 3;
	c.KnotVector = { 0,0,0,0,1,1,1,1 };
	c.ControlPoints = { XYZW(XYZ(-1, 0, 0), 1), XYZW(XYZ(a, h, 0), 1), XYZW(XYZ(-a, h, 0), 1), XYZW(XYZ(1, 0, 0), 1) };
	ctx.dump("curve", c);
	ctx.cls("loop");
	// x(t) = 0 for some t in (0, 1/2): bisection
	ld x0 = 1e-3L, x1 = 0.5L - 1e-3L;
	if (!(refPoint(c, x0).x * refPoint(c, x1).x < 0)) return;
	for (int i = 0; i < 100; i++) { ld m = (x0 + x1) / 2; if (refPoint(c, m).x * refPoint(c, x0).x > 0) x0 = m; else x1 = m; }
	if (x0 < 0.03L || x0 > 0.42L) return;
	XYZ p = refPoint(c, x0).xyz();
	auto v = NurbsCurve::GetAllParamsOnCurve(c, p);
	bool A = false, B = false;
	for (double u : v) { if (fabsl(u - x0) < 1e-3L) A = true; if (fabsl(u - (1 - x0)) < 1e-3L) B = true; }
	ctx.check(A && B, "all-params-complete", strf("double point at %.9Lg and %.9Lg, %zu parameters returned", x0, 1 - x0, v.size()));
}
#include "main.inc"
