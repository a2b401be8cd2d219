// P03: curve derivatives, curvature, torsion and frames
#include "common.h"
using namespace H;

static std::vector<ld> derMags(const LN_NurbsCurve& c, ld t, int d, int span)
{
	// magnitude bounds for the rational derivatives (for tolerances)
	std::vector<ld> a, C;
	V4 h = refCurveH(c, t, 0, span);
	for (int k = 0; k <= d; k++) a.push_back(refCurveMag(c, t, k, span));
	for (int k = 0; k <= d; k++)
	{
		ld v = a[k];
		for (int i = 1; i <= k; i++) v += binom(k, i) * a[i] * C[k - i];
		C.push_back(v / fabsl(h.w));
	}
	return C;
}

SCENARIO(rational_derivatives, 5)
{
	CurveOpt o;
	o.allowUnclamped = true;
	LN_NurbsCurve c = genCurve(ctx, o);
	for (int rep = 0; rep < 5; rep++)
	{
		double t = genParam(ctx, c);
		int d = ctx.rng.irange(1, 5);
		ctx.bucket("order", d);
		ctx.bucket("order-vs-degree", d > c.Degree ? "above" : "within");
		ctx.dump("t", t);
		int span = Polynomials::GetKnotSpanIndex(c.Degree, c.KnotVector, t);
		auto got = NurbsCurve::ComputeRationalCurveDerivatives(c, d, t);
		ctx.check((int)got.size() == d + 1, "derivative-count", strf("%zu derivatives for order %d", got.size(), d));
		auto want = refDers(c, t, d, span);
		auto mag = derMags(c, t, d, span);
		for (int k = 0; k <= d; k++)
			nearPt(ctx, got[k], want[k], 1e-9L * (mag[k] + 1e-6L), "rational-derivative", strf("derivative %d at %.17g", k, t));
		// homogeneous derivatives, both algorithms
		auto h = BsplineCurve::ComputeDerivatives(c, d, t);
		auto g = BsplineCurve::ComputeDerivativesByAllBasisFunctions(c, d, t);
		ctx.check((int)h.size() == d + 1 && (int)g.size() == d + 1, "derivative-count", "homogeneous derivative count");
		for (int k = 0; k <= d; k++)
		{
			V4 w = k <= c.Degree ? refCurveH(c, t, k, span) : V4();
			ld tl = 1e-9L * (refCurveMag(c, t, std::min(k, c.Degree), span) + 1e-6L);
			for (const auto& q : { V4(h[k]), V4(g[k]) })
			{
				V4 e = q - w;
				ctx.near(sqrtl(e.x * e.x + e.y * e.y + e.z * e.z + e.w * e.w), 0, tl, "bspline-derivative", strf("homogeneous derivative %d at %.17g", k, t).c_str());
			}
		}
	}
}

SCENARIO(derivative_control_points, 1)
{
	CurveOpt o;
	LN_NurbsCurve c = genCurve(ctx, o);
	int n = (int)c.ControlPoints.size() - 1;
	int d = ctx.rng.irange(1, c.Degree);
	double t = genParam(ctx, c, P_SMOOTH);
	int span = refSpan(c.Degree, c.KnotVector, t);
	// restrict to the span's own points so that no zero knot differences occur
	auto PK = BsplineCurve::ComputeControlPointsOfDerivatives(c, d, span - c.Degree, span);
	(void)n;
	for (int k = 0; k <= d; k++)
	{
		V4 s;
		for (int j = 0; j <= c.Degree - k; j++)
			s += V4(PK[k][j]) * refN(span - c.Degree + k + j - k + k, c.Degree - k, c.KnotVector, t, span);
		V4 w = refCurveH(c, t, k, span);
		V4 e = s - w;
		ctx.near(sqrtl(e.x * e.x + e.y * e.y + e.z * e.z + e.w * e.w), 0, 1e-9L * (refCurveMag(c, t, k, span) + 1e-6L), "derivative-control-points", strf("derivative curve %d value", k).c_str());
	}
}

static void frameChecks(Ctx& ctx, const LN_NurbsCurve& c, double t)
{
	int span = Polynomials::GetKnotSpanIndex(c.Degree, c.KnotVector, t);
	auto D = refDers(c, t, 3, span);
	auto mag = derMags(c, t, 3, span);
	ld L = D[1].len();
	V3 x = D[1].cross(D[2]);
	ld X = x.len();
	if (!(L > 1e-3L * mag[1])) return; // singular parametrisation: not in the domain
	ld kappa = X / (L * L * L);
	ld ck = mag[1] * mag[2] / (L * L * L);
	ctx.near(NurbsCurve::Curvature(c, t), kappa, 1e-11L * ck + 1e-12L, "curvature", strf("curvature at %.17g (|C'|=%.12Lg)", t, L).c_str());
	if (!(X > 1e-4L * mag[1] * mag[2])) return; // no osculating plane
	V3 b = x / X, T = D[1] / L, n = b.cross(T);
	ld rel = 1e-11L * mag[1] * mag[2] / X + 1e-9L;
	nearPt(ctx, NurbsCurve::Normal(c, CurveNormal::Binormal, t), b, rel, "binormal", strf("binormal at %.17g", t));
	nearPt(ctx, NurbsCurve::Normal(c, CurveNormal::Normal, t), n, rel, "principal-normal", strf("principal normal at %.17g (|C'|=%.12Lg)", t, L));
	ld tau = x.dot(D[3]) / (X * X);
	ctx.near(NurbsCurve::Torsion(c, t), tau, 1e-11L * (mag[1] * mag[2] * mag[3] / (X * X)) + 1e-10L, "torsion", strf("torsion at %.17g (|C'|=%.12Lg)", t, L).c_str());
}

SCENARIO(curvature_frame, 3)
{
	CurveOpt o;
	o.maxWeightMode = 1;
	LN_NurbsCurve c = genCurve(ctx, o);
	for (int rep = 0; rep < 6; rep++)
	{
		double t = genParam(ctx, c, P_ANY);
		ctx.dump("t", t);
		frameChecks(ctx, c, t);
	}
}
// the speed happens to be exactly one at the queried parameter although the curve is not parametrised by arc length
SCENARIO(unit_speed_coincidence, 1)
{
	CurveOpt o;
	o.maxWeightMode = 1;
	o.minP = 2;
	o.simpleDomain = true;
	LN_NurbsCurve c = genCurve(ctx, o);
	double t = genParam(ctx, c, P_SMOOTH);
	ld L = refDers(c, t, 1)[1].len();
	if (L < 1e-3L) return;
	for (auto& q : c.ControlPoints) { double w = q.GetW(); XYZ p = q.ToXYZ(true); q = XYZW(p / (double)L, w); }
	ctx.dump("scaled", c);
	ctx.dump("t", t);
	frameChecks(ctx, c, t);
}
SCENARIO(project_normal, 1)
{
	CurveOpt o;
	o.maxWeightMode = 1;
	o.minP = 2;
	o.pointMode = ctx.rng.chance(0.4) ? 3 : 2;
	o.maxInterior = 4;
	LN_NurbsCurve c = genCurve(ctx, o);
	if (ctx.rng.chance(0.15))
	{
		// a curve that stands still somewhere: doubled control points
		int n = (int)c.ControlPoints.size(), at = ctx.rng.chance(0.4) ? (ctx.rng.chance(0.5) ? 0 : n - 2) : ctx.rng.irange(0, n - 2), len = ctx.rng.irange(2, std::min(n, c.Degree + 1));
		for (int i = at; i < std::min(n, at + len); i++) c.ControlPoints[i] = c.ControlPoints[at];
	}
	auto g = groups(c.KnotVector);
	for (auto& q : g)
	{
		auto D = refDers(c, q.first, 1, Polynomials::GetKnotSpanIndex(c.Degree, c.KnotVector, q.first));
		if (D[1].len() < 1e-2L)
		{
			// no direction there: it still has to come back, with finite vectors
			ctx.bucket("closed", "stands still");
			for (auto& b : NurbsCurve::ProjectNormal(c)) ctx.check(std::isfinite((double)V3(b).len()), "projected-normals", "finite where the curve stands still");
			return;
		}
	}
	bool closed = dist(V4(c.ControlPoints.front()).proj(), V4(c.ControlPoints.back()).proj()) < 1e-9L;
	ctx.bucket("closed", closed);
	auto B = NurbsCurve::ProjectNormal(c);
	ctx.check(B.size() == c.KnotVector.size(), "projected-normals", "one normal per knot");
	for (size_t i = 0; i < B.size(); i++)
	{
		V3 b(B[i]);
		ctx.check(std::isfinite((double)b.len()), "projected-normals", "finite");
		if (closed) continue; // averaged in the closed case: only finiteness and the seam are promised
		V3 T = refDers(c, c.KnotVector[i], 1, Polynomials::GetKnotSpanIndex(c.Degree, c.KnotVector, c.KnotVector[i]))[1].unit();
		ctx.near(b.len(), 1, 1e-6L, "projected-normals", "unit length");
		ctx.near(b.dot(T), 0, 1e-6L, "projected-normals", strf("normal %zu is orthogonal to the tangent", i).c_str());
	}
	if (closed) nearPt(ctx, B.front(), B.back(), 1e-6L, "projected-normals-seam", "closed curve: first and last normal agree");
}
// derivatives agree with finite differences of the evaluated curve
SCENARIO(finite_difference, 1)
{
	CurveOpt o;
	o.maxWeightMode = 1;
	o.minGap = 0.1;
	LN_NurbsCurve c = genCurve(ctx, o);
	double t = genParam(ctx, c, P_SMOOTH);
	ctx.dump("t", t);
	double gap = 1e300;
	for (auto& g : groups(c.KnotVector)) gap = std::min(gap, fabs(g.first - t));
	double h = std::min(gap * 0.4, 1e-4 * (hi(c) - lo(c)));
	V3 a = NurbsCurve::GetPointOnCurve(c, t - h), b = NurbsCurve::GetPointOnCurve(c, t + h);
	V3 fd = (b - a) / (2.0L * h);
	auto D = NurbsCurve::ComputeRationalCurveDerivatives(c, 1, t);
	auto mag = derMags(c, t, 3, refSpan(c.Degree, c.KnotVector, t));
	nearPt(ctx, D[1], fd, mag[3] * (ld)h * h + 1e-13L * (maxAbs(c) + 1) / h + 1e-7L * mag[1], "finite-difference", strf("first derivative at %.17g against central difference", t));
}
// the derivative exists exactly where the one-sided derivatives agree
SCENARIO(derivative_exists, 1)
{
	Rng& r = ctx.rng;
	CurveOpt o;
	o.maxWeightMode = 1;
	o.pointMode = 0;
	o.scale = 1;
	o.minGap = 0.15;
	o.maxInterior = 4;
	o.maxP = r.chance(0.4) ? 1 : 4;
	o.multChance = 0.7;
	o.unitDomain = true;
	LN_NurbsCurve c = genCurve(ctx, o);
	auto g = groups(c.KnotVector);
	if (weightRatio(c) > 10 || maxAbs(c) > 10) return;
	double t = genParam(ctx, c, P_SMOOTH);
	if (g.size() > 2 && r.chance(0.6)) t = g[r.irange(1, (int)g.size() - 2)].first;
	if (r.chance(0.1)) t = r.chance(0.5) ? lo(c) : hi(c);
	ctx.dump("t", t);
	bool can = NurbsCurve::CanComputeDerivative(c, t);
	if (fabs(t - lo(c)) < 1e-5 || fabs(t - hi(c)) < 1e-5) { if (t == lo(c) || t == hi(c)) ctx.check(can, "exists-at-end", "no derivative at an end of the domain"); return; }
	for (auto& x : g) if (x.first != t && fabs(x.first - t) < 1e-5) return;
	int sr = refSpan(c.Degree, c.KnotVector, t), sl = refSpanLeft(c.Degree, c.KnotVector, t);
	auto R = refDers(c, t, 2, sr), L = refDers(c, t, 2, sl);
	ld gap = std::max(fabsl(R[1].x - L[1].x), std::max(fabsl(R[1].y - L[1].y), fabsl(R[1].z - L[1].z)));
	ld m1 = std::max(R[1].len(), L[1].len()), m2 = std::max(R[2].len(), L[2].len());
	if (m2 > 30) return;
	ctx.bucket("corner", gap > 1e-2L);
	if (gap > 1e-3L * (1 + m1)) ctx.check(!can, "corner-has-none", strf("a derivative is claimed at the corner %.17g, where its sides differ by %.3Lg", t, gap));
	// the library looks 1e-8 to either side, rounding leaves about 1e-7 there
	else if (gap < 1e-9L && maxAbs(c) < 3 && weightRatio(c) < 3) ctx.check(can, "smooth-has-one", strf("no derivative at the smooth point %.17g", t));
}
#include "main.inc"
