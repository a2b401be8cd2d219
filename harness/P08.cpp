// P08: curve length, length of a part, and parameter at a given arc length
#include "common.h"
using namespace H;

static const IntegratorType TYPES[3] = { IntegratorType::GaussLegendre, IntegratorType::Simpson, IntegratorType::Chebyshev };
static const char* TN[3] = { "gauss", "simpson", "chebyshev" };

// how hard the speed is to integrate: summed differences of a low order rule and the reference, relative to the
// length; curves that nearly stop (cusps) are hard by definition
static ld difficulty(const LN_NurbsCurve& c, ld L)
{
	ld s = 0, mn = 1e300L;
	int p = c.Degree;
	for (int i = p; i < (int)c.KnotVector.size() - p - 1; i++)
	{
		ld a = c.KnotVector[i], b = c.KnotVector[i + 1];
		if (!(a < b)) continue;
		auto f = [&](ld t) { return refSpeed(c, t, i); };
		// one low order rule can be right by coincidence, several cannot
		ld m = (a + b) / 2, e = adaptGL(f, a, b, 1e-9L * L), h3 = (b - a) / 3;
		s += std::max({ fabsl(gl8(f, a, b) - e), fabsl(gl8(f, a, m) + gl8(f, m, b) - e), fabsl(gl8(f, a, a + h3) + gl8(f, a + h3, b - h3) + gl8(f, b - h3, b) - e) });
		ld h = (b - a) / 80, loc = 1e300L;
		for (int k = 0; k <= 80; k++) loc = std::min(loc, f(a + h * k));
		mn = std::min(mn, loc * (b - a));
	}
	ld spans = (ld)groups(c.KnotVector).size() - 1;
	s /= L;
	if (mn < 0.12L * L / spans) s = std::max(s, (ld)2e-3L);
	return s;
}
static ld lengthTol(int ty, ld L, ld diff)
{
	if (ty == 0) return 1e-9L + L * (1e-8L + 3 * diff);
	if (ty == 2) return 1e-9L + L * (1e-4L + 5 * diff);
	// Simpson's rule is applied adaptively to the whole domain and may accept its first estimate by coincidence
	return 1e-3L + L * (0.12L + 3 * diff);
}
static LN_NurbsCurve lengthCurve(Ctx& ctx, bool clamped = true)
{
	CurveOpt o;
	o.minP = 2;
	o.maxP = 6;
	o.maxInterior = 4;
	o.maxWeightMode = 1;
	o.minGap = 0.08;
	o.maxPointMode = 3;
	o.scale = ctx.rng.chance(0.5) ? 10 : ctx.rng.logu(1, 300);
	(void)clamped;
	return genCurve(ctx, o);
}

SCENARIO(length, 4)
{
	LN_NurbsCurve c = lengthCurve(ctx), c0 = c;
	ld L = refLength(c, lo(c), hi(c), 1e-11L * maxAbs(c));
	ld df = difficulty(c, L);
	int ty = ctx.rng.irange(0, 2);
	ctx.bucket("rule", TN[ty]);
	ctx.bucket("difficulty", df < 1e-6L ? "smooth" : df < 1e-3L ? "medium" : "hard");
	double got = NurbsCurve::ApproximateLength(c, TYPES[ty]);
	ctx.check(identical(c, c0), "input-untouched", "ApproximateLength modified its input");
	ctx.near(got, L, lengthTol(ty, L, df), "length-value", TN[ty]);
	// never shorter than the chord
	ld chord = dist(refPoint(c, lo(c)), refPoint(c, hi(c)));
	ctx.check(got >= chord - lengthTol(ty, L, df), "length-at-least-chord", strf("length %.12g below the chord %.12Lg", got, chord));
}
SCENARIO(length_part, 3)
{
	LN_NurbsCurve c = lengthCurve(ctx);
	int ty = ctx.rng.irange(0, 2);
	ctx.bucket("rule", TN[ty]);
	double a = ctx.rng.chance(0.2) ? lo(c) : genParam(ctx, c, P_INNER), b = ctx.rng.chance(0.2) ? hi(c) : genParam(ctx, c, P_INNER);
	if (a > b) std::swap(a, b);
	if (b - a < 0.02 * (hi(c) - lo(c))) return;
	ctx.note(strf("range [%.17g, %.17g]", a, b));
	ld L = refLength(c, a, b, 1e-11L * maxAbs(c));
	ld df = difficulty(c, refLength(c, lo(c), hi(c), 1e-11L * maxAbs(c)));
	double got = NurbsCurve::ApproximateLength(c, a, b, TYPES[ty]);
	ctx.near(got, L, lengthTol(ty, L, df), "length-of-part", TN[ty]);
}
SCENARIO(length_invariance, 2)
{
	// length does not depend on the parametrisation, the direction, the refinement or the position in space
	LN_NurbsCurve c = lengthCurve(ctx), r;
	double L = NurbsCurve::ApproximateLength(c);
	ld df = difficulty(c, refLength(c, lo(c), hi(c), 1e-9L * maxAbs(c)));
	ld tol = 2 * lengthTol(0, L, df);
	NurbsCurve::Reverse(c, r);
	ctx.near(NurbsCurve::ApproximateLength(r), L, tol, "length-invariant", "reversed");
	NurbsCurve::Reparametrize(c, -3.0, 11.0, r);
	ctx.near(NurbsCurve::ApproximateLength(r), L, tol, "length-invariant", "reparametrised");
	Matrix4d m = Matrix4d::CreateRotationAtPoint(genPoint(ctx.rng, 5), genPoint(ctx.rng, 1), ctx.rng.uni(-3, 3));
	NurbsCurve::CreateTransformed(c, m, r);
	ctx.near(NurbsCurve::ApproximateLength(r), L, tol + 1e-7L * maxAbs(c), "length-invariant", "rotated");
	LN_NurbsCurve a, b;
	double t = genParam(ctx, c, P_INNER);
	ctx.dump("t", t);
	if (NurbsCurve::SplitAt(c, t, a, b))
		ctx.near(NurbsCurve::ApproximateLength(a) + NurbsCurve::ApproximateLength(b), L, tol, "length-additive", "sum of the two halves");
}
SCENARIO(length_linear, 1)
{
	// curves whose control points are collinear, including ones that run back and forth
	CurveOpt o;
	o.maxP = 5;
	o.weightMode = 0;
	o.maxInterior = 3;
	o.minGap = 0.1;
	LN_NurbsCurve c = genCurve(ctx, o);
	XYZ a = genPoint(ctx.rng, 10), d = genPoint(ctx.rng, 1).Normalize();
	bool mono = ctx.rng.chance(0.6);
	double s = 0;
	for (auto& w : c.ControlPoints) { s = mono ? s + ctx.rng.uni(0.1, 3) : ctx.rng.uni(-10, 10); w = XYZW(a + s * d, 1); }
	ctx.bucket("kind", mono ? "monotone" : "backtracking");
	ctx.dump("tested", c);
	ld L = refLength(c, lo(c), hi(c), 1e-8L);
	int ty = ctx.rng.irange(0, 2);
	ctx.near(NurbsCurve::ApproximateLength(c, TYPES[ty]), L, mono ? 1e-9L * (1 + L) : 5e-2L * (1e-2L + L), "length-linear", TN[ty]);
}

SCENARIO(param_by_length, 3)
{
	LN_NurbsCurve c = lengthCurve(ctx), c0 = c;
	ld L = refLength(c, lo(c), hi(c), 1e-10L * maxAbs(c));
	ld df = difficulty(c, L);
	if (df > 1e-3L) return;
	int ty = ctx.rng.irange(0, 2);
	ctx.bucket("rule", TN[ty]);
	// anywhere, close to the whole length, or close to the length up to a knot
	double s = (double)L * (ctx.rng.chance(0.1) ? 0.5 : ctx.rng.chance(0.2) ? 1 - ctx.rng.logu(1e-3, 2e-2) : ctx.rng.uni(0.02, 0.98));
	auto gr = groups(c.KnotVector);
	if (gr.size() > 2 && ctx.rng.chance(0.25)) s = (double)refLength(c, lo(c), gr[ctx.rng.irange(1, (int)gr.size() - 2)].first, 1e-10L * maxAbs(c)) * (1 + ctx.rng.sgn() * ctx.rng.logu(5e-4, 5e-3));
	ctx.dump("length", s);
	double t = NurbsCurve::GetParamOnCurve(c, s, TYPES[ty]);
	ctx.check(identical(c, c0), "input-untouched", "GetParamOnCurve modified its input");
	ctx.check(t >= lo(c) && t <= hi(c), "param-in-domain", strf("returned %.17g", t));
	ld got = refLength(c, lo(c), t, 1e-10L * maxAbs(c));
	ctx.near(got, s, 2e-4L * (1 + s) + lengthTol(ty, L, df), "param-at-length", TN[ty]);
}
SCENARIO(params_equal_steps, 1)
{
	LN_NurbsCurve c = lengthCurve(ctx);
	ld L = refLength(c, lo(c), hi(c), 1e-10L * maxAbs(c));
	ld df = difficulty(c, L);
	if (df > 1e-6L) return;
	int k = ctx.rng.irange(2, 6);
	double s = (double)L / (k - ctx.rng.uni(0.2, 0.8));
	ctx.bucket("steps", k);
	ctx.dump("step", s);
	if (ctx.rng.chance(0.1))
	{
		// a step that never gets anywhere is refused
		bool refused = false;
		try { NurbsCurve::GetParamsOnCurve(c, ctx.rng.chance(0.5) ? 0.0 : -s, IntegratorType::GaussLegendre); } catch (std::invalid_argument&) { refused = true; }
		ctx.check(refused, "no-step-refused", "GetParamsOnCurve takes steps of zero or negative length");
		return;
	}
	auto v = NurbsCurve::GetParamsOnCurve(c, s, IntegratorType::GaussLegendre);
	ctx.check((int)v.size() == k - 1, "params-count", strf("%zu parameters for %.6Lg steps", v.size(), L / s));
	double prev = lo(c);
	for (double t : v)
	{
		ctx.check(t > prev, "params-increasing", "parameters do not increase");
		ctx.near(refLength(c, prev, t, 1e-10L * maxAbs(c)), s, 3e-4L * (1 + s), "params-equal-steps", "step length");
		prev = t;
	}
	ctx.check(refLength(c, prev, hi(c), 1e-10L * maxAbs(c)) <= s * 1.001L + 1e-3L, "params-cover", "the rest of the curve is longer than a step");
}
#include "main.inc"
