// P01: polynomial and B-spline basis functions
#include "common.h"
#include "BezierSurface.h"
using namespace H;

static ld refBern(int i, int n, ld t) { return binom(n, i) * powl(t, i) * powl(1 - t, n - i); }

SCENARIO(span_and_basis, 6)
{
	Rng& r = ctx.rng;
	KnotOpt o; o.allowUnclamped = true;
	int p = r.irange(1, 7);
	bool un = false;
	Knots U = genKnots(r, p, o, &un);
	ctx.bucket("degree", p);
	ctx.bucket("knots", un ? "unclamped" : "clamped");
	ctx.dump("knots", U);
	for (int rep = 0; rep < 6; rep++)
	{
		double t = genParam(ctx, p, U);
		ctx.dump("t", t);
		int n = (int)U.size() - p - 2;
		int span = Polynomials::GetKnotSpanIndex(p, U, t);
		int want = refSpan(p, U, t);
		int want2 = refSpanLeft(p, U, t);
		// library treats parameters within its tolerance of the ends as the ends
		bool okSpan = span == want || (fabs(t - hi(p, U)) <= 2e-6 * (1 + fabs(t)) && span == n) || (fabs(t - lo(p, U)) <= 2e-6 * (1 + fabs(t)) && span == p);
		ctx.check(okSpan, "knot-span", strf("degree %d t=%.17g: span %d, expected %d (left %d)", p, t, span, want, want2));
		double N[Constants::NURBSMaxDegree + 1];
		Polynomials::BasisFunctions(span, p, U, t, N);
		ld sum = 0;
		for (int i = 0; i <= p; i++)
		{
			ld w = refN(span - p + i, p, U, t, span);
			ctx.near(N[i], w, 1e-10L, "basis-value", "basis function");
			ctx.check(N[i] >= -1e-9, "basis-nonnegative", strf("N[%d]=%.17g < 0", i, N[i]));
			sum += N[i];
		}
		ctx.near(sum, 1, 1e-10L, "partition-of-unity", "sum of basis functions");
		int d = r.irange(1, p);
		auto D = Polynomials::BasisFunctionsDerivatives(span, p, d, U, t);
		ctx.check((int)D.size() == d + 1, "basis-derivative", "wrong number of derivative rows");
		for (int k = 0; k <= d; k++)
		{
			ld mag = 0, s = 0;
			std::vector<ld> w;
			for (int i = 0; i <= p; i++) { w.push_back(refN(span - p + i, p, U, t, span, k)); mag += fabsl(w[i]); }
			for (int i = 0; i <= p; i++) { ctx.near(D[k][i], w[i], 1e-9L * (mag + 1), "basis-derivative", strf("derivative %d of basis %d", k, i).c_str()); s += D[k][i]; }
			ctx.near(s, k == 0 ? 1 : 0, 1e-9L * (mag + 1), "derivatives-sum-to-zero", "sum of derivatives");
		}
		double F[2][Constants::NURBSMaxDegree + 1];
		Polynomials::BasisFunctionsFirstOrderDerivative(span, p, U, t, F);
		for (int k = 0; k < 2; k++)
		{
			ld mag = 0;
			for (int i = 0; i <= p; i++) mag += fabsl(refN(span - p + i, p, U, t, span, k));
			for (int i = 0; i <= p; i++) ctx.near(F[k][i], refN(span - p + i, p, U, t, span, k), 1e-9L * (mag + 1), "basis-first-derivative", "first order derivative routine");
		}
		auto A = Polynomials::AllBasisFunctions(span, p, U, t);
		for (int q = 0; q <= p; q++)
			for (int i = 0; i <= q; i++)
				ctx.near(A[i][q], refN(span - q + i, q, U, t, span), 1e-9L, "all-basis", strf("degree %d basis", q).c_str());
		ctx.check(Polynomials::GetKnotMultiplicity(U, t) == [&] { int m = 0; for (double u : U) if (fabs(u - t) <= 1e-6 * (1 + std::max(fabs(u), fabs(t)))) m++; return m; }(), "knot-multiplicity", strf("multiplicity of %.17g is %d", t, Polynomials::GetKnotMultiplicity(U, t)));
	}
}

SCENARIO(single_basis, 3)
{
	Rng& r = ctx.rng;
	KnotOpt o;
	o.closeChance = 0.1;
	int p = r.irange(1, 7);
	Knots U = genKnots(r, p, o);
	ctx.bucket("degree", p);
	ctx.dump("knots", U);
	for (int rep = 0; rep < 4; rep++)
	{
		double t = r.chance(0.3) ? genParam(ctx, p, U, P_ANY) : genParam(ctx, p, U, P_INNER);
		int n = (int)U.size() - p - 2;
		bool nearKnot = false, nearEnd = false;
		for (auto& g : groups(U)) if (g.first != t && fabs(g.first - t) < 1e-3 * (hi(p, U) - lo(p, U))) nearKnot = true;
		if (nearKnot) continue;
		nearEnd = t == hi(p, U);
		ctx.dump("t", t);
		int span = refSpan(p, U, t);
		for (int i = 0; i <= n; i++)
		{
			ld w = refN(i, p, U, t, span);
			ctx.near(Polynomials::OneBasisFunction(i, p, U, t), w, 1e-10L, "one-basis", strf("basis function %d", i).c_str());
			if (nearEnd) continue;
			int d = r.irange(0, p);
			auto D = Polynomials::OneBasisFunctionDerivative(i, p, d, U, t);
			ctx.check((int)D.size() == d + 1, "one-basis-derivative", "size");
			for (int k = 0; k <= d; k++)
			{
				ld mag = 0;
				for (int q = 0; q <= n; q++) mag = std::max(mag, fabsl(refN(q, p, U, t, span, k)));
				ctx.near(D[k], refN(i, p, U, t, span, k), 1e-9L * (mag + 1), "one-basis-derivative", strf("derivative %d of basis %d at %.17g", k, i, t).c_str());
			}
		}
	}
}

SCENARIO(bernstein_power, 3)
{
	Rng& r = ctx.rng;
	int n = r.irange(1, 12);
	ctx.bucket("bernstein-degree", n);
	double t = r.chance(0.1) ? 0 : r.chance(0.1) ? 1 : r.uni();
	ctx.dump("t", t);
	auto B = Polynomials::AllBernstein(n, t);
	ctx.check((int)B.size() == n + 1, "bernstein-all", "size");
	ld s = 0;
	for (int i = 0; i <= n; i++)
	{
		ctx.near(B[i], refBern(i, n, t), 1e-12L, "bernstein-all", "Bernstein polynomial");
		ctx.near(Polynomials::Bernstein(i, n, t), refBern(i, n, t), 1e-12L, "bernstein-one", strf("Bernstein(%d,%d,%.17g)", i, n, t).c_str());
		s += B[i];
	}
	ctx.near(s, 1, 1e-12L, "bernstein-sum", "sum of Bernstein polynomials");
	// Horner in one and two variables
	std::vector<double> c;
	ld want = 0, mag = 1;
	double x = r.chance(0.5) ? t : r.uni(-2, 2);
	for (int i = 0; i <= n; i++) { c.push_back(r.uni(-5, 5)); want += c[i] * powl(x, i); mag += fabsl(c[i] * powl(x, i)); }
	ctx.near(Polynomials::Horner(n, c, x), want, 1e-12L * mag, "horner", "power basis value");
	int m = r.irange(1, 6), q = r.irange(1, 6);
	std::vector<std::vector<double>> cc(m + 1, std::vector<double>(q + 1));
	UV uv(r.chance(0.2) ? 1.0 : r.uni(), r.chance(0.2) ? 0.0 : r.uni());
	want = 0; mag = 1;
	for (int i = 0; i <= m; i++) for (int j = 0; j <= q; j++) { cc[i][j] = r.uni(-5, 5); ld tt = cc[i][j] * powl(uv.GetU(), i) * powl(uv.GetV(), j); want += tt; mag += fabsl(tt); }
	ctx.cls(strf("horner2 %d %d", m, q));
	ctx.near(Polynomials::Horner(m, q, cc, uv), want, 1e-12L * mag, "horner-2d", "power basis surface value");
	// Bezier <-> power matrices
	int d = r.irange(1, 7);
	auto M = Polynomials::BezierToPowerMatrix(d);
	auto I = Polynomials::PowerToBezierMatrix(d, M);
	std::vector<double> ctl;
	for (int i = 0; i <= d; i++) ctl.push_back(r.uni(-3, 3));
	ld bez = 0, pow_ = 0;
	std::vector<ld> pc;
	for (int k = 0; k <= d; k++) { ld a = 0; for (int i = 0; i <= d; i++) a += (ld)M[k][i] * ctl[i]; pc.push_back(a); pow_ += a * powl(t, k); }
	for (int i = 0; i <= d; i++) bez += refBern(i, d, t) * ctl[i];
	ctx.near(pow_, bez, 1e-8L, "bezier-to-power", strf("degree %d power form value", d).c_str());
	for (int i = 0; i <= d; i++)
	{
		ld a = 0;
		for (int k = 0; k <= d; k++) a += (ld)I[i][k] * pc[k];
		ctx.near(a, ctl[i], 1e-8L, "power-to-bezier", strf("degree %d round trip control value %d", d, i).c_str());
	}
}

SCENARIO(bezier_eval, 2)
{
	Rng& r = ctx.rng;
	int n = r.irange(1, 9);
	ctx.bucket("bezier-degree", n);
	double t = r.chance(0.1) ? 0 : r.chance(0.1) ? 1 : r.uni();
	LN_BezierCurve<XYZW> b;
	b.Degree = n;
	V4 w; ld mag = 1;
	for (int i = 0; i <= n; i++) { XYZW q(genPoint(r, 10), genWeight(r, 1)); b.ControlPoints.push_back(q); w += V4(q) * refBern(i, n, t); }
	mag = 30;
	BezierCurve::Check(b);
	V4 x(BezierCurve::GetPointOnCurveByBernstein(b, t)), y(BezierCurve::GetPointOnCurveByDeCasteljau(b, t));
	for (const V4& q : { x, y })
	{
		ctx.near(q.x, w.x, 1e-11L * mag, "bezier-point", "wx"); ctx.near(q.y, w.y, 1e-11L * mag, "bezier-point", "wy");
		ctx.near(q.z, w.z, 1e-11L * mag, "bezier-point", "wz"); ctx.near(q.w, w.w, 1e-11L * mag, "bezier-point", "w");
	}
	// surface
	int pu = r.irange(1, 5), pv = r.irange(1, 5);
	LN_BezierSurface<XYZ> s;
	s.DegreeU = pu; s.DegreeV = pv;
	UV uv(r.chance(0.1) ? 1.0 : r.uni(), r.chance(0.1) ? 0.0 : r.uni());
	V3 want;
	for (int i = 0; i <= pu; i++) { s.ControlPoints.push_back({}); for (int j = 0; j <= pv; j++) { XYZ q = genPoint(r, 10); s.ControlPoints[i].push_back(q); want += V3(q) * (refBern(i, pu, uv.GetU()) * refBern(j, pv, uv.GetV())); } }
	ctx.cls(strf("bs %d %d", pu, pv));
	nearPt(ctx, BezierSurface::GetPointOnSurfaceByDeCasteljau(s, uv), want, 1e-10L, "bezier-surface-point", strf("degrees %d %d", pu, pv));
	// rational quadratic arc
	XYZW a(genPoint(r, 10), r.uni(0.3, 3)), m(genPoint(r, 10), r.uni(0.3, 3)), e(genPoint(r, 10), r.uni(0.3, 3));
	V4 h = V4(a) * refBern(0, 2, t) + V4(m) * refBern(1, 2, t) + V4(e) * refBern(2, 2, t);
	ctx.note("arc " + cpStr({ a, m, e }) + strf(" t=%.17g", t));
	nearPt(ctx, BezierCurve::GetPointOnQuadraticArc(a, m, e, t), h.proj(), 1e-9L, "quadratic-arc-point", "rational quadratic arc");
}
#include "main.inc"
