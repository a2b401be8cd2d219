// P10: interpolation - the curve passes through the data, parametrisation and knot helpers obey their definitions.
#include "common.h"
using namespace H;
using namespace LNLib;

static std::vector<XYZ> genData(Ctx& ctx, int n, int mode = -1)
{
	Rng& r = ctx.rng;
	double s = genScale(r);
	if (mode < 0) mode = r.irange(0, 4);
	std::vector<XYZ> q;
	XYZ cur = genPoint(r, s), dir = genPoint(r, 1).Normalize();
	XYZ ex = genPoint(r, 1).Normalize(), ey = perpTo(r, ex);
	for (int i = 0; i < n; i++)
	{
		XYZ p;
		switch (mode)
		{
		case 0: p = genPoint(r, s); break;                                  // scattered
		case 1: p = genPoint(r, s, 1); break;                               // planar scattered
		case 2: cur = cur + dir * (s * r.uni(0.2, 0.6)) + genPoint(r, 0.25 * s); p = cur; break;   // walk
		case 3: { double a = 6.283185307179586 * i / n + r.uni(-0.1, 0.1) / n; p = ex * (s * cos(a)) + ey * (s * sin(a)) + XYZ(1, 2, 3) * (0.1 * s * i / n); break; }  // ring
		default: cur = cur + dir * (s * r.uni(0.2, 1.0)); p = cur; break;   // collinear
		}
		if (!q.empty() && p.Distance(q.back()) < 0.05 * s) p = p + dir * (0.2 * s);
		q.push_back(p);
	}
	// a few exactly repeated, non adjacent points (closed data)
	if (mode != 4 && n > 3 && r.chance(0.15)) { if (q[0].Distance(q[n - 2]) > 0.05 * s) q[n - 1] = q[0]; }
	ctx.bucket("data", mode);
	ctx.bucket("points", n);
	ctx.dump("data", q);
	return q;
}
static ld dataScale(const std::vector<XYZ>& q)
{
	ld m = 0;
	for (auto& p : q) m = std::max(m, std::max(fabsl(p.GetX()), std::max(fabsl(p.GetY()), fabsl(p.GetZ()))));
	return m;
}
static std::vector<ld> chord(const std::vector<XYZ>& q, bool cent)
{
	std::vector<ld> u(q.size(), 0);
	for (size_t i = 1; i < q.size(); i++) { ld d = dist(q[i], q[i - 1]); u[i] = u[i - 1] + (cent ? sqrtl(d) : d); }
	ld T = u.back();
	for (auto& x : u) x /= T;
	return u;
}

SCENARIO(parametrisation, 2)
{
	Rng& r = ctx.rng;
	int n = r.irange(2, 14);
	auto q = genData(ctx, n);
	for (int cent = 0; cent < 2; cent++)
	{
		auto want = chord(q, cent);
		auto got = cent ? Interpolation::GetCentripetalParameterization(q) : Interpolation::GetChordParameterization(q);
		ctx.check(got.size() == q.size(), "parametrisation", strf("%zu parameters for %zu points", got.size(), q.size()));
		for (int i = 0; i < n; i++) ctx.near(got[i], want[i], 1e-12L, "parametrisation", cent ? "centripetal parameter" : "chord parameter");
		ld T = 0;
		for (int i = 1; i < n; i++) { ld d = dist(q[i], q[i - 1]); T += cent ? sqrtl(d) : d; }
		ctx.near(cent ? Interpolation::GetCentripetalLength(q) : Interpolation::GetTotalChordLength(q), T, 1e-12L * T, "total-length", "total length");
	}
}
SCENARIO(knots, 3)
{
	Rng& r = ctx.rng;
	int p = r.irange(1, 7), n = r.irange(p + 1, p + 12);
	std::vector<double> u(n);
	double acc = 0;
	for (int i = 0; i < n; i++) { u[i] = acc; acc += r.uni(0.05, 1); }
	for (auto& x : u) x /= u.back() > 0 ? u.back() : 1;
	u.back() = 1;
	ctx.bucket("degree", p);
	ctx.bucket("points", n);
	ctx.dump("params", u);
	auto k = Interpolation::AverageKnotVector(p, u);
	ctx.check((int)k.size() == n + p + 1, "average-knots", strf("%zu knots", k.size()));
	for (int i = 0; i < (int)k.size(); i++)
	{
		ld want;
		if (i <= p) want = 0;
		else if (i >= n) want = 1;
		else { want = 0; for (int j = i - p; j < i; j++) want += u[j]; want /= p; }
		ctx.near(k[i], want, 1e-12L, "average-knots", strf("knot %d", i).c_str());
	}
	// approximation knots: fewer control points than data; every span contains a parameter
	int c = r.irange(p + 1, n);
	auto a = Interpolation::ComputeKnotVector(p, c, u);
	ctx.check((int)a.size() == c + p + 1, "approximation-knots", strf("%zu knots for %d control points", a.size(), c));
	ld d = (ld)n / (c - p);
	for (int i = 0; i < (int)a.size(); i++)
	{
		ld want;
		if (i <= p) want = 0;
		else if (i >= c) want = 1;
		else
		{
			ld jd = (i - p) * d;
			int ii = (int)floorl(jd + 1e-15L);
			ld al = jd - ii;
			if (ii >= n) continue;
			want = (1 - al) * u[ii - 1] + al * u[ii];
			// exactly integral jd can be rounded to either side; both sides agree by continuity
		}
		ctx.near(a[i], want, 1e-9L, "approximation-knots", strf("knot %d", i).c_str());
	}
	for (int i = p; i < c; i++)
	{
		bool has = false;
		for (double x : u) if (x >= a[i] && (x < a[i + 1] || i == c - 1)) has = true;
		ctx.check(has, "span-has-parameter", strf("knot span [%.12g,%.12g) contains no parameter", a[i], a[i + 1]));
	}
}
// Upper bound for what rounding can do: the interpolation problem can be ill conditioned for high degree, so
// judge only the residual at the data, which a backward stable solve keeps small.
static ld maxCp(const LN_NurbsCurve& c) { return maxAbs(c); }
static void through(Ctx& ctx, const LN_NurbsCurve& c, const std::vector<ld>& u, const std::vector<XYZ>& q, ld s)
{
	validCurve(ctx, c, "interpolant-valid");
	ld tol = 1e-8L * (1e-3L + s) + 1e-11L * maxCp(c);
	for (size_t i = 0; i < q.size(); i++)
	{
		ld t = std::min((ld)hi(c), std::max((ld)lo(c), u[i]));
		nearPt(ctx, refPoint(c, t), V3(q[i]), tol, "passes-through-data", strf("data point %zu at parameter %.12Lg", i, t));
	}
	for (auto& w : c.ControlPoints) ctx.near(w.GetW(), 1, 1e-12L, "unit-weights", "weight");
}
SCENARIO(global, 5)
{
	Rng& r = ctx.rng;
	int p = r.irange(1, 7), n = p + 1 + (r.chance(0.2) ? 0 : r.irange(0, 10));
	ctx.bucket("degree", p);
	auto q = genData(ctx, n);
	LN_NurbsCurve c;
	auto before = q;
	bool given = r.chance(0.35);
	std::vector<ld> u = chord(q, false);
	std::vector<double> params;
	if (given)
	{
		params.push_back(0);
		for (int i = 1; i < n; i++) params.push_back(params.back() + r.uni(0.3, 1));
		for (int i = 0; i < n; i++) { params[i] /= params.back() > 0 && i < n - 1 ? 1 : 1; }
		double T = params.back();
		for (auto& x : params) x /= T;
		params.back() = 1;
		for (int i = 0; i < n; i++) u[i] = params[i];
		NurbsCurve::GlobalInterpolation(p, q, c, params);
	}
	else NurbsCurve::GlobalInterpolation(p, q, c);
	ctx.bucket("given", given);
	ctx.check(c.Degree == p, "degree", strf("degree %d", c.Degree));
	ctx.check((int)c.ControlPoints.size() == n, "control-count", strf("%zu control points", c.ControlPoints.size()));
	through(ctx, c, u, q, dataScale(q));
	// interior knots are the running averages of the parameters
	for (int i = p + 1; i < n; i++)
	{
		ld want = 0;
		for (int j = i - p; j < i; j++) want += u[j];
		ctx.near(c.KnotVector[i], want / p, 1e-10L, "averaged-knots", "interpolant knot");
	}
}
SCENARIO(with_tangents, 4)
{
	Rng& r = ctx.rng;
	int p = r.irange(2, 5), n = r.irange(p + 1, p + 7);
	ctx.bucket("degree", p);
	auto q = genData(ctx, n, r.irange(0, 3));
	for (int i = 1; i < n; i++) if (q[i].Distance(q[i - 1]) < 1e-6) return;
	std::vector<XYZ> t;
	for (int i = 0; i < n; i++) t.push_back(genPoint(r, 1).Normalize());
	double f = r.chance(0.3) ? 1.0 : r.logu(0.2, 5) * (double)dataScale(q);
	ctx.dump("tangents", t);
	ctx.dump("factor", f);
	LN_NurbsCurve c;
	NurbsCurve::GlobalInterpolation(p, q, t, f, c);
	ctx.check(c.Degree == p && (int)c.ControlPoints.size() == 2 * n, "control-count", strf("degree %d, %zu control points", c.Degree, c.ControlPoints.size()));
	auto u = chord(q, false);
	ld s = dataScale(q);
	through(ctx, c, u, q, s);
	ld gap = 1;
	for (int i = 1; i < n; i++) gap = std::min(gap, u[i] - u[i - 1]);
	ld tol = (1e-8L * (1e-3L + s + f) + 1e-11L * maxCp(c)) * p / gap * 4;
	for (int i = 0; i < n; i++)
	{
		ld x = std::min((ld)hi(c), std::max((ld)lo(c), u[i]));
		V3 d = refDers(c, x, 1, refSpan(p, c.KnotVector, x + (i + 1 < n ? 1e-13L : 0)))[1];
		nearPt(ctx, d, V3(t[i]) * f, tol, "tangent-at-data", strf("derivative at data point %d", i));
	}
}
SCENARIO(local_cubic, 4)
{
	Rng& r = ctx.rng;
	int n = r.irange(5, 14);
	auto q = genData(ctx, n);
	LN_NurbsCurve c;
	bool ok = NurbsCurve::CubicLocalInterpolation(q, c);
	ctx.check(ok, "local-accepts", "five or more distinct points were refused");
	ctx.check(c.Degree == 3, "degree", strf("degree %d", c.Degree));
	ld s = dataScale(q);
	validCurve(ctx, c, "interpolant-valid");
	auto u = chord(q, false);
	for (int i = 0; i < n; i++)
	{
		// passes through the data in order: at the chord parameter
		nearPt(ctx, refPoint(c, std::min((ld)hi(c), std::max((ld)lo(c), u[i]))), V3(q[i]), 1e-8L * (1e-3L + s), "local-through-data", strf("data point %d", i));
		if (i > 0 && i + 1 < n)
		{
			V3 a = refDers(c, u[i], 1, refSpanLeft(3, c.KnotVector, u[i] - 1e-12L))[1], b = refDers(c, u[i], 1, refSpan(3, c.KnotVector, u[i] + 1e-12L))[1];
			if (a.len() > 1e-6L * s && b.len() > 1e-6L * s)
				ctx.check(dist(a.unit(), b.unit()) < 1e-6L, "local-smooth", strf("tangent direction jumps at data point %d by %.3Lg", i, dist(a.unit(), b.unit())));
		}
	}
	// convexity locality: straight data gives a straight curve
}
SCENARIO(local_refuses_few, 1)
{
	auto q = genData(ctx, ctx.rng.irange(2, 4));
	LN_NurbsCurve c;
	ctx.check(!NurbsCurve::CubicLocalInterpolation(q, c), "local-few-points", "fewer than five points accepted");
}
SCENARIO(tangent_estimates, 3)
{
	Rng& r = ctx.rng;
	int n = r.irange(3, 12);
	auto q = genData(ctx, n);
	if (n >= 5 && r.chance(0.2))
	{
		// two straight runs that meet in a corner
		double s = dataScale(q) + 0.1;
		XYZ p = q[0], a = genPoint(r, 1).Normalize() * s, b = genPoint(r, 1).Normalize() * s;
		int corner = r.irange(2, n - 3);
		for (int i = 0; i < n; i++) { q[i] = p; p = p + (i < corner ? a : b) * r.uni(0.3, 1); }
		ctx.dump("corner data", q);
		ctx.bucket("corner", corner);
	}
	auto u = chord(q, false);
	auto t = Interpolation::ComputeTangent(q);
	ctx.check((int)t.size() == n, "bessel-count", strf("%zu tangents", t.size()));
	ld gap = 1;
	for (int i = 1; i < n; i++) gap = std::min(gap, u[i] - u[i - 1]);
	if (gap < 1e-4L) return;
	ld s = dataScale(q), tol = 1e-9L * (1e-3L + s) / gap;
	std::vector<V3> d(n - 1), D(n);
	for (int i = 0; i + 1 < n; i++) d[i] = (V3(q[i + 1]) - V3(q[i])) / (u[i + 1] - u[i]);
	for (int i = 1; i + 1 < n; i++)
	{
		// derivative at u_i of the parabola through three consecutive points
		ld a = (u[i] - u[i - 1]) / (u[i + 1] - u[i - 1]);
		D[i] = d[i - 1] * (1 - a) + d[i] * a;
	}
	D[0] = d[0] * 2 - D[1];
	D[n - 1] = d[n - 2] * 2 - D[n - 2];
	for (int i = 0; i < n; i++) nearPt(ctx, V3(t[i]), D[i], tol, "bessel-tangent", strf("tangent %d", i));
	std::vector<XYZ> t5;
	bool ok = Interpolation::ComputeTangent(q, t5);
	ctx.check(ok == (n >= 5), "five-point-accepts", strf("five point tangents of %d points: %d", n, ok));
	if (!ok) return;
	ctx.check((int)t5.size() == n, "five-point-count", "size");
	std::vector<V3> e;   // e[k+1] = q_k - q_{k-1}, extended by two at both ends
	std::vector<V3> c0;
	for (int i = 1; i < n; i++) c0.push_back(V3(q[i]) - V3(q[i - 1]));
	V3 q0 = c0[0] * 2 - c0[1], qm = q0 * 2 - c0[0], qn = c0[n - 2] * 2 - c0[n - 3], qn2 = qn * 2 - c0[n - 2];
	e = { qm, q0 };
	e.insert(e.end(), c0.begin(), c0.end());
	e.push_back(qn);
	e.push_back(qn2);
	for (int k = 0; k < n; k++)
	{
		ld A = e[k].cross(e[k + 1]).len(), B = e[k + 2].cross(e[k + 3]).len();
		ctx.check(finite(t5[k]), "five-point-finite", strf("tangent %d is not finite", k));
		ld full = e[k].len() * e[k + 1].len() + e[k + 2].len() * e[k + 3].len();
		if (A + B > 1e-9L * full && A + B < 1e-3L * full) continue;
		// straight runs on both sides: the corner is shared evenly
		ld al = A + B < 1e-3L * full ? 0.5L : A / (A + B);
		V3 v = e[k + 1] * (1 - al) + e[k + 2] * al;
		if (v.len() < 1e-3L * (e[k + 1].len() + e[k + 2].len())) continue;
		nearPt(ctx, V3(t5[k]), v.unit(), 1e-7L, "five-point-tangent", strf("tangent %d", k));
	}
}
SCENARIO(conic_weight, 2)
{
	Rng& r = ctx.rng;
	double s = genScale(r);
	XYZ A = genPoint(r, s), B = genPoint(r, s), R = genPoint(r, s);
	if (A.Distance(B) < 0.1 * s || A.Distance(R) < 0.1 * s || B.Distance(R) < 0.1 * s) return;
	int mode = r.irange(0, 3);
	if (mode == 1) { XYZ m = (A + B) / 2; XYZ n = (B - A).CrossProduct(genPoint(r, 1)).Normalize(); R = m + n * (s * r.uni(0.2, 1)); }
	if (mode == 2) R = A + (B - A) * r.uni(0.2, 0.8);
	ctx.bucket("mode", mode);
	ctx.dump("A", A); ctx.dump("R", R); ctx.dump("B", B);
	double w = -1;
	bool ok = Interpolation::ComputerWeightForRationalQuadraticInterpolation(A, R, B, w);
	V3 a(A), b(B), c(R);
	ld area = (c - a).cross(b - a).len() / ((c - a).len() * (b - a).len());
	if (mode == 2) { ctx.check(ok && fabs(w - 1) < 1e-9, "weight-collinear", strf("collinear points: weight %.12g", w)); return; }
	if (area < 0.02L) return;
	ctx.check(ok, "weight-found", "no weight for a proper triangle");
	// bisectors of the base angles cut the median at S1 and S2; the shoulder point is their midpoint
	V3 m = (a + b) * 0.5L;
	auto onMedian = [&](const V3& o, const V3& other) {
		// solve o + t*(unit(c-o)+unit(other-o)) = m + x*(c-m) in the plane
		V3 d = (c - o).unit() + (other - o).unit(), g = c - m, h = m - o, nn = d.cross(g);
		return h.cross(d).dot(nn) / nn.dot(nn);   // x
	};
	ld x1 = onMedian(a, b), x2 = onMedian(b, a), sr = (x1 + x2) / 2;
	ld want = sr / (1 - sr);
	if (fabsl((c - a).len() - (c - b).len()) <= 2e-6L * (1 + (c - a).len()))
		want = (c - a).dot(b - a) / ((c - a).len() * (b - a).len());
	ctx.near(w, want, 1e-6L * (1 + fabsl(want)), "weight-value", "conic weight");
}
#include "main.inc"
