// P11: approximation - least squares optimality, exact constraints, and error bounds that are kept.
#include "common.h"
using namespace H;
using namespace LNLib;

static std::vector<XYZ> genData(Ctx& ctx, int n)
{
	Rng& r = ctx.rng;
	double s = genScale(r);
	int mode = r.irange(0, 3);
	std::vector<XYZ> q;
	XYZ cur = genPoint(r, s), dir = genPoint(r, 1).Normalize();
	XYZ ex = genPoint(r, 1).Normalize(), ey = perpTo(r, ex);
	double turns = r.uni(0.2, 1.5);
	for (int i = 0; i < n; i++)
	{
		XYZ p;
		switch (mode)
		{
		case 0: p = genPoint(r, s); break;
		case 1: cur = cur + dir * (s * r.uni(0.2, 0.6)) + genPoint(r, 0.3 * s); p = cur; break;
		case 2: { double a = 6.283185307179586 * turns * i / n; p = ex * (s * cos(a)) + ey * (s * sin(a)) + dir * (0.3 * s * i / n) + genPoint(r, 0.02 * s); break; }
		default: cur = cur + dir * (s * r.uni(0.2, 0.7)); p = cur; break;
		}
		if (!q.empty() && p.Distance(q.back()) < 0.02 * s) p = p + dir * (0.1 * s);
		q.push_back(p);
	}
	ctx.bucket("data", mode);
	ctx.bucket("points", n);
	ctx.dump("data", q);
	return q;
}
static ld dataScale(const std::vector<XYZ>& q)
{
	ld m = 0;
	for (auto& p : q) m = std::max(m, std::max(fabsl(p.GetX()), std::max(fabsl(p.GetY()), fabsl(p.GetZ()))));
	return m;
}
static std::vector<ld> chord(const std::vector<XYZ>& q)
{
	std::vector<ld> u(q.size(), 0);
	for (size_t i = 1; i < q.size(); i++) u[i] = u[i - 1] + dist(q[i], q[i - 1]);
	ld T = u.back();
	for (auto& x : u) x /= T;
	return u;
}
static std::vector<ld> row(const LN_NurbsCurve& c, ld t, int k)
{
	std::vector<ld> v(c.ControlPoints.size(), 0);
	int sp = refSpan(c.Degree, c.KnotVector, t);
	BasisRow b = refRow(c.Degree, c.KnotVector, t, sp, k);
	for (int i = 0; i <= c.Degree; i++) v[b.first + i] = b.v[i];
	return v;
}
static void approxKnots(Ctx& ctx, const LN_NurbsCurve& c, const std::vector<ld>& u)
{
	int p = c.Degree, n = (int)c.ControlPoints.size();
	for (int i = p; i < n; i++)
	{
		bool has = false;
		for (ld x : u) if (x >= c.KnotVector[i] - 1e-12L && (x < c.KnotVector[i + 1] + 1e-12L || i == n - 1)) has = true;
		ctx.check(has, "span-has-parameter", strf("knot span [%.12g,%.12g) contains no data parameter", c.KnotVector[i], c.KnotVector[i + 1]));
	}
}
SCENARIO(least_squares, 5)
{
	Rng& r = ctx.rng;
	int p = r.irange(1, 5), m = r.irange(p + 3, p + 18), n = r.irange(p + 1, std::max(p + 1, m - 1));
	if (p == 1 && n == 2 && r.chance(0.5)) n = 3;
	ctx.bucket("degree", p);
	ctx.bucket("controls", n);
	auto q = genData(ctx, m);
	LN_NurbsCurve c;
	bool ok = NurbsCurve::LeastSquaresApproximation(p, q, n, c);
	ctx.check(ok, "least-squares-solvable", "the normal equations of distinct data were not solved");
	validCurve(ctx, c, "approximant-valid");
	ctx.check(c.Degree == p && (int)c.ControlPoints.size() == n, "control-count", strf("degree %d, %zu control points", c.Degree, c.ControlPoints.size()));
	auto u = chord(q);
	approxKnots(ctx, c, u);
	ld s = dataScale(q);
	nearPt(ctx, refPoint(c, 0), V3(q[0]), 1e-9L * (1e-3L + s), "end-points", "start");
	nearPt(ctx, refPoint(c, 1), V3(q[m - 1]), 1e-9L * (1e-3L + s), "end-points", "end");
	// optimality: the residual is orthogonal to every free basis function
	std::vector<V3> res(m);
	for (int k = 0; k < m; k++) res[k] = V3(q[k]) - refPoint(c, u[k]);
	ld mc = maxAbs(c);
	for (int i = 1; i + 1 < n; i++)
	{
		V3 g;
		ld w = 0;
		for (int k = 1; k + 1 < m; k++) { ld b = row(c, u[k], 0)[i]; g += res[k] * b; w += b; }
		ctx.check(g.len() <= (1e-8L * (1e-3L + s) + 1e-10L * mc) * (1 + w), "least-squares-optimal", strf("residual is not orthogonal to basis function %d: %.3Lg (scale %.3Lg)", i, g.len(), s));
	}
}
SCENARIO(weighted, 5)
{
	Rng& r = ctx.rng;
	int p = r.irange(1, 4), m = r.irange(p + 3, p + 14), n = r.irange(p + 1, std::max(p + 1, m - 2));
	ctx.bucket("degree", p);
	ctx.bucket("controls", n);
	auto q = genData(ctx, m);
	ld s = dataScale(q);
	std::vector<double> w(m), tw;
	std::vector<XYZ> t;
	std::vector<int> ti;
	int mode = r.irange(0, 2);
	for (int i = 0; i < m; i++) w[i] = mode == 0 ? 1.0 : r.logu(0.2, 5);
	int cons = 0, maxc = std::max(0, std::min(n - 2, 3));
	if (r.chance(0.7)) { if (cons < maxc) { w[0] = -1; cons++; } if (cons < maxc) { w[m - 1] = -1; cons++; } }
	if (cons < maxc && n > p + 3 && r.chance(0.3)) { int k = r.irange(2, m - 3); w[k] = -1; cons++; }
	if (r.chance(0.2)) w[r.irange(1, m - 2)] *= r.chance(0.5) ? 0.0 : 1.0;
	int nt = r.irange(0, 2);
	for (int k = 0; k < nt; k++)
	{
		int idx = r.irange(0, m - 1);
		bool dup = false;
		for (int e : ti) if (e == idx) dup = true;
		if (dup) continue;
		ti.push_back(idx);
		t.push_back(genPoint(r, (double)s));
		bool hard = cons < maxc && p > 1 && (idx == 0 || idx == m - 1) && r.chance(0.5);
		tw.push_back(hard ? -1.0 : r.logu(0.1, 2));
		if (hard) cons++;
	}
	ctx.bucket("constraints", cons);
	ctx.dump("weights", w);
	ctx.dump("tangents", t);
	ctx.dump("tangentWeights", tw);
	{ std::vector<double> d(ti.begin(), ti.end()); ctx.dump("tangentIndices", d); }
	LN_NurbsCurve c;
	bool ok = NurbsCurve::WeightedAndContrainedLeastSquaresApproximation(p, q, w, t, ti, tw, n, c);
	ctx.check(ok, "weighted-solvable", "solvable weighted problem refused");
	validCurve(ctx, c, "approximant-valid");
	ctx.check(c.Degree == p && (int)c.ControlPoints.size() == n, "control-count", strf("degree %d, %zu control points", c.Degree, c.ControlPoints.size()));
	auto u = chord(q);
	// keep away from knots that coincide with data parameters (one sided derivative)
	for (int e : ti) for (double k : c.KnotVector) if (e > 0 && e < m - 1 && fabsl(u[e] - k) < 1e-9L) return;
	ld mc = maxAbs(c), tol = 1e-7L * (1e-3L + s) + 1e-9L * mc;
	// stationarity: sum w_k r_k B_ki must vanish on directions that keep the constraints; equivalently
	// gradient = -M^T lambda. Find lambda by least squares and look at what remains.
	std::vector<V3> g(n);
	std::vector<std::vector<ld>> M;
	ld mag = 0;
	auto use = [&](const std::vector<ld>& b, const V3& target, double weight) {
		V3 v;
		for (int i = 0; i < n; i++) v += V4(c.ControlPoints[i]).proj() * b[i];
		V3 res = target - v;
		ld bm = 0;
		for (ld x : b) bm = std::max(bm, fabsl(x));
		if (weight > 0) { for (int i = 0; i < n; i++) g[i] += res * (b[i] * weight); mag += weight * bm * (res.len() + 1e-3L * bm * mc + 1e-3L * s); }
		else if (weight < 0)
		{
			ctx.check(res.len() <= tol * (1 + bm), "constraint-exact", strf("hard constraint missed by %.3Lg (scale %.3Lg)", res.len(), s));
			M.push_back(b);
		}
	};
	for (int k = 0; k < m; k++) if (w[k] != 0) use(row(c, u[k], 0), V3(q[k]), w[k]);
	for (size_t k = 0; k < ti.size(); k++) use(row(c, u[ti[k]], 1), V3(t[k]), tw[k]);
	// project g onto the complement of the row space of M (Gram-Schmidt)
	std::vector<std::vector<ld>> Q;
	for (auto v : M)
	{
		ld n0 = 0;
		for (ld x : v) n0 += x * x;
		for (auto& e : Q) { ld d = 0; for (int i = 0; i < n; i++) d += e[i] * v[i]; for (int i = 0; i < n; i++) v[i] -= d * e[i]; }
		ld n1 = 0;
		for (ld x : v) n1 += x * x;
		if (n1 < 1e-12L * n0) return;
		for (auto& x : v) x /= sqrtl(n1);
		Q.push_back(v);
	}
	for (auto& e : Q) { V3 d; for (int i = 0; i < n; i++) d += g[i] * e[i]; for (int i = 0; i < n; i++) g[i] = g[i] - d * e[i]; }
	for (int i = 0; i < n; i++) ctx.check(g[i].len() <= 1e-6L * mag, "weighted-optimal", strf("weighted residual is not stationary in control point %d: %.3Lg (magnitude %.3Lg)", i, g[i].len(), mag));
}
SCENARIO(error_bound, 4)
{
	Rng& r = ctx.rng;
	int p = r.irange(1, 4), m = r.irange(p + 2, p + 16);
	ctx.bucket("degree", p);
	auto q = genData(ctx, m);
	ld s = dataScale(q);
	double e = (double)s * r.logu(1e-4, 1.0);
	ctx.dump("maxError", e);
	LN_NurbsCurve c;
	NurbsCurve::GlobalApproximationByErrorBound(p, q, e, c);
	validCurve(ctx, c, "approximant-valid");
	ctx.check(c.Degree == p, "degree", strf("degree %d", c.Degree));
	auto u = chord(q);
	for (int k = 0; k < m; k++)
	{
		ld d = dist(refPoint(c, std::min((ld)hi(c), std::max((ld)lo(c), u[k]))), V3(q[k]));
		ctx.check(d <= e * 1.0001L + 2e-6L + 1e-9L * s, "error-bound-kept", strf("data point %d is %.6Lg away at its parameter, bound %.6g", k, d, e));
	}
}
SCENARIO(remove_by_bound, 3)
{
	Rng& r = ctx.rng;
	CurveOpt o;
	o.minP = 1; o.maxP = 5; o.weightMode = 0; o.maxInterior = 8; o.unitDomain = true;
	auto c = genCurve(ctx, o);
	size_t before = c.ControlPoints.size();
	if (r.chance(0.5))
	{
		// make most knots removable: refine a simple curve
		std::vector<double> ins;
		for (int k = r.irange(1, 4); k > 0; k--)
		{
			double t = genParam(ctx, c, P_SMOOTH);
			bool apart = true;                        // no knots that differ by about the library's knot tolerance
			for (double x : c.KnotVector) apart = apart && (x == t || std::fabs(x - t) > 1e-3);
			for (double x : ins) apart = apart && (x == t || std::fabs(x - t) > 1e-3);
			if (apart) ins.push_back(t);
		}
		std::sort(ins.begin(), ins.end());
		if (!ins.empty())
		{
			LN_NurbsCurve f;
			NurbsCurve::RefineKnotVector(c, ins, f);
			c = f;
		}
	}
	std::vector<double> u;
	int m = r.irange(2, 25);
	for (int i = 0; i < m; i++) u.push_back(lo(c) + (hi(c) - lo(c)) * i / (m - 1.0));
	std::vector<double> err(m, 0.0);
	ld s = maxAbs(c);
	double e = (double)s * r.logu(1e-4, 1.0);
	ctx.dump("maxError", e);
	LN_NurbsCurve d;
	NurbsCurve::RemoveKnotsByGivenBound(c, u, err, e, d);
	validCurve(ctx, d, "approximant-valid");
	ctx.check(d.ControlPoints.size() <= c.ControlPoints.size(), "not-larger", "more control points than before");
	ctx.check(d.ControlPoints.size() <= before, "redundant-knots-go", strf("%zu control points are left of a curve that needs %zu", d.ControlPoints.size(), before));
	for (int k = 0; k < m; k++)
	{
		ld x = dist(refPoint(c, u[k]), refPoint(d, std::min((ld)hi(d), std::max((ld)lo(d), (ld)u[k]))));
		ctx.check(x <= e * 1.0001L + 2e-6L + 1e-9L * s, "error-bound-kept", strf("parameter %.12g moved by %.6Lg, bound %.6g", u[k], x, e));
		ctx.check(x <= err[k] * 1.0001L + 2e-6L + 1e-9L * s, "error-reported", strf("parameter %.12g moved by %.6Lg, reported error %.6g", u[k], x, err[k]));
	}
}
static ld conicDist(const XYZ& A, const XYZ& R, const XYZ& B, double w, const XYZ& q)
{
	ld best = 1e300L;
	auto at = [&](ld t) { ld a = (1 - t) * (1 - t), b = 2 * t * (1 - t) * w, c = t * t; return (V3(A) * a + V3(R) * b + V3(B) * c) / (a + b + c); };
	int N = 200, bi = 0;
	for (int i = 0; i <= N; i++) { ld d = dist(at((ld)i / N), V3(q)); if (d < best) { best = d; bi = i; } }
	ld l = std::max(0, bi - 1) / (ld)N, h = std::min(N, bi + 1) / (ld)N;
	for (int it = 0; it < 60; it++) { ld a = l + (h - l) / 3, b = h - (h - l) / 3; if (dist(at(a), V3(q)) < dist(at(b), V3(q))) h = b; else l = a; }
	return std::min(best, dist(at((l + h) / 2), V3(q)));
}
SCENARIO(fit_conic, 3)
{
	Rng& r = ctx.rng;
	double s = std::max(1.0, genScale(r));
	XYZ A = genPoint(r, s), B = genPoint(r, s), R = genPoint(r, s);
	V3 ab = V3(B) - V3(A), ar = V3(R) - V3(A);
	if (ab.len() < 0.3L * s || ar.len() < 0.3L * s || dist(V3(R), V3(B)) < 0.3L * s || ab.cross(ar).len() < 0.2L * ab.len() * ar.len()) return;
	double w = r.chance(0.2) ? 1.0 : r.logu(0.3, 3);
	int k = r.irange(1, 5), before = r.irange(0, 2), after = r.irange(0, 2);
	bool exact = r.chance(0.6);
	double noise = exact ? 0 : s * r.logu(1e-3, 1e-1);
	std::vector<XYZ> q;
	for (int i = 0; i < before; i++) q.push_back(genPoint(r, s));
	q.push_back(A);
	XYZ n = (ab.cross(ar)).unit().xyz();
	for (int i = 1; i <= k; i++)
	{
		ld t = (i + r.uni(-0.3, 0.3)) / (k + 1), a = (1 - t) * (1 - t), b = 2 * t * (1 - t) * w, c = t * t;
		V3 p = (V3(A) * a + V3(R) * b + V3(B) * c) / (a + b + c);
		XYZ e = genPoint(r, noise);
		e = e - n * e.DotProduct(n);          // stay in the plane of the conic
		q.push_back(p.xyz() + e);
	}
	q.push_back(B);
	for (int i = 0; i < after; i++) q.push_back(genPoint(r, s));
	XYZ T0 = (R - A).Normalize() * r.logu(0.2, 5), T1 = (B - R).Normalize() * r.logu(0.2, 5);
	double e = exact ? s * 1e-3 : noise * r.uni(0.5, 2);
	ctx.dump("points", q); ctx.dump("T0", T0); ctx.dump("T1", T1); ctx.dump("R", R); ctx.dump("w", w); ctx.dump("maxError", e);
	ctx.bucket("interior", k);
	ctx.bucket("exact", exact);
	std::vector<XYZW> mid;
	bool ok = NurbsCurve::FitWithConic(q, before, before + k + 1, T0, T1, e, mid);
	if (exact) ctx.check(ok, "fit-conic-exact", "points of a conic with its own end tangents were not fitted");
	if (!ok) return;
	ctx.check(mid.size() == 1, "fit-conic-count", strf("%zu middle control points", mid.size()));
	XYZ M = mid[0].ToXYZ(true);
	nearPt(ctx, V3(M), V3(R), 1e-5L * s + 1e-6L, "fit-conic-apex", "middle control point");
	if (exact) ctx.near(mid[0].GetW(), w, 1e-7L * (1 + w), "fit-conic-weight", "middle weight");
	for (int i = before + 1; i <= before + k; i++)
	{
		ld d = conicDist(A, M, B, mid[0].GetW(), q[i]);
		ctx.check(d <= e * 1.001L + 1e-5L * (1 + s), "fit-conic-bound", strf("point %d is %.6Lg from the conic, bound %.6g", i, d, e));
	}
}
static ld cubicDist(const XYZ& A, const XYZ& P, const XYZ& Q, const XYZ& B, const XYZ& q)
{
	ld best = 1e300L;
	auto at = [&](ld t) { ld u = 1 - t; return V3(A) * (u * u * u) + V3(P) * (3 * u * u * t) + V3(Q) * (3 * u * t * t) + V3(B) * (t * t * t); };
	int N = 300, bi = 0;
	for (int i = 0; i <= N; i++) { ld d = dist(at((ld)i / N), V3(q)); if (d < best) { best = d; bi = i; } }
	ld l = std::max(0, bi - 1) / (ld)N, h = std::min(N, bi + 1) / (ld)N;
	for (int it = 0; it < 60; it++) { ld a = l + (h - l) / 3, b = h - (h - l) / 3; if (dist(at(a), V3(q)) < dist(at(b), V3(q))) h = b; else l = a; }
	return std::min(best, dist(at((l + h) / 2), V3(q)));
}
SCENARIO(fit_cubic, 3)
{
	Rng& r = ctx.rng;
	double s = std::max(1.0, genScale(r));
	XYZ dir = genPoint(r, 1).Normalize();
	XYZ A = genPoint(r, s), P = A + dir * (0.6 * s) + genPoint(r, 0.5 * s), Q = P + dir * (0.6 * s) + genPoint(r, 0.5 * s), B = Q + dir * (0.6 * s) + genPoint(r, 0.5 * s);
	bool planar = r.chance(0.25), exact = r.chance(0.6);
	int k = r.irange(1, 5), before = r.irange(0, 2), after = r.irange(0, 2);
	double noise = exact ? 0 : s * r.logu(1e-3, 1e-1);
	std::vector<XYZ> q;
	for (int i = 0; i < before; i++) q.push_back(genPoint(r, s));
	q.push_back(A);
	for (int i = 1; i <= k; i++)
	{
		double t = (i + r.uni(-0.3, 0.3)) / (k + 1), u = 1 - t;
		q.push_back(A * (u * u * u) + P * (3 * u * u * t) + Q * (3 * u * t * t) + B * (t * t * t) + genPoint(r, noise));
	}
	q.push_back(B);
	for (int i = 0; i < after; i++) q.push_back(genPoint(r, s));
	if (planar) for (auto& p : q) p = XYZ(p.GetX(), p.GetY(), 0);
	XYZ T0 = P - A, T1 = B - Q;
	if (planar) { T0 = XYZ(T0.GetX(), T0.GetY(), 0); T1 = XYZ(T1.GetX(), T1.GetY(), 0); A = q[before]; B = q[before + k + 1]; }
	T0 = T0.Normalize(); T1 = T1.Normalize();
	double e = exact ? s * 1e-3 : noise * r.uni(0.5, 3);
	ctx.dump("points", q); ctx.dump("T0", T0); ctx.dump("T1", T1); ctx.dump("maxError", e);
	ctx.bucket("interior", k); ctx.bucket("exact", exact); ctx.bucket("planar", planar);
	std::vector<XYZW> mid;
	bool ok = NurbsCurve::FitWithCubic(q, before, before + k + 1, T0, T1, e, mid);
	ctx.bucket("fitted", ok);
	ctx.count("fit-cubic-answered");
	if (exact && !planar) ctx.check(ok, "fit-cubic-exact", "points of a cubic with its own end tangents were not fitted");
	if (planar && k == 1)
	{
		// one point in the plane of the tangents: the cubic through it is determined by the point's chord parameter
		V3 a(A), b(B), p(q[before + 1]), t0(T0), t1(T1);
		ld t = dist(a, p) / (dist(a, p) + dist(p, b)), u = 1 - t, det = t0.cross(t1).z;
		V3 c = p - a * (u * u * u + 3 * u * u * t) - b * (t * t * t + 3 * u * t * t);
		if (std::fabs(det) > 0.02L && (b - a).cross(t0).len() > 0.02L * s)
		{
			ld x = c.cross(t1).z / det / (3 * u * u * t), y = t0.cross(c).z / det / (3 * u * t * t);
			if (x > 1e-3L * s && y < -1e-3L * s)
			{
				ctx.check(ok && mid.size() == 2, "fit-cubic-plane", "the planar cubic through one point was not found");
				nearPt(ctx, V3(mid[0].ToXYZ(true)), a + t0 * x, 1e-8L * (1 + s), "fit-cubic-plane", "first middle point");
				nearPt(ctx, V3(mid[1].ToXYZ(true)), b + t1 * y, 1e-8L * (1 + s), "fit-cubic-plane", "second middle point");
			}
		}
	}
	if (!ok) return;
	ctx.check(mid.size() == 2, "fit-cubic-count", strf("%zu middle control points", mid.size()));
	for (int i = before + 1; i <= before + k; i++)
	{
		ld d = cubicDist(A, mid[0].ToXYZ(true), mid[1].ToXYZ(true), B, q[i]);
		ctx.check(d <= e * 1.001L + 1e-5L * (1 + s), "fit-cubic-bound", strf("point %d is %.6Lg from the cubic, bound %.6g", i, d, e));
	}
}
// two neighbouring points: one or two conic pieces, tangent to what was asked for
SCENARIO(fit_conic_pair, 2)
{
	Rng& r = ctx.rng;
	double s = std::max(1.0, genScale(r));
	int before = r.irange(0, 2), after = r.irange(0, 2);
	std::vector<XYZ> q;
	for (int i = 0; i < before; i++) q.push_back(genPoint(r, s));
	XYZ A = genPoint(r, s), B = genPoint(r, s);
	if (A.Distance(B) < 0.2 * s) return;
	q.push_back(A); q.push_back(B);
	for (int i = 0; i < after; i++) q.push_back(genPoint(r, s));
	XYZ ch = (B - A).Normalize(), n = perpTo(r, ch), o = ch.CrossProduct(n);
	int mode = r.irange(0, 4);
	double a0 = r.uni(0.15, 1.4), a1 = r.uni(0.15, 1.4);
	XYZ T0 = ch * cos(a0) + n * sin(a0), T1;
	if (mode == 0) T1 = ch * cos(a1) - n * sin(a1);                    // proper triangle
	else if (mode == 1) T1 = ch * cos(a1) + n * sin(a1);               // inflection in the plane
	else if (mode == 2) T1 = T0;                                       // parallel tangents
	else if (mode == 3) T1 = (ch * cos(a1) - n * sin(a1) + o * r.uni(0.2, 0.8)).Normalize();   // skew
	else T0 = T1 = ch;                                                 // straight
	ctx.bucket("mode", mode);
	ctx.dump("points", q); ctx.dump("T0", T0); ctx.dump("T1", T1);
	std::vector<XYZW> mid;
	bool ok = NurbsCurve::FitWithConic(q, before, before + 1, T0, T1, 1e-3 * s, mid);
	if (mode == 1 && !ok) return;                                      // extreme inflections may be refused
	ctx.check(ok, "pair-conic-found", strf("no conic between two points, mode %d", mode));
	ctx.check(mid.size() == 1 || mid.size() == 3, "pair-conic-count", strf("%zu middle control points", mid.size()));
	if (mode == 0 || mode == 4) ctx.check(mid.size() == 1, "pair-conic-count", strf("%zu middle control points in mode %d", mid.size(), mode));
	else ctx.check(mid.size() == 3, "pair-conic-count", strf("%zu middle control points in mode %d", mid.size(), mode));
	ld tol = 1e-6L * (1 + s);
	V3 a(A), b(B), f(mid[0].ToXYZ(true)), l(mid.back().ToXYZ(true)), t0(T0), t1(T1);
	for (auto& m : mid) ctx.check(m.GetW() > 0 && std::isfinite(m.GetW()) && finite(m.ToXYZ(true)), "pair-conic-weight", strf("weight %.9g", m.GetW()));
	ctx.check((f - a).dot(t0) > 0 && (f - a).cross(t0).len() <= tol, "pair-conic-start", "the curve does not leave along the start tangent");
	ctx.check((b - l).dot(t1) > 0 && (b - l).cross(t1).len() <= tol, "pair-conic-end", "the curve does not arrive along the end tangent");
	if (mid.size() == 3)
	{
		V3 m(mid[1].ToXYZ(true));
		ctx.check((m - f).cross(l - m).len() <= tol * (1 + s) && (m - f).dot(l - m) > 0, "pair-conic-smooth", "the two pieces meet with a corner");
		ctx.near(mid[1].GetW(), 1, 1e-9L, "pair-conic-joint", "weight of the joint");
	}
	if (mode == 4) nearPt(ctx, f, (a + b) * 0.5L, tol, "pair-conic-straight", "middle control point of a straight piece");
}
SCENARIO(fit_cubic_pair, 2)
{
	Rng& r = ctx.rng;
	double s = std::max(1.0, genScale(r));
	int nq = r.irange(3, 7), k = r.irange(0, nq - 2);
	std::vector<XYZ> q;
	XYZ dir = genPoint(r, 1).Normalize(), p = genPoint(r, s);
	for (int i = 0; i < nq; i++) { q.push_back(p); p = p + dir * (s * r.uni(0.3, 1)) + genPoint(r, 0.5 * s); }
	for (int i = 0; i + 1 < nq; i++) if (q[i].Distance(q[i + 1]) < 0.05 * s) return;
	XYZ T0 = genPoint(r, 1).Normalize(), T1 = genPoint(r, 1).Normalize();
	ctx.dump("points", q); ctx.dump("T0", T0); ctx.dump("T1", T1); ctx.dump("index", (double)k);
	ctx.bucket("where", k == 0 ? "first" : k == nq - 2 ? "last" : "inside");
	std::vector<XYZW> mid;
	bool ok = NurbsCurve::FitWithCubic(q, k, k + 1, T0, T1, 1e-3 * s, mid);
	ctx.check(ok && mid.size() == 2, "pair-cubic-found", strf("no cubic between two points (%zu)", mid.size()));
	V3 a(q[k]), b(q[k + 1]), f(mid[0].ToXYZ(true)), l(mid[1].ToXYZ(true)), t0(T0), t1(T1);
	ld tol = 1e-9L * (1 + s * 10);
	for (auto& m : mid) ctx.check(m.GetW() == 1 && finite(m.ToXYZ(true)), "pair-cubic-weight", strf("weight %.9g", m.GetW()));
	ctx.check((f - a).dot(t0) > 0 && (f - a).cross(t0).len() <= tol, "pair-cubic-start", "the curve does not leave along the start tangent");
	ctx.check((b - l).dot(t1) > 0 && (b - l).cross(t1).len() <= tol, "pair-cubic-end", "the curve does not arrive along the end tangent");
	ld d = dist(a, b);
	if (k > 0) ctx.near((f - a).len(), d / dist(V3(q[k - 1]), a) / 3, tol, "pair-cubic-length", "start: the chord ratio sets the speed");
	if (k < nq - 2) ctx.near((b - l).len(), dist(b, V3(q[k + 2])) / d / 3, tol, "pair-cubic-length", "end: the chord ratio sets the speed");
}
// points of a straight line
SCENARIO(fit_straight, 1)
{
	Rng& r = ctx.rng;
	double s = std::max(1.0, genScale(r));
	XYZ A = genPoint(r, s), d = genPoint(r, 1).Normalize();
	int k = r.irange(1, 5), before = r.irange(0, 2), after = r.irange(0, 2);
	std::vector<XYZ> q;
	for (int i = 0; i < before; i++) q.push_back(genPoint(r, s));
	double t = 0;
	for (int i = 0; i <= k + 1; i++) { q.push_back(A + d * t); t += s * r.uni(0.2, 1); }
	XYZ B = q.back();
	for (int i = 0; i < after; i++) q.push_back(genPoint(r, s));
	ctx.dump("points", q);
	std::vector<XYZW> mid;
	bool cubic = r.chance(0.5);
	ctx.bucket("kind", cubic ? "cubic" : "conic");
	bool ok = cubic ? NurbsCurve::FitWithCubic(q, before, before + k + 1, d, d, 1e-3 * s, mid) : NurbsCurve::FitWithConic(q, before, before + k + 1, d, d, 1e-3 * s, mid);
	ctx.check(ok && mid.size() == (cubic ? 2u : 1u), "straight-found", strf("points of a line were not fitted (%zu)", mid.size()));
	V3 a(A), b(B);
	ld tol = 1e-8L * (1 + s * 10);
	for (size_t i = 0; i < mid.size(); i++)
		nearPt(ctx, V3(mid[i].ToXYZ(true)), a + (b - a) * ((ld)(i + 1) / (mid.size() + 1)), tol, "straight-even", strf("middle control point %zu", i));
	for (auto& m : mid) ctx.near(m.GetW(), 1, 1e-12L, "straight-weight", "weight");
}
#include "main.inc"
