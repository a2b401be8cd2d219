// P27: Coons, Gordon, loft and sweep surfaces contain the curves they are built from
#include "surf.hpp"
using namespace H;

// knots of a clamped curve on the unit domain: curves that have to be made compatible must not carry
// knots closer than the library's own knot tolerance, so they come from one pool
static Knots poolKnots(Rng& g, int p, double a, double b, int maxInterior)
{
	static const double pool[] = { 0.125, 0.2, 0.25, 1.0 / 3, 0.4, 0.5, 0.6, 2.0 / 3, 0.7, 0.75, 0.875 };
	std::vector<double> in;
	int k = g.irange(0, maxInterior);
	for (int i = 0; i < k; i++)
	{
		double x = pool[g.irange(0, 10)];
		int m = g.chance(0.75) ? 1 : g.irange(1, p);
		if (std::find(in.begin(), in.end(), x) == in.end()) for (int q = 0; q < m; q++) in.push_back(x);
	}
	std::sort(in.begin(), in.end());
	Knots U(p + 1, a);
	for (double x : in) U.push_back(a + x * (b - a));
	for (int i = 0; i <= p; i++) U.push_back(b);
	return U;
}
static LN_NurbsCurve poolCurve(Rng& g, const XYZ& A, const XYZ& B, double sc, bool rational, bool unitDomain, int maxP = 4)
{
	LN_NurbsCurve c;
	c.Degree = g.irange(1, maxP);
	double a = 0, b = 1;
	if (!unitDomain && g.chance(0.5)) { a = g.uni(-3, 3); b = a + g.logu(0.3, 5); }
	c.KnotVector = poolKnots(g, c.Degree, a, b, 3);
	int n = (int)c.KnotVector.size() - c.Degree - 1;
	for (int i = 0; i < n; i++)
	{
		double x = (double)i / (n - 1);
		XYZ q = i == 0 ? A : i == n - 1 ? B : A * (1 - x) + B * x + genPoint(g, 0.5 * sc);
		c.ControlPoints.push_back(XYZW(q, (rational && i > 0 && i < n - 1) ? g.uni(0.75, 1.8) : 1.0));
	}
	return c;
}
static V3 unitAt(const LN_NurbsCurve& c, ld x) { return refPoint(c, lo(c) + x * ((ld)hi(c) - lo(c))); }
static LN_NurbsSurface someOutput(Rng& g) { return g.chance(0.5) ? dirtySurface() : LN_NurbsSurface(); }
static std::vector<ld> unitSamples(Rng& g, int n) { std::vector<ld> v{ 0, 1, 0.5L, 0.25L, 1 / 3.0L }; for (int i = 0; i < n; i++) v.push_back(g.uni()); return v; }

SCENARIO(coons, 4)
{
	Rng& g = ctx.rng;
	double sc = genScale(g);
	XYZ off = g.chance(0.3) ? genPoint(g, 3 * sc) : XYZ(0, 0, 0);
	XYZ bl = off + genPoint(g, 0.3 * sc), br = off + XYZ(sc, 0, 0) + genPoint(g, 0.3 * sc), tl = off + XYZ(0, sc, 0) + genPoint(g, 0.3 * sc), tr = off + XYZ(sc, sc, 0) + genPoint(g, 0.3 * sc);
	bool rational = g.chance(0.4);
	// anticlockwise: left downwards, bottom to the right, right upwards, top to the left
	LN_NurbsCurve L = poolCurve(g, tl, bl, sc, rational, false), B = poolCurve(g, bl, br, sc, rational, false), R = poolCurve(g, br, tr, sc, rational, false), T = poolCurve(g, tr, tl, sc, rational, false);
	ctx.bucket("coons", rational ? "rational" : "polynomial");
	ctx.cls(strf("coons %d%d%d%d %zu %zu %zu %zu", L.Degree, B.Degree, R.Degree, T.Degree, L.KnotVector.size(), B.KnotVector.size(), R.KnotVector.size(), T.KnotVector.size()));
	ctx.dump("left", L); ctx.dump("bottom", B); ctx.dump("right", R); ctx.dump("top", T);
	LN_NurbsSurface s = someOutput(g);
	NurbsSurface::CreateCoonsSurface(L, B, R, T, s);
	ctx.dump("surface", s);
	validSurface(ctx, s, "coons-valid");
	ctx.check(fabs(loU(s)) + fabs(loV(s)) + fabs(hiU(s) - 1) + fabs(hiV(s) - 1) < 1e-9, "coons-domain", "the domain is not the unit square");
	ld tol = 1e-7L * (sc + V3(off).len());
	auto l = [&](ld x) { return unitAt(L, 1 - x); };   // upwards
	auto r = [&](ld x) { return unitAt(R, x); };
	auto b = [&](ld x) { return unitAt(B, x); };       // to the right
	auto t = [&](ld x) { return unitAt(T, 1 - x); };
	for (ld x : unitSamples(g, 8))
	{
		nearPt(ctx, refPoint(s, x, 0), l(x), tol, "coons-boundary", strf("left edge at %.9Lg", x));
		nearPt(ctx, refPoint(s, x, 1), r(x), tol, "coons-boundary", strf("right edge at %.9Lg", x));
		nearPt(ctx, refPoint(s, 0, x), b(x), tol, "coons-boundary", strf("bottom edge at %.9Lg", x));
		nearPt(ctx, refPoint(s, 1, x), t(x), tol, "coons-boundary", strf("top edge at %.9Lg", x));
	}
	if (!rational)
		for (int k = 0; k < 20; k++)
		{
			ld u = g.uni(), v = g.uni();
			V3 want = (1 - v) * l(u) + v * r(u) + (1 - u) * b(v) + u * t(v) - ((1 - u) * ((1 - v) * V3(bl) + v * V3(br)) + u * ((1 - v) * V3(tl) + v * V3(tr)));
			nearPt(ctx, refPoint(s, u, v), want, tol, "coons-blend", strf("(%.9Lg,%.9Lg)", u, v));
		}
}
SCENARIO(coons_open_corner, 1)
{
	Rng& g = ctx.rng;
	XYZ bl(0, 0, 0), br(10, 0, 0), tl(0, 10, 0), tr(10, 10, 0);
	LN_NurbsCurve c[4] = { poolCurve(g, tl, bl, 10, false, false), poolCurve(g, bl, br, 10, false, false), poolCurve(g, br, tr, 10, false, false), poolCurve(g, tr, tl, 10, false, false) };
	int w = g.irange(0, 3);
	bool end = g.chance(0.5);
	XYZW& q = end ? c[w].ControlPoints.back() : c[w].ControlPoints.front();
	XYZ d = genPoint(g, 1).Normalize() * g.logu(5e-4, 20);
	q = XYZW(q.ToXYZ(true) + d, 1);
	ctx.cls(strf("open corner %d %d", w, (int)end));
	bool threw = false;
	LN_NurbsSurface s;
	try { NurbsSurface::CreateCoonsSurface(c[0], c[1], c[2], c[3], s); } catch (const std::invalid_argument&) { threw = true; }
	ctx.check(threw, "coons-open-corner", strf("curve %d is off its corner by %.6g and the surface was built all the same", w, d.Length()));
}
SCENARIO(translational, 3)
{
	CurveOpt o;
	o.maxP = 5; o.maxWeightMode = 1; o.maxInterior = 4;
	LN_NurbsCurve p = genCurve(ctx, o), t = genCurve(ctx, o);
	LN_NurbsSurface s = someOutput(ctx.rng);
	NurbsSurface::CreateGeneralizedTranslationalSweepSurface(p, t, s);
	ctx.check(s.DegreeU == p.Degree && s.DegreeV == t.Degree && s.KnotVectorU == p.KnotVector && s.KnotVectorV == t.KnotVector, "translational-structure", "degrees or knots differ from the curves'");
	ld tol = 1e-9L * weightRatio(p) * weightRatio(t) * (maxAbs(p) + maxAbs(t));
	for (double u : sampleParams(p.Degree, p.KnotVector, 2)) for (double v : sampleParams(t.Degree, t.KnotVector, 2))
		nearPt(ctx, refPoint(s, u, v), refPoint(p, u) + refPoint(t, v), tol, "translational-point", strf("(%.9g,%.9g)", u, v));
}

// the lofting parameter of section k is the library's choice: find it from one point of the section, then the whole section has to be there
static bool findSection(const LN_NurbsSurface& s, const LN_NurbsCurve& c, ld tol, ld& at)
{
	ld best = 1e300L, bv = 0;
	auto cost = [&](ld v)
	{
		ld e = 0;
		for (ld x : { 0.0L, 0.21L, 0.5L, 0.83L, 1.0L }) { V3 d = refPoint(s, loU(s) + x * ((ld)hiU(s) - loU(s)), v) - unitAt(c, x); e += d.dot(d); }
		return e;
	};
	int N = 64;
	ld a = loV(s), b = hiV(s);
	std::vector<std::pair<ld, ld>> cand;
	for (int i = 0; i <= N; i++) { ld v = a + (b - a) * i / N; cand.push_back({ cost(v), v }); }
	std::sort(cand.begin(), cand.end());
	for (int k = 0; k < 6; k++)
	{
		ld l = std::max(a, cand[k].second - (b - a) / N), h = std::min(b, cand[k].second + (b - a) / N);
		const ld gr = 0.6180339887498948482L;
		ld x1 = h - gr * (h - l), x2 = l + gr * (h - l), f1 = cost(x1), f2 = cost(x2);
		for (int i = 0; i < 90; i++)
			if (f1 < f2) { h = x2; x2 = x1; f2 = f1; x1 = h - gr * (h - l); f1 = cost(x1); }
			else { l = x1; x1 = x2; f1 = f2; x2 = l + gr * (h - l); f2 = cost(x2); }
		for (ld v : { (l + h) / 2, l, h }) { ld e = cost(v); if (e < best) { best = e; bv = v; } }
		if (best < tol * tol) break;
	}
	at = bv;
	return best < 25 * tol * tol;
}
static void hasSection(Ctx& ctx, const LN_NurbsSurface& s, const LN_NurbsCurve& c, ld tol, const char* monitor, int k, ld* where = nullptr)
{
	ld v;
	bool ok = findSection(s, c, tol, v);
	ctx.check(ok, monitor, strf("section %d is not on the surface (closest at v=%.9Lg)", k, v));
	for (int i = 0; i < 8; i++)
	{
		ld x = ctx.rng.uni();
		nearPt(ctx, refPoint(s, loU(s) + x * ((ld)hiU(s) - loU(s)), v), unitAt(c, x), 10 * tol, monitor, strf("section %d at %.9Lg (v=%.9Lg)", k, x, v));
	}
	if (where) *where = v;
}
// sections stacked along a random direction, in order
static std::vector<LN_NurbsCurve> stack(Ctx& ctx, int n, double sc, bool sameShape, int weights)
{
	Rng& g = ctx.rng;
	XYZ dir = genPoint(g, 1).Normalize(), pos = genPoint(g, sc), len = genPoint(g, 1).Normalize() * sc;
	std::vector<LN_NurbsCurve> v;
	std::vector<double> wk;
	for (int i = 0; i < n; i++)
	{
		LN_NurbsCurve c;
		if (i && sameShape) { c.Degree = v[0].Degree; c.KnotVector = v[0].KnotVector; for (size_t k = 0; k < v[0].ControlPoints.size(); k++) c.ControlPoints.push_back(XYZW(pos + len * (k / (v[0].ControlPoints.size() - 1.0)) + genPoint(g, 0.3 * sc), 1)); }
		else c = poolCurve(g, pos, pos + len + genPoint(g, 0.2 * sc), sc, false, true);
		if (weights == 1) { if (!i) for (auto& q : c.ControlPoints) { (void)q; wk.push_back(g.uni(0.5, 2)); } for (size_t k = 0; k < c.ControlPoints.size(); k++) c.ControlPoints[k] = XYZW(c.ControlPoints[k].ToXYZ(true), wk[k]); }
		if (weights == 2) for (auto& q : c.ControlPoints) q = XYZW(q.ToXYZ(true), g.uni(0.85, 1.2));
		v.push_back(c);
		pos = pos + dir * (sc * g.uni(0.4, 1.2));
	}
	return v;
}
SCENARIO(loft, 4)
{
	Rng& g = ctx.rng;
	int n = g.irange(2, 6);
	double sc = genScale(g);
	bool same = g.chance(0.5);
	int wm = g.chance(0.5) ? 0 : same ? g.irange(1, 2) : 2;
	std::vector<LN_NurbsCurve> v = stack(ctx, n, sc, same, wm);
	if (g.chance(0.15)) // sections that meet in a point
	{
		XYZ p = v[0].ControlPoints[0].ToXYZ(true);
		for (auto& c : v) c.ControlPoints[0] = XYZW(p, c.ControlPoints[0].GetW());
		ctx.cls("common point");
	}
	ctx.bucket("sections", n);
	ctx.bucket("compatible", same ? "yes" : "no");
	ctx.bucket("loft weights", wm);
	for (auto& c : v) { ctx.dump("section", c); ctx.cls(strf("%d/%zu", c.Degree, c.ControlPoints.size())); }
	LN_NurbsSurface s = someOutput(g);
	bool custom = g.chance(0.35);
	std::vector<double> params;
	int q = 0;
	if (custom)
	{
		q = g.irange(1, std::min(n - 1, 4));
		double x = 0;
		for (int i = 0; i < n; i++) { params.push_back(x); x += g.uni(0.5, 1.5); }
		for (double& d : params) d /= params.back() == 0 ? 1 : params[n - 1];
		params[0] = 0; params[n - 1] = 1;
		for (int i = 1; i < n - 1; i++) if (params[i] >= 1) params[i] = 0.5;
		std::sort(params.begin(), params.end());
		ctx.dump("params", params);
		ctx.note(strf("degree %d", q));
	}
	ctx.bucket("custom", custom ? "yes" : "no");
	NurbsSurface::CreateLoftSurface(v, s, q, params);
	validSurface(ctx, s, "loft-valid");
	if (custom) ctx.check(s.DegreeV == q, "loft-degree", strf("degree %d asked for, %d delivered", q, s.DegreeV));
	ld tol = 1e-6L * maxAbs(s) * (wm ? 2 : 1) + 1e-8L;
	auto at = [&](int k, ld p)
	{
		for (ld x : unitSamples(g, 6)) nearPt(ctx, refPoint(s, loU(s) + x * ((ld)hiU(s) - loU(s)), p), unitAt(v[k], x), tol, "loft-section", strf("section %d at u=%.9Lg v=%.9Lg", k, x, p));
	};
	if (custom) for (int k = 0; k < n; k++) at(k, params[k]);
	else
	{
		at(0, loV(s));
		at(n - 1, hiV(s));
		ld prev = loV(s);
		for (int k = 1; k < n - 1; k++)
		{
			ld w;
			hasSection(ctx, s, v[k], tol, "loft-section", k, &w);
			ctx.check(w > prev, "loft-order", strf("section %d found at %.9Lg, the one before at %.9Lg", k, w, prev));
			prev = w;
		}
	}
}

// ---- sweep
static LN_NurbsCurve planarProfile(Ctx& ctx, bool rational)
{
	Rng& g = ctx.rng;
	LN_NurbsCurve c = poolCurve(g, XYZ(g.uni(-2, 2), g.uni(-2, 2), 0), XYZ(g.uni(-2, 2), g.uni(-2, 2), 0), 3, rational, g.chance(0.5));
	for (auto& q : c.ControlPoints) { double w = q.GetW(); XYZ p = q.ToXYZ(true); q = XYZW(XYZ(p.GetX(), p.GetY(), 0), w); }
	ctx.dump("profile", c);
	return c;
}
static LN_NurbsCurve regularTrajectory(Ctx& ctx, int minP, bool rational)
{
	Rng& g = ctx.rng;
	LN_NurbsCurve c;
	c.Degree = g.irange(minP, 3);
	double a = 0, b = 1;
	if (g.chance(0.4)) { a = g.uni(-3, 3); b = a + g.logu(0.3, 5); }
	c.KnotVector = poolKnots(g, c.Degree, a, b, 3);
	for (size_t i = c.Degree + 1; i + c.Degree + 1 < c.KnotVector.size();) // interior multiplicity below the degree: the tangent has to exist
	{
		int m = multOf(c.KnotVector, c.KnotVector[i]);
		if (m >= c.Degree) c.KnotVector.erase(c.KnotVector.begin() + i); else i++;
	}
	int n = (int)c.KnotVector.size() - c.Degree - 1;
	XYZ pos = genPoint(g, 10), dir = genPoint(g, 1).Normalize();
	for (int i = 0; i < n; i++)
	{
		c.ControlPoints.push_back(XYZW(pos, rational ? g.uni(0.8, 1.3) : 1.0));
		dir = (dir + genPoint(g, 0.35)).Normalize();
		pos = pos + dir * g.uni(6, 10);
	}
	ctx.dump("trajectory", c);
	return c;
}
// the curve s(u, v) is the profile, carried rigidly to the point o of the trajectory, in the plane normal to the unit tangent z
static void rigidSection(Ctx& ctx, const LN_NurbsSurface& s, ld v, const LN_NurbsCurve& profile, const V3& o, const V3& z, ld tol, const char* monitor, const std::string& what)
{
	std::vector<ld> xs = unitSamples(ctx.rng, 4);
	std::vector<V3> got, want;
	for (ld x : xs) { got.push_back(refPoint(s, loU(s) + x * ((ld)hiU(s) - loU(s)), v) - o); want.push_back(unitAt(profile, x)); }
	for (size_t i = 0; i < xs.size(); i++)
	{
		ctx.near(got[i].dot(z), 0, tol, monitor, (what + ": the section leaves the plane normal to the trajectory").c_str());
		ctx.near(got[i].len(), want[i].len(), tol, monitor, (what + ": distance of the section from the trajectory").c_str());
		for (size_t j = 0; j < i; j++)
		{
			ctx.near(dist(got[i], got[j]), dist(want[i], want[j]), tol, monitor, (what + ": the section is deformed").c_str());
			ctx.near(got[j].cross(got[i]).dot(z), want[j].x * want[i].y - want[j].y * want[i].x, tol * 10, monitor, (what + ": the section is mirrored").c_str());
		}
	}
}
SCENARIO(sweep_straight, 2)
{
	Rng& g = ctx.rng;
	bool rational = g.chance(0.4);
	LN_NurbsCurve p = planarProfile(ctx, rational), t;
	XYZ a = genPoint(g, 10), d = genPoint(g, 1).Normalize() * g.logu(1, 50);
	int lv = g.irange(0, 1);
	NurbsCurve::CreateLine(a, a + d, t);
	if (g.chance(0.4)) { LN_NurbsCurve x; NurbsCurve::Reparametrize(t, -1, g.uni(0, 4), x); t = x; }
	int K = g.irange(2, 8);
	ctx.bucket("sweep", lv ? "spaced" : "interpolated");
	ctx.dump("trajectory", t);
	ctx.cls(strf("straight %d p%d n%zu K%d", lv, p.Degree, p.ControlPoints.size(), K));
	LN_NurbsSurface s = someOutput(g);
	int q = g.irange(1, std::min(3, K));
	if (lv) { ctx.note(strf("profiles %d degree %d", K, q)); NurbsSurface::CreateSweepSurface(p, t, K, q, s); } else { ctx.note(strf("profiles %d", K)); NurbsSurface::CreateSweepSurface(p, t, K, s); }
	validSurface(ctx, s, "sweep-valid");
	V3 z = V3(d) * (1 / V3(d).len());
	ld tol = 1e-6L * (V3(d).len() + 30), last = -1;
	rigidSection(ctx, s, loV(s), p, V3(a), z, tol, "sweep-ends", "start");
	rigidSection(ctx, s, hiV(s), p, V3(a) + V3(d), z, tol, "sweep-ends", "end");
	V3 s0 = refPoint(s, loU(s), loV(s));
	for (int k = 0; k <= 20; k++)
	{
		ld v = loV(s) + (hiV(s) - (ld)loV(s)) * k / 20;
		ld h = (refPoint(s, loU(s), v) - s0).dot(z);
		ctx.check(h > last, "sweep-progress", strf("the surface runs back at v=%.9Lg", v));
		last = h;
		for (ld x : { 0.0L, 0.3L, 0.72L, 1.0L })
		{
			ld u = loU(s) + x * ((ld)hiU(s) - loU(s));
			nearPt(ctx, refPoint(s, u, v), refPoint(s, u, loV(s)) + z * h, tol, "sweep-extrusion", strf("u=%.9Lg v=%.9Lg", u, v));
		}
	}
}
SCENARIO(sweep_curved, 3)
{
	Rng& g = ctx.rng;
	bool rational = g.chance(0.4);
	LN_NurbsCurve p = planarProfile(ctx, rational), t = regularTrajectory(ctx, 2, g.chance(0.4));
	int n = (int)t.ControlPoints.size();
	bool many = g.chance(0.5);
	int K = many ? g.irange(n, n + 6) : g.irange(1, std::max(1, n - 2));
	ctx.bucket("sweep", many ? "refined" : "own sections");
	ctx.note(strf("profiles %d", K));
	ctx.cls(strf("curved p%d n%zu t%d n%d K%d", p.Degree, p.ControlPoints.size(), t.Degree, n, K));
	LN_NurbsSurface s = someOutput(g);
	NurbsSurface::CreateSweepSurface(p, t, K, s);
	validSurface(ctx, s, "sweep-valid");
	auto tan = [&](ld x) { V3 d = refDers(t, x, 1)[1]; return d * (1 / d.len()); };
	ld tol = 1e-6L * (maxAbs(t) + 10);
	rigidSection(ctx, s, loV(s), p, refPoint(t, lo(t)), tan(lo(t)), tol, "sweep-ends", "start");
	rigidSection(ctx, s, hiV(s), p, refPoint(t, hi(t)), refDers(t, hi(t), 1, refSpanLeft(t.Degree, t.KnotVector, hi(t)))[1] * (1 / refDers(t, hi(t), 1, refSpanLeft(t.Degree, t.KnotVector, hi(t)))[1].len()), tol, "sweep-ends", "end");
	ctx.check((int)s.ControlPoints[0].size() >= K + 1, "sweep-profiles", strf("%d profiles asked for, %zu used", K + 1, s.ControlPoints[0].size()));
}
SCENARIO(sweep_spaced, 2)
{
	Rng& g = ctx.rng;
	LN_NurbsCurve p = planarProfile(ctx, g.chance(0.4)), t = regularTrajectory(ctx, 2, g.chance(0.3));
	int K = g.irange(2, 7), q = g.irange(1, std::min(3, K));
	ctx.bucket("sweep", "spaced curved");
	ctx.note(strf("profiles %d degree %d", K, q));
	ctx.cls(strf("spaced p%d n%zu t%d n%zu K%d q%d", p.Degree, p.ControlPoints.size(), t.Degree, t.ControlPoints.size(), K, q));
	LN_NurbsSurface s = someOutput(g);
	NurbsSurface::CreateSweepSurface(p, t, K, q, s);
	validSurface(ctx, s, "sweep-valid");
	ctx.check(s.DegreeV == q, "sweep-degree", strf("degree %d asked for, %d delivered", q, s.DegreeV));
	ctx.check((int)s.ControlPoints[0].size() == K + 1, "sweep-profiles", strf("%d profiles asked for, %zu used", K + 1, s.ControlPoints[0].size()));
	// sections at equal distances along the trajectory
	ld L = refLength(t, lo(t), hi(t), 1e-9L);
	for (int k = 0; k <= K; k++)
	{
		ld a = lo(t), b = hi(t);
		if (k > 0 && k < K) { for (int i = 0; i < 40; i++) { ld m = (a + b) / 2; if (refLength(t, lo(t), m, 1e-8L) < L * k / K) a = m; else b = m; } }
		else a = b = k ? hi(t) : lo(t);
		ld x = (a - lo(t)) / ((ld)hi(t) - lo(t));
		V3 d = k == K ? refDers(t, a, 1, refSpanLeft(t.Degree, t.KnotVector, a))[1] : refDers(t, a, 1)[1];
		ld tol = (k == 0 || k == K) ? 1e-6L * (maxAbs(t) + 10) : 2e-3L * L;
		rigidSection(ctx, s, x, p, refPoint(t, a), d * (1 / d.len()), tol, k == 0 || k == K ? "sweep-ends" : "sweep-spacing", strf("section %d of %d", k, K));
	}
}

// ---- Gordon
SCENARIO(gordon_2x2, 2)
{
	Rng& g = ctx.rng;
	double sc = genScale(g);
	XYZ off = g.chance(0.3) ? genPoint(g, 3 * sc) : XYZ(0, 0, 0);
	XYZ p00 = off + genPoint(g, 0.3 * sc), p10 = off + XYZ(sc, 0, 0) + genPoint(g, 0.3 * sc), p01 = off + XYZ(0, sc, 0) + genPoint(g, 0.3 * sc), p11 = off + XYZ(sc, sc, 0) + genPoint(g, 0.3 * sc);
	LN_NurbsCurve u0 = poolCurve(g, p00, p10, sc, false, false), u1 = poolCurve(g, p01, p11, sc, false, false), v0 = poolCurve(g, p00, p01, sc, false, false), v1 = poolCurve(g, p10, p11, sc, false, false);
	ctx.bucket("gordon", "2x2");
	ctx.cls(strf("%d%d%d%d", u0.Degree, u1.Degree, v0.Degree, v1.Degree));
	ctx.dump("u0", u0); ctx.dump("u1", u1); ctx.dump("v0", v0); ctx.dump("v1", v1);
	LN_NurbsSurface s = someOutput(g);
	NurbsSurface::CreateGordonSurface({ u0, u1 }, { v0, v1 }, { { p00, p10 }, { p01, p11 } }, s);
	validSurface(ctx, s, "gordon-valid");
	ld tol = 1e-7L * (sc + V3(off).len());
	for (int k = 0; k < 30; k++)
	{
		ld u = k < 10 ? (k & 1) : g.uni(), v = k >= 5 && k < 15 ? (k & 1) : g.uni();
		V3 want = (1 - v) * unitAt(u0, u) + v * unitAt(u1, u) + (1 - u) * unitAt(v0, v) + u * unitAt(v1, v) - ((1 - u) * ((1 - v) * V3(p00) + v * V3(p01)) + u * ((1 - v) * V3(p10) + v * V3(p11)));
		nearPt(ctx, refPoint(s, u, v), want, tol, "gordon-blend", strf("(%.9Lg,%.9Lg)", u, v));
	}
}
SCENARIO(gordon_net, 3)
{
	// curves a(u)+b(t_i) and a(s_j)+b(v), met at their chord length parameters
	Rng& g = ctx.rng;
	int nu = g.irange(2, 5), nv = g.irange(2, 5); // number of u curves, of v curves
	double sc = genScale(g);
	auto walk = [&](int n, XYZ dir, std::vector<XYZ>& q, std::vector<double>& t)
	{
		XYZ p(0, 0, 0);
		for (int i = 0; i < n; i++) { q.push_back(p); p = p + dir * (sc * g.uni(0.5, 1)) + genPoint(g, 0.25 * sc); }
		t = { 0 };
		ld L = 0;
		for (int i = 1; i < n; i++) L += q[i].Distance(q[i - 1]);
		for (int i = 1; i < n; i++) t.push_back(i == n - 1 ? 1 : t.back() + q[i].Distance(q[i - 1]) / (double)L);
	};
	std::vector<XYZ> qa, qb;
	std::vector<double> ta, tb;
	walk(nv, XYZ(1, 0, 0), qa, ta);
	walk(nu, XYZ(0, 1, 0), qb, tb);
	LN_NurbsCurve A, B;
	NurbsCurve::GlobalInterpolation(g.irange(1, std::min(3, nv - 1)), qa, A);
	NurbsCurve::GlobalInterpolation(g.irange(1, std::min(3, nu - 1)), qb, B);
	// more shape between the crossings: elevate, refine and move what does not influence the crossings is not possible in general; two curves may bulge freely
	for (int j = 0; j < nv; j++) if (dist(refPoint(A, ta[j]), V3(qa[j])) > 1e-7 * sc) { ctx.cls("skip"); return; }
	for (int j = 0; j < nu; j++) if (dist(refPoint(B, tb[j]), V3(qb[j])) > 1e-7 * sc) { ctx.cls("skip"); return; }
	if (nv == 2) A = poolCurve(g, qa[0], qa[1], sc, false, true);
	if (nu == 2) B = poolCurve(g, qb[0], qb[1], sc, false, true);
	auto shifted = [&](const LN_NurbsCurve& c, const XYZ& o)
	{
		LN_NurbsCurve r = c;
		for (auto& q : r.ControlPoints) q = XYZW(q.ToXYZ(true) + o, 1);
		if (g.chance(0.3)) { LN_NurbsCurve x; NurbsCurve::ElevateDegree(r, 1, x); r = x; }
		if (g.chance(0.3)) { double a = g.uni(-3, 3); LN_NurbsCurve x; NurbsCurve::Reparametrize(r, a, a + g.uni(0.5, 4), x); r = x; }
		return r;
	};
	std::vector<LN_NurbsCurve> us, vs;
	std::vector<std::vector<XYZ>> ip;
	for (int i = 0; i < nu; i++)
	{
		us.push_back(shifted(A, qb[i]));
		ip.push_back({});
		for (int j = 0; j < nv; j++) ip[i].push_back(qb[i] + qa[j]);
	}
	for (int j = 0; j < nv; j++) vs.push_back(shifted(B, qa[j]));
	ctx.bucket("gordon", strf("%dx%d", nu, nv));
	ctx.cls(strf("net %dx%d p%d q%d", nu, nv, A.Degree, B.Degree));
	for (auto& c : us) ctx.dump("u curve", c);
	for (auto& c : vs) ctx.dump("v curve", c);
	LN_NurbsSurface s = someOutput(g);
	NurbsSurface::CreateGordonSurface(us, vs, ip, s);
	validSurface(ctx, s, "gordon-valid");
	ld tol = 1e-6L * sc * (nu + nv);
	for (ld x : unitSamples(g, 5))
	{
		for (int i = 0; i < nu; i++) nearPt(ctx, refPoint(s, x, tb[i]), unitAt(us[i], x), tol, "gordon-net", strf("u curve %d at %.9Lg", i, x));
		for (int j = 0; j < nv; j++) nearPt(ctx, refPoint(s, ta[j], x), unitAt(vs[j], x), tol, "gordon-net", strf("v curve %d at %.9Lg", j, x));
	}
}
#include "main.inc"
