// P19: bilinear, cylindrical, ruled and revolved surfaces and scaling are exact
#include "surf.hpp"
using namespace H;

static XYZ unit(Rng& g) { XYZ v; do v = genPoint(g, 1); while (v.Length() < 0.1); return v.Normalize(); }

SCENARIO(bilinear, 2)
{
	Rng& g = ctx.rng;
	double sc = genScale(g);
	XYZ q[4];
	for (int k = 0; k < 4; k++) q[k] = k > 0 && g.chance(0.15) ? q[g.irange(0, k - 1)] : genPoint(g, sc);
	XYZ a = q[0], b = q[1], c = q[2], d = q[3];
	ctx.cls("bilinear");
	ctx.dump("tl", a); ctx.dump("tr", b); ctx.dump("bl", c); ctx.dump("br", d);
	LN_NurbsSurface s = g.chance(0.5) ? dirtySurface() : LN_NurbsSurface();
	NurbsSurface::CreateBilinearSurface(a, b, c, d, s);
	validSurface(ctx, s, "bilinear-valid");
	for (int k = 0; k < 25; k++)
	{
		ld x = k < 4 ? (k & 1) : g.uni(), y = k < 4 ? (k >> 1) : g.uni();
		ld u = loU(s) + x * (hiU(s) - loU(s)), v = loV(s) + y * (hiV(s) - loV(s));
		V3 want = (1 - x) * ((1 - y) * V3(a) + y * V3(b)) + x * ((1 - y) * V3(c) + y * V3(d));
		nearPt(ctx, refPoint(s, u, v), want, 1e-11L * (1 + sc), "bilinear-point", strf("(%.9Lg,%.9Lg)", u, v));
	}
}

SCENARIO(cylinder, 3)
{
	Rng& g = ctx.rng;
	double r = g.logu(0.05, 300), h = g.logu(0.05, 300);
	XYZ o = genPoint(g, g.logu(0.1, 100)), ex = unit(g), ey = perpTo(g, ex);
	double a = g.chance(0.3) ? 0 : g.uni(-6.2, 6.2), th = g.chance(0.3) ? g.irange(1, 4) * Constants::Pi / 2 : g.uni(0.05, 2 * Constants::Pi);
	XYZ X = ex * (g.chance(0.5) ? 1 : g.logu(0.1, 10)), Y = ey * (g.chance(0.5) ? 1 : g.logu(0.1, 10)), X0 = X, Y0 = Y;
	ctx.bucket("quarter", (int)ceil(th / (Constants::Pi / 2) - 1e-9));
	ctx.cls("cylinder");
	ctx.note(strf("origin (%.17g,%.17g,%.17g) x (%.17g,%.17g,%.17g) y (%.17g,%.17g,%.17g) angles %.17g..%.17g radius %.17g height %.17g", o.GetX(), o.GetY(), o.GetZ(), X.GetX(), X.GetY(), X.GetZ(), Y.GetX(), Y.GetY(), Y.GetZ(), a, a + th, r, h));
	LN_NurbsSurface s = dirtySurface();
	bool ok = NurbsSurface::CreateCylindricalSurface(o, X, Y, a, a + th, r, h, s);
	ctx.check(ok, "cylinder-created", "refused");
	for (int k = 0; k < 3; k++) ctx.check(X[k] == X0[k] && Y[k] == Y0[k], "input-untouched", "axis modified");
	validSurface(ctx, s, "cylinder-valid");
	V3 O(o), E(ex), F(ey), N = E.cross(F);
	ld tol = 1e-6L * (r + h) + 1e-9L * V3(o).len();
	for (int k = 0; k < 24; k++)
	{
		ld x = k < 4 ? (k & 1) : g.uni(), y = k < 4 ? (k >> 1) : g.uni();
		ld u = loU(s) + x * (hiU(s) - loU(s)), v = loV(s) + y * (hiV(s) - loV(s));
		V3 q = refPoint(s, u, v) - O;
		ld z = q.dot(N), px = q.dot(E), py = q.dot(F);
		ctx.near(sqrtl(px * px + py * py), r, tol, "cylinder-radius", "distance to the axis");
		ctx.near(z, (1 - x) * h, tol, "cylinder-height", "height is not linear in u");
		// angle within the range
		ld d = atan2l(py, px) - a;
		while (d < -1e-6L) d += 2 * M_PIl;
		while (d > 2 * M_PIl + 1e-6L) d -= 2 * M_PIl;
		ctx.check(d <= th + 1e-6L || d >= 2 * M_PIl - 1e-5L, "cylinder-angle", strf("angle %.12Lg outside the range of %.12g", d, th));
	}
	auto at = [&](ld t, ld z) { return O + E * (r * cosl(t)) + F * (r * sinl(t)) + N * z; };
	nearPt(ctx, refPoint(s, hiU(s), loV(s)), at(a, 0), tol, "cylinder-corners", "bottom start");
	nearPt(ctx, refPoint(s, hiU(s), hiV(s)), at((ld)a + th, 0), tol, "cylinder-corners", "bottom end");
	nearPt(ctx, refPoint(s, loU(s), loV(s)), at(a, h), tol, "cylinder-corners", "top start");
	// the arc is covered completely: neighbouring samples turn by a little only
	ld turn = 0;
	V3 prev = refPoint(s, hiU(s), loV(s)) - O;
	for (int k = 1; k <= 64; k++) { V3 q = refPoint(s, hiU(s), loV(s) + (hiV(s) - loV(s)) * k / (ld)64) - O; turn += atan2l(prev.cross(q).dot(N), prev.dot(q)); prev = q; }
	ctx.near(turn, th, 1e-5L, "cylinder-covers", "total angle");
}

static LN_NurbsCurve profileCurve(Ctx& ctx, int wm = 1)
{
	CurveOpt o;
	o.maxP = 5;
	o.maxInterior = 3;
	o.maxWeightMode = wm;
	o.minGap = 0.06;
	o.scale = ctx.rng.chance(0.5) ? 10 : ctx.rng.logu(0.5, 200);
	return genCurve(ctx, o);
}

SCENARIO(ruled, 4)
{
	LN_NurbsCurve a = profileCurve(ctx), b = profileCurve(ctx);
	// same domain, some shared knots
	NurbsCurve::Reparametrize(b, lo(a), hi(a), b);
	if (ctx.rng.chance(0.4))
	{
		auto g = innerKnots(a.Degree, a.KnotVector);
		std::vector<double> add;
		double mg = 1e30;
		for (double x : g) for (double y : b.KnotVector) if (x != y) mg = std::min(mg, fabs(x - y));
		if (mg > 1e-3) for (double x : g) if (ctx.rng.chance(0.7) && multOf(b.KnotVector, x) < b.Degree) add.push_back(x);
		if (!add.empty()) { LN_NurbsCurve t; NurbsCurve::RefineKnotVector(b, add, t); b = t; ctx.bucket("shared-knots", true); }
	}
	ctx.dump("curve0", a);
	ctx.dump("curve1", b);
	LN_NurbsCurve a0 = a, b0 = b;
	LN_NurbsSurface s = ctx.rng.chance(0.5) ? dirtySurface() : LN_NurbsSurface();
	NurbsSurface::CreateRuledSurface(a, b, s);
	ctx.check(identical(a, a0) && identical(b, b0), "input-untouched", "a curve was modified");
	validSurface(ctx, s, "ruled-valid");
	ctx.check(s.DegreeU == std::max(a.Degree, b.Degree) && s.DegreeV == 1, "ruled-degree", strf("degrees %d %d", s.DegreeU, s.DegreeV));
	ld tol = 1e3L * (pointTol(a) + pointTol(b)) + 1e-9L;
	for (double u : sampleParams(s.DegreeU, s.KnotVectorU, 3))
	{
		V3 p = refPoint(a, u), q = refPoint(b, u);
		nearPt(ctx, refPoint(s, u, loV(s)), p, tol, "ruled-edge", strf("first curve at %.12g", u));
		nearPt(ctx, refPoint(s, u, hiV(s)), q, tol, "ruled-edge", strf("second curve at %.12g", u));
		ld w = ctx.rng.uni();
		V3 m = refPoint(s, u, loV(s) + w * (hiV(s) - loV(s)));
		ld L = dist(p, q);
		ctx.check(dist(m, p) + dist(m, q) <= L + 2 * tol + 1e-9L * L, "ruled-line", strf("point at (%.12g,%.6Lg) is off the ruling by %.3Lg", u, w, dist(m, p) + dist(m, q) - L));
	}
}
SCENARIO(ruled_refused, 1)
{
	LN_NurbsCurve a = profileCurve(ctx), b = profileCurve(ctx);
	NurbsCurve::Reparametrize(b, lo(a) + ctx.rng.uni(0.1, 2), hi(a) + ctx.rng.uni(0.1, 2), b);
	LN_NurbsSurface s;
	bool thrown = false;
	try { NurbsSurface::CreateRuledSurface(a, b, s); } catch (const std::invalid_argument&) { thrown = true; }
	ctx.check(thrown, "ruled-refuses", "curves on different domains were accepted");
}

SCENARIO(revolved, 6)
{
	Rng& g = ctx.rng;
	LN_NurbsCurve c = profileCurve(ctx);
	XYZ o = genPoint(g, g.chance(0.5) ? 5 : 50), ax = unit(g);
	double k = g.chance(0.5) ? 1 : g.logu(0.1, 10), rad = g.chance(0.35) ? g.irange(1, 4) * Constants::Pi / 2 : g.uni(0.05, 2 * Constants::Pi);
	// some control points on the axis
	if (g.chance(0.3)) { auto& p = c.ControlPoints[g.chance(0.5) ? 0 : c.ControlPoints.size() - 1]; p = XYZW(o + g.uni(-5, 5) * ax, p.GetW()); ctx.bucket("on-axis", true); }
	ctx.bucket("quarter", (int)ceil(rad / (Constants::Pi / 2) - 1e-9));
	ctx.bucket("unit-axis", k == 1);
	ctx.dump("profile", c);
	ctx.note(strf("origin (%.17g,%.17g,%.17g) axis (%.17g,%.17g,%.17g) angle %.17g", o.GetX(), o.GetY(), o.GetZ(), ax.GetX() * k, ax.GetY() * k, ax.GetZ() * k, rad));
	LN_NurbsCurve c0 = c;
	XYZ axis = ax * k, axis0 = axis;
	LN_NurbsSurface s = dirtySurface();
	bool ok = NurbsSurface::CreateRevolvedSurface(o, axis, rad, c, s);
	ctx.check(ok, "revolved-created", "refused");
	ctx.check(identical(c, c0) && axis[0] == axis0[0] && axis[1] == axis0[1] && axis[2] == axis0[2], "input-untouched", "input modified");
	validSurface(ctx, s, "revolved-valid");
	ctx.check(s.DegreeU == 2 && s.DegreeV == c.Degree && s.KnotVectorV == c.KnotVector, "revolved-structure", "degree or profile knots differ");
	V3 O(o), N(ax);
	ld tol = 1e-6L * (1 + maxAbs(c) + V3(o).len());
	ld turn = 0, prevA = 0;
	for (int i = 0; i <= 32; i++)
	{
		ld x = (ld)i / 32, u = loU(s) + x * (hiU(s) - loU(s)), th = 0;
		bool haveTh = false;
		for (int j = 0; j < 6; j++)
		{
			ld v = j == 0 ? lo(c) : j == 1 ? hi(c) : lo(c) + (hi(c) - lo(c)) * g.uni();
			V3 p = refPoint(c, v) - O, q = refPoint(s, u, v) - O;
			ctx.near(q.dot(N), p.dot(N), tol, "revolved-height", "height along the axis");
			V3 pr = p - N * p.dot(N), qr = q - N * q.dot(N);
			ctx.near(qr.len(), pr.len(), tol, "revolved-radius", "distance to the axis");
			if (pr.len() > 1e-2L * (1 + maxAbs(c)))
			{
				ld a = atan2l(pr.cross(qr).dot(N), pr.dot(qr));
				if (!haveTh) { th = a; haveTh = true; }
				else { ld d = a - th; while (d > M_PIl) d -= 2 * M_PIl; while (d < -M_PIl) d += 2 * M_PIl; ctx.check(fabsl(d) < 1e-3L, "revolved-rigid", strf("profile points turned by different angles %.9Lg and %.9Lg", th, a)); }
			}
		}
		if (!haveTh) { turn = 1e30L; break; }
		ld d = th - prevA;
		while (d < -1e-6L) d += 2 * M_PIl;
		while (d > 2 * M_PIl - 1e-6L) d -= 2 * M_PIl;
		ctx.check(d <= rad / 4 + 1e-5L, "revolved-covers", strf("step of %.9Lg in the sweep angle", d));
		turn += d;
		prevA = th;
	}
	if (turn < 1e29L) ctx.near(turn, rad, 1e-4L, "revolved-angle", "total sweep angle");
	for (double v : sampleParams(c.Degree, c.KnotVector, 2)) nearPt(ctx, refPoint(s, loU(s), v), refPoint(c, v), tol, "revolved-starts-at-profile", strf("v=%.12g", v));
}

SCENARIO(scaling, 2)
{
	SurfOpt o;
	LN_NurbsSurface s = genSurface(ctx, o), r = s;
	Rng& g = ctx.rng;
	double f[3];
	for (int k = 0; k < 3; k++) f[k] = g.chance(0.2) ? 1 : (g.chance(0.2) ? -1 : 1) * g.logu(0.05, 20);
	XYZ c = g.chance(0.4) ? XYZ(0, 0, 0) : genPoint(g, (double)maxAbs(s));
	ctx.note(strf("factors %.17g %.17g %.17g", f[0], f[1], f[2]));
	ctx.dump("centre", c);
	auto in = s.ControlPoints;
	r.ControlPoints = NurbsSurface::NonUniformScaling(s.ControlPoints, f[0], f[1], f[2], c);
	validSurface(ctx, r, "scaling-valid");
	ctx.check(r.ControlPoints.size() == in.size() && r.ControlPoints[0].size() == in[0].size(), "scaling-structure", "net size changed");
	ld tol = surfTol(s) * 1e2L * 20 + 1e-9L;
	V3 C(c);
	for (double u : sampleParams(s.DegreeU, s.KnotVectorU, 2)) for (double v : sampleParams(s.DegreeV, s.KnotVectorV, 2))
	{
		V3 p = refPoint(s, u, v) - C;
		nearPt(ctx, refPoint(r, u, v), C + V3(p.x * f[0], p.y * f[1], p.z * f[2]), tol, "scaling-point", strf("(%.12g,%.12g)", u, v));
	}
}
#include "main.inc"
