// P09: constructed lines, arcs, conics and Hermite curves are the geometry that was asked for
#include "common.h"
using namespace H;

static void frame(Rng& g, XYZ& ex, XYZ& ey, XYZ& ez)
{
	ex = genPoint(g, 1).Normalize();
	do ez = ex.CrossProduct(genPoint(g, 1)); while (ez.Length() < 0.1);
	ez = ez.Normalize();
	ey = ez.CrossProduct(ex).Normalize();
}

SCENARIO(line, 1)
{
	Rng& g = ctx.rng;
	XYZ a = genPoint(g, genScale(g)), b = a + genPoint(g, g.logu(0.01, 100));
	if (a.Distance(b) < 1e-3 * (1 + a.Length())) return;
	LN_NurbsCurve c;
	NurbsCurve::CreateLine(a, b, c);
	validCurve(ctx, c, "line-valid");
	for (int i = 0; i <= 4; i++)
	{
		ld f = i / 4.0L;
		nearPt(ctx, refPoint(c, lo(c) + f * (hi(c) - lo(c))), V3(a) * (1 - f) + V3(b) * f, 1e-12L * (1 + maxAbs(c)), "line-points", "point");
	}
}

SCENARIO(arc, 5)
{
	Rng& g = ctx.rng;
	XYZ ex, ey, ez;
	frame(g, ex, ey, ez);
	XYZ center = genPoint(g, 20);
	static const double special[] = { 0.25, 0.5, 1, 1.5, 2 };
	double theta = g.chance(0.4) ? special[g.irange(0, 4)] * Constants::Pi : g.uni(0.1, 2 * Constants::Pi);
	double start = g.chance(0.3) ? 0 : g.uni(-7, 7);
	bool circle = g.chance(0.5);
	double rmin = g.chance(0.2) ? 0.005 : 0.3, rmax = rmin < 0.3 ? 600 : 60;
	if (rmin < 0.3 && g.chance(0.5)) theta = g.logu(1e-3, 0.1);
	bool plain = rmin == 0.3;
	double rx = g.logu(rmin, rmax), ry = circle ? rx : g.chance(0.5) ? g.logu(rmin, rmax) : rx * g.uni(0.5, 2);
	XYZ ax = ex * g.logu(0.2, 5), ay = ey * g.logu(0.2, 5);
	ctx.bucket("shape", circle ? "circle" : "ellipse");
	ctx.bucket("quadrants", (int)std::ceil(theta / (Constants::Pi / 2) - 1e-9));
	ctx.bucket("full", theta > 2 * Constants::Pi - 1e-9 ? "yes" : "no");
	ctx.cls(strf("theta%d ratio%d start%d", (int)(theta * 6), (int)(4 * std::log(rx / ry)), (int)std::floor(start)));
	ctx.dump("center", center); ctx.dump("xAxis", ax); ctx.dump("yAxis", ay);
	ctx.note(strf("start %.17g end %.17g rx %.17g ry %.17g", start, start + theta, rx, ry));
	LN_NurbsCurve c;
	bool ok = NurbsCurve::CreateArc(center, ax, ay, start, start + theta, rx, ry, c);
	ctx.check(ok, "arc-created", "a proper arc was not created");
	validCurve(ctx, c, "arc-valid");
	ld sc = std::max(rx, ry) + maxAbs(c);
	ld tol = 1e-8L * sc * std::max(rx / ry, ry / rx);
	auto at = [&](ld an) { return V3(center) + V3(ex) * (rx * cosl(an)) + V3(ey) * (ry * sinl(an)); };
	nearPt(ctx, refPoint(c, lo(c)), at(start), tol, "arc-ends", "start point");
	nearPt(ctx, refPoint(c, hi(c)), at((ld)start + theta), tol, "arc-ends", "end point");
	ld prev = 0;
	int N = 48;
	for (int i = 0; i <= N; i++)
	{
		V3 p = refPoint(c, lo(c) + (ld)(hi(c) - lo(c)) * i / N) - V3(center);
		ld u = p.dot(V3(ex)) / rx, v = p.dot(V3(ey)) / ry;
		ctx.near(p.dot(V3(ez)), 0, tol, "arc-planar", "distance to the arc's plane");
		ctx.near(u * u + v * v, 1, 1e-8L * (sc / std::min(rx, ry)), "arc-on-ellipse", "implicit equation");
		ld an = atan2l(v, u) - (ld)start;
		while (an < prev - 1e-6L) an += 2 * 3.14159265358979323846264L;
		while (an > prev + 3.14159265358979323846264L) an -= 2 * 3.14159265358979323846264L;
		if (i > 0) ctx.check(an > prev - 1e-6L && an <= theta + 1e-6L, "arc-monotone", strf("angle %.9Lg after %.9Lg (sweep %.9g)", an, prev, theta));
		prev = an;
	}
	ctx.near(prev, theta, 1e-5L, "arc-sweep", "total angle");
	if (circle && plain)
	{
		LN_ArcInfo info;
		ctx.check(NurbsCurve::IsArc(c, info), "isarc", "circular arc not recognised");
		ctx.near(info.Radius, rx, 1e-5L * (1 + rx), "isarc", "radius");
		nearPt(ctx, V3(info.Center), V3(center), 1e-4L * (1 + sc), "isarc", "center");
		ctx.check(info.IsCircle == (theta > 2 * Constants::Pi - 1e-9), "isarc", "full circle misreported");
		ctx.near(NurbsCurve::ApproximateLength(c), (ld)rx * theta, 1e-6L * rx * theta, "arc-length", "length");
	}
	else if (plain && std::max(rx / ry, ry / rx) > 1.2 && std::max(rx / ry, ry / rx) < 8 && std::min(rx, ry) > 0.02 && theta > 1.2)
	{
		LN_ArcInfo info;
		ctx.check(!NurbsCurve::IsArc(c, info), "isarc", "elliptic arc reported as circular");
	}
}

// a conic given by two end points with tangents and one more point
SCENARIO(conic, 5)
{
	Rng& g = ctx.rng;
	XYZ ex, ey, ez;
	frame(g, ex, ey, ez);
	XYZ org = genPoint(g, 10);
	auto W = [&](ld x, ld y) { return (V3(org) + V3(ex) * x + V3(ey) * y).xyz(); };
	int kind = g.irange(0, 4);
	XYZ P0, P2, T0, T2, P;
	std::function<ld(ld, ld)> implicit; // in local coordinates, scaled to O(1)
	ld s = g.logu(0.5, 20);
	if (kind <= 2)
	{
		// ellipse with semi axes a,b between two angles
		ld a = s, b = kind == 0 ? s : s * g.uni(0.4, 2.5);
		ld t0 = g.uni(-3, 3), sweep = kind == 2 ? 3.14159265358979323846264L : g.uni(0.4, 5.6);
		if (kind != 2 && fabsl(sweep - 3.14159265358979323846264L) < 0.15L) sweep = 2.5L;
		ld t2 = t0 + sweep, tm = t0 + sweep * g.uni(0.3, 0.7);
		P0 = W(a * cosl(t0), b * sinl(t0)); P2 = W(a * cosl(t2), b * sinl(t2)); P = W(a * cosl(tm), b * sinl(tm));
		ld k0 = g.logu(0.3, 3), k2 = g.logu(0.3, 3);
		T0 = (V3(ex) * (-a * sinl(t0) * k0) + V3(ey) * (b * cosl(t0) * k0)).xyz();
		T2 = (V3(ex) * (-a * sinl(t2) * k2) + V3(ey) * (b * cosl(t2) * k2)).xyz();
		implicit = [a, b](ld x, ld y) { return x * x / (a * a) + y * y / (b * b) - 1; };
		ctx.bucket("sweep", sweep < 1.5L ? "small" : sweep < 3 ? "medium" : sweep < 3.3L ? "half" : sweep < 4.5L ? "large" : "huge");
	}
	else if (kind == 3)
	{
		// parabola y = x^2 / s
		ld x0 = g.uni(-2, 0) * s, x2 = x0 + g.uni(0.5, 3) * s, xm = x0 + (x2 - x0) * g.uni(0.3, 0.7);
		P0 = W(x0, x0 * x0 / s); P2 = W(x2, x2 * x2 / s); P = W(xm, xm * xm / s);
		T0 = (V3(ex) + V3(ey) * (2 * x0 / s)).xyz(); T2 = (V3(ex) + V3(ey) * (2 * x2 / s)).xyz();
		implicit = [s](ld x, ld y) { return (y - x * x / s) / s; };
	}
	else
	{
		// hyperbola x y = s^2, x > 0
		ld x0 = s * g.uni(0.3, 1), x2 = s * g.uni(1.5, 4), xm = x0 + (x2 - x0) * g.uni(0.2, 0.6);
		P0 = W(x0, s * s / x0); P2 = W(x2, s * s / x2); P = W(xm, s * s / xm);
		T0 = (V3(ex) - V3(ey) * (s * s / x0 / x0)).xyz(); T2 = (V3(ex) - V3(ey) * (s * s / x2 / x2)).xyz();
		implicit = [s](ld x, ld y) { return x * y / s / s - 1; };
	}
	static const char* kn[] = { "circle", "ellipse", "half-ellipse", "parabola", "hyperbola" };
	ctx.bucket("conic", kn[kind]);
	ctx.cls(strf("chord%d dev%d", (int)(8 * P0.Distance(P2) / s), (int)(8 * P.Distance(P0) / s)));
	ctx.dump("start", P0); ctx.dump("startTangent", T0); ctx.dump("end", P2); ctx.dump("endTangent", T2); ctx.dump("point", P);
	LN_NurbsCurve c;
	bool ok = NurbsCurve::CreateOpenConic(P0, T0, P2, T2, P, c);
	ctx.check(ok, "conic-created", "a proper conic was not created");
	validCurve(ctx, c, "conic-valid");
	ld tol = 1e-5L * (s + maxAbs(c));
	nearPt(ctx, refPoint(c, lo(c)), V3(P0), tol, "conic-ends", "start point");
	nearPt(ctx, refPoint(c, hi(c)), V3(P2), tol, "conic-ends", "end point");
	ld best = 1e300L;
	int N = 400;
	V3 prev;
	for (int i = 0; i <= N; i++)
	{
		V3 q = refPoint(c, lo(c) + (ld)(hi(c) - lo(c)) * i / N), p = q - V3(org);
		ld x = p.dot(V3(ex)), y = p.dot(V3(ey));
		ctx.near(p.dot(V3(ez)), 0, tol, "conic-planar", "distance to the plane");
		ctx.near(implicit(x, y), 0, 2e-4L, "conic-implicit", strf("implicit equation at sample %d", i).c_str());
		if (i)
		{
			// distance from P to the chord
			V3 d = q - prev;
			ld f = d.dot(d) > 0 ? std::min((ld)1, std::max((ld)0, (V3(P) - prev).dot(d) / d.dot(d))) : 0;
			best = std::min(best, dist(V3(P), prev + d * f));
		}
		prev = q;
	}
	ctx.near(best, 0, 2e-3L * s, "conic-through-point", "distance of the given point to the curve");
	V3 d0 = refDers(c, lo(c), 1)[1].unit(), d2 = refDers(c, hi(c), 1)[1].unit();
	ctx.near(d0.dot(V3(T0).unit()), 1, 1e-4L, "conic-tangents", "direction at the start");
	ctx.near(d2.dot(V3(T2).unit()), 1, 1e-4L, "conic-tangents", "direction at the end");
}

SCENARIO(hermite, 3)
{
	Rng& g = ctx.rng;
	int n = g.irange(4, 12);
	double s = genScale(g);
	std::vector<XYZ> q, t;
	XYZ walk = genPoint(g, s);
	for (int i = 0; i < n; i++) { walk = walk + genPoint(g, s); q.push_back(walk); t.push_back(genPoint(g, s * 3)); }
	int closed = g.irange(0, 3);
	if (closed == 1) q[n - 1] = q[0];
	if (closed == 2) { q[n - 1] = q[0]; t[n - 1] = t[0]; }
	for (int i = 1; i < n; i++) if (q[i].Distance(q[i - 1]) < 0.05 * s) return;
	ctx.bucket("closed", closed);
	ctx.bucket("n", n);
	ctx.dump("points", q);
	ctx.dump("tangents", t);
	LN_NurbsCurve c;
	NurbsCurve::CreateCubicHermite(q, t, c);
	validCurve(ctx, c, "hermite-valid");
	ctx.check(c.Degree == 3, "hermite-degree", "degree");
	// chord length parameters on the curve's domain
	ld tot = 0;
	for (int i = 1; i < n; i++) tot += dist(V3(q[i]), V3(q[i - 1]));
	ld acc = 0;
	for (int i = 0; i < n; i++)
	{
		if (i) acc += dist(V3(q[i]), V3(q[i - 1]));
		ld u = lo(c) + (hi(c) - lo(c)) * acc / tot;
		u = std::min((ld)hi(c), u);
		// right at the double knot the derivative exists; take the span the parameter belongs to
		ld best = 1e300L, bd = 1e300L;
		for (ld e : { (ld)0, (ld)1e-13L, (ld)-1e-13L })
		{
			ld x = std::min((ld)hi(c), std::max((ld)lo(c), u + e * (hi(c) - lo(c))));
			auto D = refDers(c, x, 1);
			best = std::min(best, dist(D[0], V3(q[i])));
			bd = std::min(bd, dist(D[1], V3(t[i])));
		}
		ctx.near(best, 0, 1e-9L * (s * 10 + maxAbs(c)), "hermite-points", "distance to the given point");
		ctx.near(bd, 0, 1e-7L * (s * 10 + maxAbs(c)), "hermite-tangents", "difference to the given tangent");
	}
}
// one conic arc (start, middle point with weight, end) cut at its shoulder: both halves lie on the arc
SCENARIO(conic_split, 2)
{
	Rng& g = ctx.rng;
	double s = g.logu(0.5, 20);
	XYZ P0 = genPoint(g, s), P1 = genPoint(g, s), P2 = genPoint(g, s);
	double w = g.irange(0, 3) == 0 ? 0.0 : g.chance(0.25) ? -g.uni(0.05, 0.85) : g.logu(0.05, 8);
	bool inf = w == 0.0;
	V3 n = inf ? V3(P1).cross(V3(P2) - V3(P0)) : (V3(P1) - V3(P0)).cross(V3(P2) - V3(P0));
	if (n.len() < 0.05L * s * s) return;
	ctx.bucket("middle", inf ? "at infinity" : w < 0 ? "negative" : w < 1 ? "ellipse" : "hyperbola");
	ctx.cls(strf("w%d", (int)(4 * w)));
	ctx.dump("start", P0); ctx.dump("middle", P1); ctx.dump("end", P2); ctx.dump("weight", w);
	ctx.nontrivial = true;
	XYZ Q, S, R;
	double wi = 0;
	NurbsCurve::SplitArc(P0, P1, w, P2, Q, S, R, wi);
	ctx.check(std::isfinite(wi) && wi > 0, "split-weight", strf("%g", wi));
	auto on = [&](const V3& x, const char* what)
	{
		// coordinates of x in the frame of the arc: x = a P0 + b P1 + c P2
		V3 e1 = inf ? V3(P1) : V3(P1) - V3(P0), e2 = V3(P2) - V3(P0), d = x - V3(P0);
		ld A = e1.dot(e1), B = e1.dot(e2), C = e2.dot(e2), D = d.dot(e1), E = d.dot(e2), det = A * C - B * B;
		ld b = (D * C - E * B) / det, c = (A * E - B * D) / det, a = inf ? 1 - c : 1 - b - c;
		ctx.near((e1 * b + e2 * c - d).len(), 0, 1e-7L * s, "split-planar", what);
		ld m = inf ? 1 : w;
		ld sc = 1 + b * b + 4 * m * m * fabsl(a * c);
		ctx.near(b * b - 4 * m * m * a * c, 0, 1e-7L * sc * (1 + 1 / (1 + w)) * (s * s / n.len()), "split-on-arc", what);
	};
	auto half = [&](const V3& a, const V3& q, const V3& b)
	{
		for (int i = 0; i <= 8; i++)
		{
			ld t = i / 8.0L, B0 = (1 - t) * (1 - t), B1 = 2 * t * (1 - t) * wi, B2 = t * t;
			on((a * B0 + q * B1 + b * B2) / (B0 + B1 + B2), strf("a point of a half at %d/8", i).c_str());
		}
	};
	half(V3(P0), V3(Q), V3(S));
	half(V3(S), V3(R), V3(P2));
	// the shoulder: parameter one half of the arc
	ld den = inf ? 0.5L : (2 + 2 * (ld)w) / 4;
	V3 sh = inf ? (V3(P0) + V3(P2) + V3(P1) * 2) / 4 / den : (V3(P0) + V3(P1) * (2 * (ld)w) + V3(P2)) / 4 / den;
	nearPt(ctx, S, sh, 1e-8L * s / den, "split-shoulder", "split point");
	// and the arc is found again from its end tangents and the shoulder
	XYZ T0 = inf ? P1 : P1 - P0, T2 = inf ? P1 * -1.0 : P2 - P1;
	if (w < 0) { T0 = T0 * -1.0; T2 = T2 * -1.0; }
	XYZ M;
	double wm = 0;
	bool ok = NurbsCurve::CreateOneConicArc(P0, T0, P2, T2, S, M, wm);
	ctx.check(ok, "one-conic-created", "refused");
	ld k = s * s / n.len();
	nearPt(ctx, M, V3(P1), 1e-5L * s * k * (1 + 1 / (1 + w)), "one-conic-middle", "middle point");
	ctx.near(wm, w, 1e-5L * (1 + fabsl(w)) * (1 + 1 / (1 + w)) * k * (w > 0 ? 1 + w : 1), "one-conic-weight", "weight");
}
#include "main.inc"
