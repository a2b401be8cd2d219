// P13: tessellation follows the curve; extensions continue it by the requested length; offsets keep their distance
#include "common.h"
using namespace H;

static ld segDist(const V3& p, const V3& a, const V3& b)
{
	V3 d = b - a;
	ld l = d.dot(d);
	ld s = l > 0 ? std::min((ld)1, std::max((ld)0, (p - a).dot(d) / l)) : 0;
	return dist(p, a + d * s);
}
// the polyline v follows the curve: same ends, in order, no excursion either way
static void follows(Ctx& ctx, const LN_NurbsCurve& c, const std::vector<XYZ>& v, ld tol)
{
	ctx.check(v.size() >= 2, "tessellate-size", strf("%zu points", v.size()));
	for (auto& p : v) ctx.check(finite(p), "tessellate-finite", "point not finite");
	nearPt(ctx, v.front(), refPoint(c, lo(c)), tol, "tessellate-ends", "first point");
	nearPt(ctx, v.back(), refPoint(c, hi(c)), tol, "tessellate-ends", "last point");
	// dense samples of the curve, walked along the polyline in order
	std::vector<V3> d;
	auto ts = sampleParams(c.Degree, c.KnotVector, 150);
	for (double t : ts) d.push_back(refPoint(c, t));
	size_t k = 0;
	std::vector<V3> w;
	for (auto& p : v) w.push_back(V3(p));
	for (size_t i = 0; i < d.size(); i++)
	{
		// the nearest edge may only move forward
		ld best = segDist(d[i], w[k], w[k + 1]);
		while (k + 2 < w.size())
		{
			size_t bestAt = k;
			for (size_t q = k + 1; q + 1 < w.size() && q < k + 400; q++)
			{
				ld x = segDist(d[i], w[q], w[q + 1]);
				if (x < best - 1e-15L) { best = x; bestAt = q; }
				if (best <= tol) break;
			}
			if (bestAt == k || best <= tol) { k = bestAt; break; }
			k = bestAt;
		}
		ctx.check(best <= tol, "tessellate-covers", strf("curve point at t=%.9g is %.3Lg from the polyline", ts[i], best));
	}
	// every vertex on the curve, in order: length of the polyline and distance to the sampled curve
	ld len = 0, ref = 0, sag = 0;
	for (size_t i = 1; i < w.size(); i++) len += dist(w[i], w[i - 1]);
	for (size_t i = 1; i < d.size(); i++) ref += dist(d[i], d[i - 1]);
	for (size_t i = 2; i < d.size(); i++) sag = std::max(sag, dist(d[i - 1], (d[i] + d[i - 2]) * 0.5L));
	ctx.check(len <= ref * (1 + 2e-3L) + 4 * sag + tol * 10 && len >= ref * (1 - 2e-3L) - 10 * tol, "tessellate-length", strf("polyline %.9Lg, curve %.9Lg", len, ref));
	size_t q = 0;
	for (size_t i = 0; i < w.size(); i++)
	{
		ld best = segDist(w[i], d[q], d[q + 1]);
		for (size_t j = q + 1; j + 1 < d.size() && best > tol + 2 * sag; j++) { ld x = segDist(w[i], d[j], d[j + 1]); if (x < best) { best = x; q = j; } }
		ctx.check(best <= tol + 2 * sag, "tessellate-on-curve", strf("vertex %zu is %.3Lg from the curve", i, best));
	}
}

SCENARIO(tessellate, 3)
{
	CurveOpt o;
	o.maxP = 5;
	o.maxInterior = 3;
	o.maxWeightMode = 1;
	o.minGap = 0.1;
	o.maxPointMode = 3;
	o.scale = ctx.rng.logu(0.05, 2);
	LN_NurbsCurve c = genCurve(ctx, o), c0 = c;
	std::vector<XYZ> v = NurbsCurve::Tessellate(c);
	ctx.check(identical(c, c0), "input-untouched", "input modified");
	ctx.bucket("points", (int)std::log2((double)v.size() + 1));
	if (c.Degree == 1 && !groups(c.KnotVector).empty())
		for (auto& g : groups(c.KnotVector)) if (g.first > lo(c) && g.first < hi(c) && g.second > 1) return;
	follows(ctx, c, v, 1e-4L * (1e-2L + maxAbs(c)));
}
// point-symmetric spans: the middle of the span lies on the chord although the curve does not
SCENARIO(tessellate_symmetric, 1)
{
	Rng& g = ctx.rng;
	LN_NurbsCurve c;
	c.Degree = g.irange(3, 6);
	int p = c.Degree;
	for (int i = 0; i <= p; i++) c.KnotVector.push_back(0);
	for (int i = 0; i <= p; i++) c.KnotVector.push_back(1);
	double s = g.logu(0.1, 2);
	XYZ m = genPoint(g, s);
	std::vector<XYZ> q(p + 1);
	for (int i = 0; 2 * i <= p; i++)
	{
		XYZ x = 2 * i == p ? XYZ(0, 0, 0) : genPoint(g, s);
		q[i] = m + x;
		q[p - i] = m - x;
	}
	for (auto& x : q) c.ControlPoints.push_back(XYZW(x, 1));
	ctx.dump("curve", c);
	ctx.bucket("degree", p);
	follows(ctx, c, NurbsCurve::Tessellate(c), 1e-4L * (1e-2L + maxAbs(c)));
}
SCENARIO(equally, 1)
{
	CurveOpt o;
	LN_NurbsCurve c = genCurve(ctx, o);
	std::vector<XYZ> v;
	std::vector<double> t;
	NurbsCurve::EquallyTessellate(c, v, t);
	ctx.check(v.size() == t.size() && v.size() >= 2, "equally-size", strf("%zu points, %zu parameters", v.size(), t.size()));
	ld h = 0;
	for (auto& g : groups(c.KnotVector))
	{
		bool has = false;
		for (double x : t) if (fabs(x - g.first) <= 1e-9 * (1 + fabs(x))) has = true;
		ctx.check(has, "equally-knots", strf("no sample at the knot %.17g", g.first));
	}
	for (size_t i = 0; i < t.size(); i++)
	{
		if (i) ctx.check(t[i] >= t[i - 1] - 1e-12 * (1 + fabs(t[i])), "equally-order", "parameters decrease");
		ctx.check(t[i] >= lo(c) && t[i] <= hi(c) + 1e-9 * (1 + fabs(hi(c))), "equally-domain", "parameter outside the domain");
		if (i) h = std::max(h, (ld)(t[i] - t[i - 1]));
		// the library takes a parameter within 1e-6 of a knot for the knot
		if (i % 7 == 0 || i + 1 == t.size()) nearPt(ctx, v[i], refPoint(c, std::min(t[i], hi(c))), 1e-9L * weightRatio(c) * (1e-3L + maxAbs(c)), "equally-on-curve", strf("sample %zu", i));
	}
	ctx.near(t.front(), lo(c), 1e-12L, "equally-domain", "first parameter");
	ctx.near(t.back(), hi(c), 1e-9L * (1 + fabs(hi(c))), "equally-domain", "last parameter");
	ctx.check(h <= (hi(c) - lo(c)) / 50.0L, "equally-dense", "sampling too coarse");
}

// join parameter of an extension: a knot of r such that the original is found between it and the far end
static bool findJoin(const LN_NurbsCurve& c, const LN_NurbsCurve& r, bool start, double& join, ld tol)
{
	for (auto& g : groups(r.KnotVector))
	{
		if (g.first <= lo(r) || g.first >= hi(r)) continue;
		double a = start ? g.first : lo(r), b = start ? hi(r) : g.first;
		bool ok = true;
		for (double t : sampleParams(c.Degree, c.KnotVector, 4))
		{
			ld s = a + ((ld)t - lo(c)) / ((ld)hi(c) - lo(c)) * (b - a);
			// at the join itself use the side of the original curve
			if (start ? t <= lo(c) : t >= hi(c)) continue;
			if (dist(refPoint(r, s), refPoint(c, t)) > tol) { ok = false; break; }
		}
		if (ok) { join = g.first; return true; }
	}
	return false;
}
SCENARIO(extend, 4)
{
	CurveOpt o;
	o.pointMode = ctx.rng.chance(0.7) ? 2 : 0;
	o.minP = 2;
	o.maxP = 5;
	o.maxInterior = 4;
	o.minGap = 0.1;
	o.maxWeightMode = 1;
	o.scale = ctx.rng.logu(1, 100);
	LN_NurbsCurve c = genCurve(ctx, o), r, c0 = c;
	Rng& g = ctx.rng;
	bool start = g.chance(0.5);
	ExtensionType type = g.chance(0.35) ? ExtensionType::Tangent : g.chance(0.5) ? ExtensionType::Arc : ExtensionType::Natural;
	ld total = refLength(c, lo(c), hi(c), 1e-9L * (1e-3L + maxAbs(c)));
	double end = start ? lo(c) : hi(c);
	int sp = start ? refSpan(c.Degree, c.KnotVector, end) : refSpanLeft(c.Degree, c.KnotVector, end);
	auto D = refDers(c, end, 2, sp);
	ld speed = D[1].len();
	if (speed < 0.05L * total) return;
	ld curv = D[1].cross(D[2]).len() / (speed * speed * speed);
	double delta = (double)total * g.logu(0.02, 0.6);
	const char* tn = type == ExtensionType::Tangent ? "tangent" : type == ExtensionType::Arc ? "arc" : "natural";
	ctx.bucket("type", tn);
	ctx.bucket("end", start ? "start" : "end");
	ctx.note(strf("delta %.17g", delta));
	if (type == ExtensionType::Arc && (curv * delta > 6 || curv * delta < 2e-2L || curv < 1e-3L / total)) return;
	NurbsCurve::Extend(c, delta, start, type, r);
	ctx.check(identical(c, c0), "input-untouched", "input modified");
	validCurve(ctx, r, "extend-valid");
	ld sc = maxAbs(c) + delta;
	double join = 0;
	ctx.check(findJoin(c, r, start, join, 1e-8L * weightRatio(c) * sc), "extend-keeps-curve", strf("the original curve is not part of the %s extension", tn));
	double a = start ? lo(r) : join, b = start ? join : hi(r);
	ld extra = refLength(r, a, b, 1e-9L * (1e-3L + maxAbs(c)));
	V3 P = D[0], T = D[1].unit() * (start ? -1.0L : 1.0L);
	ld t0 = start ? b : a, t1 = start ? a : b;
	auto at = [&](ld f) { ld t = t0 + (t1 - t0) * f; int s = refSpan(r.Degree, r.KnotVector, (a + (ld)b) / 2); return refCurveH(r, t, 0, s).proj(); };
	if (type == ExtensionType::Tangent)
	{
		ctx.near(extra, delta, 1e-6L * delta, "extend-length", "length of the extension");
		nearPt(ctx, at(0), P, 1e-8L * sc, "extend-joins", "start of the extension");
		nearPt(ctx, at(1), P + T * delta, 1e-8L * sc, "extend-tangent", "end of the extension");
		ld prev = 0;
		for (int i = 1; i <= 8; i++)
		{
			V3 x = at(i / 8.0L) - P;
			ctx.near((x - T * x.dot(T)).len(), 0, 1e-8L * sc, "extend-tangent", "distance to the tangent line");
			ctx.check(x.dot(T) > prev, "extend-tangent", "extension runs backwards");
			prev = x.dot(T);
		}
	}
	else if (type == ExtensionType::Arc)
	{
		ld rad = 1 / curv;
		V3 N = D[1].cross(D[2]).cross(D[1]).unit();
		V3 ctr = P + N * rad;
		ctx.near(extra, delta, 2e-5L * delta + 1e-6L * sc, "extend-length", "length of the extension");
		ld big = sc + rad;
		for (int i = 0; i <= 16; i++)
		{
			// the extension may consist of several segments: evaluate by parameter
			ld t = t0 + (t1 - t0) * i / 16;
			if (i == 0) t = t0 + (t1 - t0) * 1e-9L;
			V3 x = refPoint(r, t) - ctr;
			ctx.near(x.len(), rad, 1e-6L * big, "extend-arc", "distance to the center of curvature");
			ctx.near(x.dot(T.cross(N)), 0, 1e-6L * big, "extend-arc", "distance to the osculating plane");
			if (i == 0) nearPt(ctx, x + ctr, P, 1e-6L * big, "extend-joins", "start of the extension");
		}
		ld th = delta * curv;
		nearPt(ctx, refPoint(r, t1), ctr + (N * -cosl(th) + T * sinl(th)) * rad, 3e-6L * big, "extend-arc", "end of the extension");
	}
	else
	{
		nearPt(ctx, at(0), P, 1e-8L * sc, "extend-joins", "start of the extension");
		// continues with the same derivatives up to the degree (by the chain rule the parametrisation is kept)
		int top = c.Degree;
		int rs = refSpan(r.Degree, r.KnotVector, (a + (ld)b) / 2);
		auto E = refDers(r, start ? b : a, top, rs);
		auto F = refDers(c, end, top, sp);
		ld h = b - a;
		ld f = 1, mag = 1e-3L * sc;
		std::vector<ld> hk(top + 1);
		for (int k = 0; k <= top; k++) { if (k) f *= h / k; hk[k] = f; mag = std::max(mag, F[k].len() * f); }
		for (int k = 0; k <= top; k++)
			nearPt(ctx, E[k] * hk[k], F[k] * hk[k], 1e-6L * mag, "extend-natural", strf("derivative %d at the join", k));
		// the requested length (the search integrates with three points, so only where the speed varies mildly)
		ld smin = 1e300L, smax = 0;
		for (int i = 0; i <= 20; i++) { ld s = refDers(r, t0 + (t1 - t0) * i / 20, 1, rs)[1].len(); smin = std::min(smin, s); smax = std::max(smax, s); }
		if (smax < 2 * smin) { ctx.count("extend-natural-length-judged"); ctx.near(extra, delta, 6e-2L * delta, "extend-length", "length of the extension"); }
	}
}
SCENARIO(extend_nothing, 1)
{
	CurveOpt o;
	o.minP = 2;
	LN_NurbsCurve c = genCurve(ctx, o), r;
	Rng& g = ctx.rng;
	double delta = g.chance(0.5) ? 0.0 : -g.logu(0.01, 10);
	NurbsCurve::Extend(c, delta, g.chance(0.5), g.chance(0.5) ? ExtensionType::Tangent : ExtensionType::Natural, r);
	ctx.check(identical(c, r), "extend-nothing", "a zero or negative extension changed the curve");
}

// planar curves that bend one way only: the offset stays at its distance on the side of the normal
SCENARIO(offset_convex, 1)
{
	Rng& g = ctx.rng;
	double R = g.logu(2, 20), sweep = g.uni(0.5, 3.0);
	int n = g.irange(5, 8), deg = g.irange(2, 4);
	XYZ ex = genPoint(g, 1).Normalize(), ey = perpTo(g, ex);
	XYZ ctr = genPoint(g, 10);
	LN_NurbsCurve c, r;
	bool circle = g.chance(0.4);
	if (circle) NurbsCurve::CreateArc(ctr, ex, ey, 0, sweep, R, R, c);
	else
	{
		std::vector<XYZ> q;
		double rr = R * g.uni(0.6, 1.5);
		for (int i = 0; i < n; i++) { double a = sweep * i / (n - 1); q.push_back(ctr + ex * (R * cos(a)) + ey * (rr * sin(a))); }
		NurbsCurve::GlobalInterpolation(deg, q, c);
	}
	ctx.dump("curve", c);
	ctx.bucket("kind", circle ? "circle" : "interpolated");
	ctx.bucket("degree", c.Degree);
	double d = g.chance(0.5) ? R * g.uni(0.02, 0.3) : -R * g.uni(0.02, 0.8);
	ctx.note(strf("offset %.17g", d));
	// must bend one way: signed curvature positive and radius above the offset
	V3 nrm = V3(ex).cross(V3(ey));
	for (double t : sampleParams(c.Degree, c.KnotVector, 20))
	{
		auto D = refDers(c, t, 2);
		ld k = D[1].cross(D[2]).dot(nrm) / powl(D[1].len(), 3);
		if (k < 0.3L / R || k > 2.2L / R) return;
	}
	NurbsCurve::Offset(c, d, OffsetType::PieglAndTiller, r);
	validCurve(ctx, r, "offset-valid");
	// every point of the result is at distance |d| from the curve, on the correct side
	std::vector<V3> dense;
	std::vector<double> ts = sampleParams(c.Degree, c.KnotVector, 60);
	for (double t : ts) dense.push_back(refPoint(c, t));
	for (int i = 0; i <= 60; i++)
	{
		V3 p = refPoint(r, lo(r) + (hi(r) - lo(r)) * (ld)i / 60);
		ld best = 1e300L;
		size_t at = 0;
		for (size_t j = 0; j + 1 < dense.size(); j++) { ld x = segDist(p, dense[j], dense[j + 1]); if (x < best) { best = x; at = j; } }
		ctx.near(best, fabs(d), 2e-3L * R, "offset-distance", strf("distance of offset point %d", i).c_str());
		V3 T = (dense[at + 1] - dense[at]).unit(), N = nrm.cross(T);
		if (i > 0 && i < 60) ctx.check((p - dense[at]).dot(N) * d > 0, "offset-side", "offset on the wrong side");
	}
	// ends: exactly displaced along the normal
	auto D0 = refDers(c, lo(c), 2), D1 = refDers(c, hi(c), 2, refSpanLeft(c.Degree, c.KnotVector, hi(c)));
	nearPt(ctx, refPoint(r, lo(r)), D0[0] + nrm.cross(D0[1]).unit() * (ld)d, 1e-3L * R, "offset-ends", "start");
	nearPt(ctx, refPoint(r, hi(r)), D1[0] + nrm.cross(D1[1]).unit() * (ld)d, 1e-3L * R, "offset-ends", "end");
}
#include "main.inc"
