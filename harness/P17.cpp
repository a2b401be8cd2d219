// P17: point inversion on surfaces: a parameter of the domain whose point is a closest point
#include "surf.hpp"
using namespace H;

// sampled surface: per span grids, cell size and the smallest and largest partials
struct Cloud
{
	std::vector<ld> us, vs;
	std::vector<std::vector<V3>> p;
	ld minJac = 1e300L, maxSpeed = 0, minSpeed = 1e300L;
};
static std::vector<ld> spanGrid(int p, const Knots& U, int per)
{
	std::vector<ld> r;
	auto g = groups(U);
	for (size_t i = 0; i + 1 < g.size(); i++)
	{
		ld a = g[i].first, b = g[i + 1].first;
		if (b <= lo(p, U) || a >= hi(p, U)) continue;
		for (int k = 0; k < per; k++) r.push_back(a + (b - a) * k / per);
	}
	r.push_back(hi(p, U));
	return r;
}
static Cloud cloud(const LN_NurbsSurface& s, int per)
{
	Cloud c;
	c.us = spanGrid(s.DegreeU, s.KnotVectorU, per);
	c.vs = spanGrid(s.DegreeV, s.KnotVectorV, per);
	c.p.resize(c.us.size());
	for (size_t i = 0; i < c.us.size(); i++)
		for (size_t j = 0; j < c.vs.size(); j++) c.p[i].push_back(refPoint(s, c.us[i], c.vs[j]));
	for (size_t i = 0; i < c.us.size(); i += 2)
		for (size_t j = 0; j < c.vs.size(); j += 2)
		{
			auto d = refDers(s, c.us[i], c.vs[j], 1);
			ld a = d[1][0].len(), b = d[0][1].len();
			c.minJac = std::min(c.minJac, d[1][0].cross(d[0][1]).len() / (a * b + 1e-300L));
			c.maxSpeed = std::max(c.maxSpeed, std::max(a, b));
			c.minSpeed = std::min(c.minSpeed, std::min(a, b));
		}
	return c;
}
static ld cellRadius(const LN_NurbsSurface& s, const Cloud& c, int per)
{
	// upper estimate of half the diagonal of a cell of the library's grid (100 per span)
	ld m = 0;
	for (size_t i = 0; i + 1 < c.p.size(); i++) for (size_t j = 0; j + 1 < c.p[i].size(); j++) m = std::max(m, std::max(dist(c.p[i][j], c.p[i + 1][j + 1]), dist(c.p[i + 1][j], c.p[i][j + 1])));
	return 1.5L * m * per / 100;
}
static ld refClosest(const LN_NurbsSurface& s, const Cloud& c, const V3& q, ld& bu, ld& bv)
{
	ld best = 1e300L;
	struct Cand { ld d; size_t i, j; };
	std::vector<Cand> cand;
	for (size_t i = 0; i < c.us.size(); i++) for (size_t j = 0; j < c.vs.size(); j++)
	{
		ld d = dist(c.p[i][j], q);
		bool ok = true;
		if (i && dist(c.p[i - 1][j], q) < d) ok = false;
		if (ok && j && dist(c.p[i][j - 1], q) < d) ok = false;
		if (ok && i + 1 < c.us.size() && dist(c.p[i + 1][j], q) < d) ok = false;
		if (ok && j + 1 < c.vs.size() && dist(c.p[i][j + 1], q) < d) ok = false;
		if (ok) cand.push_back({ d, i, j });
	}
	std::sort(cand.begin(), cand.end(), [](const Cand& a, const Cand& b) { return a.d < b.d; });
	ld lu = loU(s), hu = hiU(s), lv = loV(s), hv = hiV(s);
	for (size_t k = 0; k < cand.size() && k < 4; k++)
	{
		// pattern search
		ld u = c.us[cand[k].i], v = c.vs[cand[k].j], d = cand[k].d;
		ld su = (hu - lu) / c.us.size(), sv = (hv - lv) / c.vs.size();
		for (int it = 0; it < 260 && su > 1e-10L * (hu - lu); it++)
		{
			bool moved = false;
			for (int e = 0; e < 8 && !moved; e++)
			{
				static const int ex[8] = { 1, -1, 0, 0, 1, -1, 1, -1 }, ey[8] = { 0, 0, 1, -1, 1, -1, -1, 1 };
				ld a = std::min(hu, std::max(lu, u + ex[e] * su)), b = std::min(hv, std::max(lv, v + ey[e] * sv));
				ld x = dist(refPoint(s, a, b), q);
				if (x < d) { d = x; u = a; v = b; moved = true; }
			}
			if (!moved) { su /= 2; sv /= 2; }
		}
		if (d < best) best = d, bu = u, bv = v;
	}
	return best;
}
static LN_NurbsSurface inversionSurface(Ctx& ctx, bool regular)
{
	SurfOpt o;
	o.maxP = 4;
	o.maxInteriorU = 1;
	o.maxInteriorV = ctx.rng.chance(0.5) ? 0 : 1;
	o.maxWeightMode = 1;
	o.minGap = 0.2;
	o.scale = ctx.rng.chance(0.5) ? 10 : ctx.rng.logu(2, 200);
	if (regular) { o.pointMode = 2; o.multChance = 0.1; }
	return genSurface(ctx, o);
}
static void inDomain(Ctx& ctx, const LN_NurbsSurface& s, const UV& r)
{
	ld eu = 1e-9L * (1 + fabsl(loU(s)) + fabsl(hiU(s))), ev = 1e-9L * (1 + fabsl(loV(s)) + fabsl(hiV(s)));
	ctx.check(r.GetU() >= loU(s) - eu && r.GetU() <= hiU(s) + eu && r.GetV() >= loV(s) - ev && r.GetV() <= hiV(s) + ev, "param-in-domain", strf("returned (%.17g,%.17g), domain [%.17g,%.17g]x[%.17g,%.17g]", r.GetU(), r.GetV(), loU(s), hiU(s), loV(s), hiV(s)));
}

// next to a crease the iteration may bounce from one side to the other
static bool nearCrease(const LN_NurbsSurface& s, double u, double v)
{
	for (auto& g : groups(s.KnotVectorU)) if (fabs(g.first - u) < 0.011 * (hiU(s) - loU(s)) && g.second >= s.DegreeU && g.first > loU(s) && g.first < hiU(s)) return true;
	for (auto& g : groups(s.KnotVectorV)) if (fabs(g.first - v) < 0.011 * (hiV(s) - loV(s)) && g.second >= s.DegreeV && g.first > loV(s) && g.first < hiV(s)) return true;
	return false;
}

SCENARIO(on_surface, 5)
{
	bool reg = ctx.rng.chance(0.7);
	LN_NurbsSurface s = inversionSurface(ctx, reg), s0 = s;
	Cloud c = cloud(s, 12);
	double u = genParam(ctx, s.DegreeU, s.KnotVectorU), v = genParam(ctx, s.DegreeV, s.KnotVectorV);
	XYZ p = refPoint(s, u, v).xyz();
	ctx.dump("u", u);
	ctx.dump("v", v);
	UV r = NurbsSurface::GetParamOnSurface(s, p);
	ctx.check(identicalS(s, s0), "input-untouched", "GetParamOnSurface modified its input");
	inDomain(ctx, s, r);
	ld d = dist(refPoint(s, r.GetU(), r.GetV()), V3(p)), cell = cellRadius(s, c, 12);
	bool good = reg && c.minJac > 0.05L && c.minSpeed > 0.02L * c.maxSpeed;
	ctx.bucket("regular", good);
	ctx.check(d <= 2 * cell + 1e-4L, "inversion-grid-bound", strf("point at (%.12g,%.12g) inverted to (%.12g,%.12g), %.3Lg away (cell %.3Lg)", u, v, r.GetU(), r.GetV(), d, cell));
	if (good && !nearCrease(s, u, v)) ctx.check(d <= 1e-4L + 1e-7L * maxAbs(s), "inversion-on-surface", strf("point at (%.12g,%.12g) inverted to (%.12g,%.12g), %.3Lg away", u, v, r.GetU(), r.GetV(), d));
}

SCENARIO(off_surface, 5)
{
	bool reg = ctx.rng.chance(0.7);
	LN_NurbsSurface s = inversionSurface(ctx, reg);
	Cloud c = cloud(s, 16);
	ld sc = 0;
	for (auto& r : c.p) for (auto& x : r) sc = std::max(sc, dist(x, c.p[0][0]));
	XYZ p = refPoint(s, genParam(ctx, s.DegreeU, s.KnotVectorU), genParam(ctx, s.DegreeV, s.KnotVectorV)).xyz() + genPoint(ctx.rng, (double)sc * ctx.rng.logu(0.005, 1.0));
	ctx.dump("point", p);
	UV r = NurbsSurface::GetParamOnSurface(s, p);
	inDomain(ctx, s, r);
	ld bu = 0, bv = 0, best = refClosest(s, c, p, bu, bv), d = dist(refPoint(s, r.GetU(), r.GetV()), V3(p)), cell = cellRadius(s, c, 16);
	// (the library's grid has no samples on the last row and column)
	bool edge = bu >= hiU(s) - 0.02L * (hiU(s) - loU(s)) || bv >= hiV(s) - 0.02L * (hiV(s) - loV(s));
	ctx.check(d <= (edge ? best + 2 * cell : sqrtl(best * best + cell * cell)) + 1e-4L + 1e-7L * sc, "inversion-closest", strf("returned (%.12g,%.12g) at distance %.9Lg, but (%.12Lg,%.12Lg) is at %.9Lg (cell %.3Lg)", r.GetU(), r.GetV(), d, bu, bv, best, cell));
	// signed distance: magnitude is the distance of the returned foot, sign by the side of the normal
	ld sd = NurbsSurface::ComputeSignedDistanceFunction(s, p);
	ctx.near(fabsl(sd), d, 1e-6L * (1 + sc), "sdf-magnitude", "distance");
	auto D = refDers(s, r.GetU(), r.GetV(), 1);
	V3 n = D[1][0].cross(D[0][1]);
	ld side = (V3(p) - refPoint(s, r.GetU(), r.GetV())).dot(n) / (n.len() + 1e-300L);
	if (n.len() > 1e-3L && fabsl(side) > 1e-3L * (1 + sc)) ctx.check((side > 0) == (sd > 0), "sdf-sign", strf("point on the %s side, distance %.9Lg", side > 0 ? "normal's" : "other", sd));
	// stationary: along a free direction the offset is perpendicular to the surface
	bool good = c.minJac > 0.05L && c.minSpeed > 0.02L * c.maxSpeed;
	bool edgeU = r.GetU() <= loU(s) || r.GetU() >= hiU(s), edgeV = r.GetV() <= loV(s) || r.GetV() >= hiV(s);
	ctx.bucket("regular", good);
	if (good && !nearCrease(s, r.GetU(), r.GetV()) && d > 1e-3L)
	{
		V3 e = (refPoint(s, r.GetU(), r.GetV()) - V3(p)) * (1 / d);
		ld a = fabsl(e.dot(D[1][0])) / D[1][0].len(), b = fabsl(e.dot(D[0][1])) / D[0][1].len();
		ctx.check((edgeU || a < 0.02L) && (edgeV || b < 0.02L), "inversion-perpendicular", strf("foot (%.12g,%.12g): cosines %.4Lg and %.4Lg with the partials (closest %.9Lg at (%.9Lg,%.9Lg), returned %.9Lg)", r.GetU(), r.GetV(), a, b, best, bu, bv, d));
	}
}

SCENARIO(all_params, 3)
{
	LN_NurbsSurface s = inversionSurface(ctx, true);
	Cloud c = cloud(s, 12);
	double u = genParam(ctx, s.DegreeU, s.KnotVectorU), v = genParam(ctx, s.DegreeV, s.KnotVectorV);
	XYZ p = refPoint(s, u, v).xyz();
	ctx.dump("u", u);
	ctx.dump("v", v);
	auto all = NurbsSurface::GetAllParamsOnSurface(s, p);
	ld best = 1e300L;
	for (auto& r : all) { inDomain(ctx, s, r); best = std::min(best, dist(refPoint(s, r.GetU(), r.GetV()), V3(p))); }
	bool good = c.minJac > 0.05L && c.minSpeed > 0.02L * c.maxSpeed;
	ctx.bucket("regular", good);
	if (good && !nearCrease(s, u, v)) ctx.check(best <= 1e-4L + 1e-7L * maxAbs(s), "all-params-contain-point", strf("none of %zu parameters is the point at (%.12g,%.12g), best %.3Lg away", all.size(), u, v, best));
	for (size_t i = 0; i < all.size(); i++) for (size_t j = i + 1; j < all.size(); j++) ctx.check(fabs(all[i].GetU() - all[j].GetU()) + fabs(all[i].GetV() - all[j].GetV()) > 1e-7, "all-params-distinct", "the same parameter twice");
}

SCENARIO(tessellate, 2)
{
	LN_NurbsSurface s = inversionSurface(ctx, false), s0 = s;
	std::vector<XYZ> pts;
	std::vector<UV> uvs;
	NurbsSurface::EquallyTessellate(s, pts, uvs);
	ctx.check(identicalS(s, s0), "input-untouched", "EquallyTessellate modified its input");
	ctx.check(pts.size() == uvs.size() && !pts.empty(), "tessellation-sizes", strf("%zu points, %zu parameters", pts.size(), uvs.size()));
	auto gu = groups(s.KnotVectorU), gv = groups(s.KnotVectorV);
	ctx.check(pts.size() >= 50 * 50 * (gu.size() - 1) * (gv.size() - 1), "tessellation-density", strf("%zu points for %zu spans", pts.size(), (gu.size() - 1) * (gv.size() - 1)));
	ld tol = 10 * surfTol(s);
	for (size_t k = 0; k < pts.size(); k += 1 + ctx.rng.irange(0, 60))
	{
		inDomain(ctx, s, uvs[k]);
		nearPt(ctx, pts[k], refPoint(s, uvs[k].GetU(), uvs[k].GetV()), tol, "tessellation-on-surface", strf("point %zu at (%.12g,%.12g)", k, uvs[k].GetU(), uvs[k].GetV()));
	}
	nearPt(ctx, pts.front(), refPoint(s, loU(s), loV(s)), tol, "tessellation-corners", "first");
	nearPt(ctx, pts.back(), refPoint(s, hiU(s), hiV(s)), tol, "tessellation-corners", "last");
	std::vector<std::pair<double, double>> order;
	for (auto& x : uvs) order.push_back({ x.GetU(), x.GetV() });
	std::sort(order.begin(), order.end());
	ctx.check(std::adjacent_find(order.begin(), order.end()) == order.end(), "tessellation-distinct", "the same parameter twice");
	// every knot line crossing is sampled
	for (size_t i = 0; i + 1 < gu.size(); i++) for (size_t j = 0; j + 1 < gv.size(); j++)
	{
		bool hit = false;
		for (auto& x : uvs) if (fabs(x.GetU() - gu[i].first) < 1e-9 && fabs(x.GetV() - gv[j].first) < 1e-9) { hit = true; break; }
		ctx.check(hit, "tessellation-knots", strf("no sample at the knots (%.12g,%.12g)", gu[i].first, gv[j].first));
	}
}

// closed surfaces: the seam
SCENARIO(closed_surface, 2)
{
	Rng& g = ctx.rng;
	// full cylinder/cone/torus-like: circle in u swept along v
	double r0 = g.uni(2, 8), r1 = g.uni(2, 8), h = g.uni(3, 15);
	const double w = sqrt(0.5);
	LN_NurbsSurface s;
	s.DegreeU = 2; s.DegreeV = 1;
	s.KnotVectorU = { 0, 0, 0, 0.25, 0.25, 0.5, 0.5, 0.75, 0.75, 1, 1, 1 };
	s.KnotVectorV = { 0, 0, 1, 1 };
	double cx[9] = { 1, 1, 0, -1, -1, -1, 0, 1, 1 }, cy[9] = { 0, 1, 1, 1, 0, -1, -1, -1, 0 };
	for (int i = 0; i < 9; i++) s.ControlPoints.push_back({ XYZW(XYZ(r0 * cx[i], r0 * cy[i], 0), i % 2 ? w : 1), XYZW(XYZ(r1 * cx[i], r1 * cy[i], h), i % 2 ? w : 1) });
	bool sw = g.chance(0.5);
	if (sw) { LN_NurbsSurface t; NurbsSurface::Swap(s, t); s = t; }
	ctx.cls(sw ? "closed-v" : "closed-u");
	ctx.dump("surface", s);
	{
		// all parameters of a point of the surface, on the seam or off it: each of them once
		double x = g.chance(0.5) ? g.irange(0, 1) : g.uni(), y = g.chance(0.3) ? g.irange(0, 1) : g.uni();
		XYZ q = refPoint(s, sw ? y : x, sw ? x : y).xyz();
		auto all = NurbsSurface::GetAllParamsOnSurface(s, q);
		ld best = 1e300L;
		for (auto& r : all) { inDomain(ctx, s, r); best = std::min(best, dist(refPoint(s, r.GetU(), r.GetV()), V3(q))); }
		ctx.check(best <= 1e-4L, "all-params-contain-point", strf("closed surface: none of %zu parameters is the point at %.12g,%.12g, best %.3Lg away", all.size(), x, y, best));
		for (size_t i = 0; i < all.size(); i++) for (size_t j = i + 1; j < all.size(); j++)
		{
			double du = fabs(all[i].GetU() - all[j].GetU()), dv = fabs(all[i].GetV() - all[j].GetV());
			if (sw) dv = std::min(dv, fabs(dv - 1)); else du = std::min(du, fabs(du - 1));
			ctx.check(du + dv > 1e-7, "all-params-distinct", strf("closed surface: (%.12g,%.12g) and (%.12g,%.12g)", all[i].GetU(), all[i].GetV(), all[j].GetU(), all[j].GetV()));
		}
	}
	double a = g.chance(0.5) ? g.uni(-0.02, 0.02) : g.uni(0, 6.28), f = g.chance(0.2) ? g.irange(0, 1) : g.uni(0, 1), r = r0 + (r1 - r0) * f, k = g.chance(0.5) ? 1 : g.uni(0.6, 1.6);
	XYZ p(k * r * cos(a), k * r * sin(a), h * f);
	ctx.dump("point", p);
	UV q = NurbsSurface::GetParamOnSurface(s, p);
	inDomain(ctx, s, q);
	// closest point of a cone frustum: in the half plane of the axis and the point, the segment (r0,0)-(r1,h)
	V3 A(r0, 0, 0), B(r1, 0, h), P(k * r, 0, h * f);
	ld t = std::min((ld)1, std::max((ld)0, (P - A).dot(B - A) / (B - A).dot(B - A)));
	ld want = dist(P, A + (B - A) * t), d = dist(refPoint(s, q.GetU(), q.GetV()), V3(p));
	ctx.near(d, want, 2e-4L, "inversion-closed", strf("distance at (%.12g,%.12g)", q.GetU(), q.GetV()).c_str());
}
#include "main.inc"
