// P15: surface knot insertion, refinement, Bezier decomposition, degree changes, knot removal
#include "surf.hpp"
using namespace H;

SCENARIO(insert_knot, 4)
{
	SurfOpt o;
	o.closeChance = 0.1;
	o.allowUnclamped = ctx.rng.chance(0.2);
	LN_NurbsSurface s = genSurface(ctx, o), s0 = s, r = dirtySurface();
	Rng& g = ctx.rng;
	bool uDir = g.chance(0.5);
	int p = uDir ? s.DegreeU : s.DegreeV;
	const Knots& U = uDir ? s.KnotVectorU : s.KnotVectorV;
	auto inner = innerKnots(p, U);
	bool end = g.chance(0.1);
	int kind = inner.empty() ? 0 : g.irange(0, 3);  // 0,1 between, 2 at a knot, 3 equal to a knot up to rounding
	if (end) kind = 2;   // an end of the domain
	double k = end ? (g.chance(0.5) ? lo(p, U) : hi(p, U)) : kind >= 2 ? g.pick(inner) : genParam(ctx, p, U, P_INNER);
	double t = kind == 3 ? k + g.sgn() * g.logu(1e-15, 1e-8) * (1 + fabs(k)) : k;
	int m = multOf(U, k), times = g.irange(1, p + 1);
	ctx.bucket("dir", uDir ? "u" : "v");
	ctx.bucket("at", end ? "end" : kind >= 3 ? "nearknot" : kind == 2 ? "knot" : "between");
	ctx.bucket("fill", m + times > p ? "over" : m + times == p ? "full" : "partial");
	ctx.cls(strf("m%d t%d", m, times));
	ctx.note(strf("dir %s t %.17g times %d", uDir ? "u" : "v", t, times));
	NurbsSurface::InsertKnot(s, t, times, uDir, r);
	ctx.check(identicalS(s, s0), "input-untouched", "InsertKnot modified its input");
	validSurface(ctx, r, "insert-valid");
	int n = std::max(0, std::min(times, p - m));
	ctx.check(r.DegreeU == s.DegreeU && r.DegreeV == s.DegreeV, "insert-structure", "degree changed");
	ctx.check(sameKnots(uDir ? r.KnotVectorU : r.KnotVectorV, withKnots(U, std::vector<double>(n, k)), 1e-6), "insert-knots", "knots are not the old ones plus the inserted ones");
	ctx.check(uDir ? r.KnotVectorV == s.KnotVectorV : r.KnotVectorU == s.KnotVectorU, "insert-other-direction", "the other direction's knots changed");
	gridSame(ctx, s, r, kind == 3 ? 1e-3L * (1e-3L + maxAbs(s)) * wRatio(s) : 20 * surfTol(s), "insert-same-surface");
}

SCENARIO(refine, 4)
{
	SurfOpt o;
	o.closeChance = 0.1;
	LN_NurbsSurface s = genSurface(ctx, o), s0 = s, r = dirtySurface();
	Rng& g = ctx.rng;
	bool uDir = g.chance(0.5);
	int p = uDir ? s.DegreeU : s.DegreeV;
	const Knots& U = uDir ? s.KnotVectorU : s.KnotVectorV;
	auto inner = innerKnots(p, U);
	std::map<double, int> add;
	int k = g.irange(1, 4);
	for (int i = 0; i < k; i++)
	{
		double t = !inner.empty() && g.chance(0.35) ? g.pick(inner) : genParam(ctx, p, U, P_INNER);
		bool close = false;
		for (auto& q : add) if (q.first != t && fabs(q.first - t) < 1e-3 * (hi(p, U) - lo(p, U))) close = true;
		if (close) continue;
		int room = p - multOf(U, t) - add[t];
		if (room > 0) add[t] += g.irange(1, room);
	}
	std::vector<double> x;
	for (auto& q : add) for (int i = 0; i < q.second; i++) x.push_back(q.first);
	if (x.empty()) return;
	ctx.bucket("dir", uDir ? "u" : "v");
	ctx.bucket("inserted", (int)std::min<size_t>(x.size(), 8));
	ctx.dump("inserted", x);
	NurbsSurface::RefineKnotVector(s, x, uDir, r);
	ctx.check(identicalS(s, s0), "input-untouched", "RefineKnotVector modified its input");
	validSurface(ctx, r, "refine-valid");
	ctx.check(r.DegreeU == s.DegreeU && r.DegreeV == s.DegreeV, "refine-structure", "degree changed");
	ctx.check(sameKnots(uDir ? r.KnotVectorU : r.KnotVectorV, withKnots(U, x)), "refine-knots", "knots are not the old ones plus the inserted ones");
	ctx.check(uDir ? r.KnotVectorV == s.KnotVectorV : r.KnotVectorU == s.KnotVectorU, "refine-other-direction", "the other direction's knots changed");
	gridSame(ctx, s, r, 50 * surfTol(s), "refine-same-surface");
}

SCENARIO(decompose, 3)
{
	SurfOpt o;
	o.multChance = 0.5;
	LN_NurbsSurface s = genSurface(ctx, o);
	auto gu = groups(s.KnotVectorU), gv = groups(s.KnotVectorV);
	auto b = NurbsSurface::DecomposeToBeziers(s);
	ctx.bucket("spans", strf("%zux%zu", gu.size() - 1, gv.size() - 1));
	ctx.check(b.size() == (gu.size() - 1) * (gv.size() - 1), "decompose-count", strf("%zu patches for %zu x %zu spans", b.size(), gu.size() - 1, gv.size() - 1));
	for (size_t i = 0; i + 1 < gu.size(); i++)
		for (size_t j = 0; j + 1 < gv.size(); j++)
		{
			const LN_NurbsSurface& q = b[i * (gv.size() - 1) + j];
			validSurface(ctx, q, "decompose-valid");
			ctx.check(q.DegreeU == s.DegreeU && q.DegreeV == s.DegreeV && (int)q.ControlPoints.size() == s.DegreeU + 1 && (int)q.ControlPoints[0].size() == s.DegreeV + 1, "decompose-structure", "patch is not a Bezier patch of the same degrees");
			for (int k = 0; k <= 3; k++)
				for (int l = 0; l <= 3; l++)
				{
					ld u = gu[i].first + (ld)(gu[i + 1].first - gu[i].first) * k / 3, v = gv[j].first + (ld)(gv[j + 1].first - gv[j].first) * l / 3;
					ld x = loU(q) + (ld)(hiU(q) - loU(q)) * k / 3, y = loV(q) + (ld)(hiV(q) - loV(q)) * l / 3;
					nearPt(ctx, refPoint(q, x, y), refPoint(s, u, v), 50 * surfTol(s), "decompose-same-surface", strf("patch %zu,%zu local (%.3Lg,%.3Lg)", i, j, x, y));
				}
		}
}

SCENARIO(elevate, 3)
{
	SurfOpt o;
	o.maxP = 6;
	LN_NurbsSurface s = genSurface(ctx, o), s0 = s, r = dirtySurface();
	bool uDir = ctx.rng.chance(0.5);
	int p = uDir ? s.DegreeU : s.DegreeV;
	int times = ctx.rng.irange(1, std::min(3, 7 - p));
	ctx.bucket("dir", uDir ? "u" : "v");
	ctx.bucket("times", times);
	ctx.note(strf("dir %s times %d", uDir ? "u" : "v", times));
	NurbsSurface::ElevateDegree(s, times, uDir, r);
	ctx.check(identicalS(s, s0), "input-untouched", "ElevateDegree modified its input");
	validSurface(ctx, r, "elevate-valid");
	ctx.check(r.DegreeU == s.DegreeU + (uDir ? times : 0) && r.DegreeV == s.DegreeV + (uDir ? 0 : times), "elevate-degree", strf("degrees %d,%d", r.DegreeU, r.DegreeV));
	Knots want;
	for (auto& g : groups(uDir ? s.KnotVectorU : s.KnotVectorV)) for (int i = 0; i < g.second + times; i++) want.push_back(g.first);
	ctx.check(sameKnots(uDir ? r.KnotVectorU : r.KnotVectorV, want), "elevate-knots", "every distinct knot must gain the elevation count");
	ctx.check(uDir ? r.KnotVectorV == s.KnotVectorV : r.KnotVectorU == s.KnotVectorU, "elevate-other-direction", "the other direction's knots changed");
	gridSame(ctx, s, r, 10 * surfTol(s), "elevate-same-surface");
}

SCENARIO(reduce, 3)
{
	SurfOpt o;
	o.maxP = 6;
	o.maxWeightMode = 1;
	Rng& g = ctx.rng;
	bool uDir = g.chance(0.5);
	bool bez = g.chance(0.85);
	(uDir ? o.maxInteriorU : o.maxInteriorV) = bez ? 0 : 2;
	o.scale = g.logu(1, 30);
	LN_NurbsSurface s = genSurface(ctx, o), e, r = dirtySurface();
	bool elevated = g.chance(0.7);
	bool perturbed = elevated && g.chance(0.4);
	if (elevated) NurbsSurface::ElevateDegree(s, 1, uDir, e);
	else e = s;
	if (perturbed)
	{
		int i = g.irange(0, (int)e.ControlPoints.size() - 1), j = g.irange(0, (int)e.ControlPoints[0].size() - 1);
		double eps = g.logu(1e-7, 1.0);
		XYZW& q = e.ControlPoints[i][j];
		q = XYZW(q.GetWX() + eps, q.GetWY(), q.GetWZ(), q.GetW());
		ctx.note(strf("perturbed (%d,%d) by %.17g", i, j, eps));
		ctx.bucket("perturbation", (int)std::floor(std::log10(eps)));
	}
	int p = uDir ? e.DegreeU : e.DegreeV;
	bool bezier = (int)(uDir ? e.ControlPoints.size() : e.ControlPoints[0].size()) == p + 1;
	ctx.bucket("dir", uDir ? "u" : "v");
	ctx.note(strf("dir %s elevated %d", uDir ? "u" : "v", elevated));
	LN_NurbsSurface e0 = e;
	bool ok = NurbsSurface::ReduceDegree(e, uDir, r);
	ctx.check(identicalS(e, e0), "input-untouched", "ReduceDegree modified its input");
	ctx.bucket("accepted", ok);
	ctx.check(bezier || !ok, "reduce-only-bezier", "reduction in a multi-span direction reported success");
	ctx.check(p > 1 || !ok, "reduce-not-linear", "a degree one direction cannot be reduced");
	if (elevated && !perturbed && bezier) ctx.check(ok, "reduce-accepts", "an elevated Bezier direction must be reducible");
	if (!ok) return;
	validSurface(ctx, r, "reduce-valid");
	ctx.check(r.DegreeU == e.DegreeU - (uDir ? 1 : 0) && r.DegreeV == e.DegreeV - (uDir ? 0 : 1), "reduce-degree", strf("degrees %d,%d", r.DegreeU, r.DegreeV));
	ctx.check(uDir ? r.KnotVectorV == e.KnotVectorV : r.KnotVectorU == e.KnotVectorU, "reduce-other-direction", "the other direction's knots changed");
	ctx.near(maxDevS(e, r), 0, 1e-3L, "reduce-within-tolerance", "deviation of an accepted reduction");
	if (elevated && !perturbed) gridSame(ctx, s, r, 1e-7L * wRatio(s) * (1e-3L + maxAbs(s)), "reduce-same-surface");
}

SCENARIO(insert_then_remove, 4)
{
	SurfOpt o;
	o.maxWeightMode = 1;
	o.minGap = 0.12;
	o.scale = ctx.rng.chance(0.5) ? 10 : 1;
	LN_NurbsSurface s = genSurface(ctx, o), e, r = dirtySurface();
	Rng& g = ctx.rng;
	bool uDir = g.chance(0.5);
	int p = uDir ? s.DegreeU : s.DegreeV;
	const Knots& U = uDir ? s.KnotVectorU : s.KnotVectorV;
	auto inner = innerKnots(p, U);
	bool atKnot = !inner.empty() && g.chance(0.4);
	double t = atKnot ? g.pick(inner) : genParam(ctx, p, U, P_INNER);
	if (!atKnot) for (auto& q : groups(U)) if (fabs(q.first - t) < 0.04 * (hi(p, U) - lo(p, U))) return;
	int m = multOf(U, t);
	if (m >= p) return;
	int times = g.irange(1, p - m);
	ctx.bucket("dir", uDir ? "u" : "v");
	ctx.bucket("at", atKnot ? "knot" : "between");
	ctx.bucket("times", times);
	ctx.note(strf("dir %s t %.17g times %d", uDir ? "u" : "v", t, times));
	NurbsSurface::InsertKnot(s, t, times, uDir, e);
	LN_NurbsSurface e0 = e;
	NurbsSurface::RemoveKnot(e, t, times, uDir, r);
	ctx.check(identicalS(e, e0), "input-untouched", "RemoveKnot modified its input");
	validSurface(ctx, r, "remove-valid");
	ctx.check(sameKnots(uDir ? r.KnotVectorU : r.KnotVectorV, U), "remove-knots", "removing the inserted knots must give back the knot vector");
	gridSame(ctx, s, r, 1e-5L * (1 + maxAbs(s)), "remove-same-surface");
}

// a knot the surface needs: refused, the surface comes back unchanged
SCENARIO(remove_refused, 2)
{
	SurfOpt o;
	o.maxWeightMode = 1;
	o.minGap = 0.12;
	o.minP = 2;
	o.maxP = 5;
	o.pointMode = 0;
	o.scale = 10;
	LN_NurbsSurface s = genSurface(ctx, o), r = dirtySurface();
	Rng& g = ctx.rng;
	bool uDir = g.chance(0.5);
	int p = uDir ? s.DegreeU : s.DegreeV;
	const Knots& U = uDir ? s.KnotVectorU : s.KnotVectorV;
	auto inner = innerKnots(p, U);
	int mode = g.irange(0, 2);
	ctx.bucket("dir", uDir ? "u" : "v");
	ctx.bucket("mode", mode);
	double t;
	if (mode == 0)
	{
		if (inner.empty()) return;
		t = g.pick(inner);
		if ((p - multOf(U, t)) % 2 == 0) return;   // recorded finding of P05: removal is forced there
	}
	else if (mode == 1) t = g.chance(0.5) ? lo(p, U) : hi(p, U);
	else t = genParam(ctx, p, U, P_INNER);
	ctx.note(strf("dir %s t %.17g", uDir ? "u" : "v", t));
	NurbsSurface::RemoveKnot(s, t, 1, uDir, r);
	validSurface(ctx, r, "remove-valid");
	ctx.near(maxDevS(s, r, 3), 0, 1e-2L, "remove-refused", "a removal that is not possible moved the surface");
}
#include "main.inc"
