// P12: shape modification tools move the curve exactly as requested and nothing else
#include "common.h"
using namespace H;

static ld ratBasis(const LN_NurbsCurve& c, int i, double t)
{
	int sp = refSpan(c.Degree, c.KnotVector, t);
	ld n = refN(i, c.Degree, c.KnotVector, t, sp) * c.ControlPoints[i].GetW();
	return n / refCurveH(c, t, 0, sp).w;
}
// control points other than [from,to] are bitwise the old ones, weights as stated
static void othersUntouched(Ctx& ctx, const LN_NurbsCurve& c, const LN_NurbsCurve& r, const std::vector<bool>& may)
{
	ctx.check(r.Degree == c.Degree && r.KnotVector == c.KnotVector && r.ControlPoints.size() == c.ControlPoints.size(), "modify-structure", "degree, knots or control point count changed");
	for (size_t i = 0; i < c.ControlPoints.size(); i++)
		if (!may[i])
			for (int k = 0; k < 4; k++)
				ctx.near(r.ControlPoints[i][k], c.ControlPoints[i][k], 1e-11L * (fabsl(c.ControlPoints[i][k]) + 1e-3L), "modify-locality", "untouched control point");
}

SCENARIO(reposition, 3)
{
	CurveOpt o;
	o.allowUnclamped = false;
	LN_NurbsCurve c = genCurve(ctx, o), r, c0 = c;
	Rng& g = ctx.rng;
	double t = genParam(ctx, c, g.chance(0.7) ? P_INNER : P_ANY);
	int sp = refSpan(c.Degree, c.KnotVector, t);
	int idx = g.chance(0.85) ? g.irange(sp - c.Degree, sp) : g.irange(0, (int)c.ControlPoints.size() - 1);
	XYZ dir = genPoint(g, g.logu(0.01, 30));
	double d = g.sgn() * g.logu(0.01, 20);
	ld R = ratBasis(c, idx, t);
	ctx.dump("t", t);
	ctx.note(strf("index %d distance %.17g rational basis %.6Lg", idx, d, R));
	ctx.dump("direction", dir);
	if (dir.Length() < 1e-3 || (R > 0 && R < 1e-4L)) return;
	ctx.bucket("active", R > 0 ? "yes" : "no");
	ctx.cls(strf("slot%d", idx - sp + c.Degree));
	bool ok = NurbsCurve::ControlPointReposition(c, t, idx, dir, d, r);
	ctx.check(identical(c, c0), "input-untouched", "input modified");
	if (R <= 0) { ctx.check(!ok, "reposition-refused", "a control point that does not influence the point was said to move it"); return; }
	ctx.check(ok, "reposition-accepted", "repositioning refused");
	std::vector<bool> may(c.ControlPoints.size());
	may[idx] = true;
	othersUntouched(ctx, c, r, may);
	ctx.near(r.ControlPoints[idx].GetW(), c.ControlPoints[idx].GetW(), 1e-12L * c.ControlPoints[idx].GetW(), "reposition-weight", "weight");
	V3 want = refPoint(c, t) + V3(dir).unit() * (ld)d;
	nearPt(ctx, refPoint(r, t), want, 1e-9L * (maxAbs(c) + maxAbs(r)), "reposition-moves-point", "point after the move");
}

SCENARIO(weight, 3)
{
	CurveOpt o;
	o.maxPointMode = 3;
	o.maxWeightMode = 1;
	o.scale = ctx.rng.logu(1, 500);
	LN_NurbsCurve c = genCurve(ctx, o), r, c0 = c;
	Rng& g = ctx.rng;
	double t = genParam(ctx, c, P_INNER);
	int sp = refSpan(c.Degree, c.KnotVector, t);
	int idx = g.irange(sp - c.Degree, sp);
	ld R = ratBasis(c, idx, t);
	V3 p = refPoint(c, t), q = V4(c.ControlPoints[idx]).proj();
	ld D = dist(p, q);
	if (R < 1e-3L || R > 0.999L || D < 0.01L) return;
	// admissible targets: strictly between the point without the control point's influence and the control point
	double f = g.chance(0.5) ? g.uni(0.05, 0.9) : -g.uni(0.05, 0.9) * (double)(R / (1 - R));
	double d = f * (double)D;
	if (fabs(d) < 1e-4) return;
	ctx.bucket("towards", d > 0 ? "towards" : "away");
	ctx.cls(strf("slot%d", idx - sp + c.Degree));
	ctx.dump("t", t);
	ctx.note(strf("index %d distance %.17g of %.9Lg, rational basis %.6Lg", idx, d, D, R));
	NurbsCurve::WeightModification(c, t, idx, d, r);
	ctx.check(identical(c, c0), "input-untouched", "input modified");
	std::vector<bool> may(c.ControlPoints.size());
	may[idx] = true;
	othersUntouched(ctx, c, r, may);
	ctx.check(r.ControlPoints[idx].GetW() > 0, "weight-positive", "the new weight is not positive");
	nearPt(ctx, r.ControlPoints[idx].ToXYZ(true), q, 1e-9L * (1 + maxAbs(c)), "weight-keeps-point", "control point position");
	nearPt(ctx, refPoint(r, t), p + (q - p).unit() * (ld)d, 1e-7L * (1e-3L + maxAbs(c)), "weight-moves-point", "point after the change");
}

SCENARIO(two_weights, 3)
{
	CurveOpt o;
	o.maxPointMode = 2;
	o.maxWeightMode = 1;
	o.minP = 2;
	o.scale = ctx.rng.logu(3, 200);
	LN_NurbsCurve c = genCurve(ctx, o), r, c0 = c;
	Rng& g = ctx.rng;
	double t = genParam(ctx, c, P_INNER);
	int sp = refSpan(c.Degree, c.KnotVector, t);
	int idx = g.irange(sp - c.Degree, sp - 1);
	ld R0 = ratBasis(c, idx, t), R1 = ratBasis(c, idx + 1, t);
	ctx.dump("t", t);
	if (R0 < 0.01L || R1 < 0.01L || R0 + R1 > 0.97L) return;
	V3 p = refPoint(c, t), a = V4(c.ControlPoints[idx]).proj(), b = V4(c.ControlPoints[idx + 1]).proj();
	V3 base = (p - a * R0 - b * R1) / (1 - R0 - R1);
	V3 q = (a * R0 + b * R1) / (R0 + R1);
	ld RP = dist(base, p), PQ = dist(p, q), leg = dist(a, b);
	ld sn = (q - base).unit().cross((b - a).unit()).len();
	if (RP < 0.05L || PQ < 0.05L || leg < 0.3L || sn < 0.1L) return;
	double d = (double)(g.chance(0.5) ? PQ * g.uni(0.05, 0.85) : -RP * g.uni(0.05, 0.85));
	if (fabs(d) < 1e-4) return;
	ctx.bucket("towards", d > 0 ? "towards leg" : "away");
	ctx.cls(strf("slot%d", idx - sp + c.Degree));
	ctx.note(strf("index %d distance %.17g", idx, d));
	bool ok = NurbsCurve::NeighborWeightsModification(c, t, idx, d, 1.0, r);
	ctx.check(identical(c, c0), "input-untouched", "input modified");
	ctx.check(ok, "two-weights-accepted", "modification refused");
	std::vector<bool> may(c.ControlPoints.size());
	may[idx] = may[idx + 1] = true;
	othersUntouched(ctx, c, r, may);
	for (int k = 0; k < 2; k++)
	{
		ctx.check(r.ControlPoints[idx + k].GetW() > 0, "weight-positive", "a new weight is not positive");
		nearPt(ctx, r.ControlPoints[idx + k].ToXYZ(true), k ? b : a, 1e-9L * (1 + maxAbs(c)), "weight-keeps-point", "control point position");
	}
	nearPt(ctx, refPoint(r, t), p + (p - base).unit() * (ld)d, 1e-6L * (1e-3L + maxAbs(c)), "two-weights-move-point", "point after the change");
}
SCENARIO(two_weights_last, 1)
{
	CurveOpt o;
	o.maxWeightMode = 1;
	LN_NurbsCurve c = genCurve(ctx, o), r;
	double t = genParam(ctx, c);
	bool refused = false;
	try { refused = !NurbsCurve::NeighborWeightsModification(c, t, (int)c.ControlPoints.size() - 1, 0.5, 1.0, r); }
	catch (const std::exception&) { refused = true; }
	ctx.check(refused, "two-weights-last", "the last control point has no right neighbour, but the request was accepted");
}

SCENARIO(warp, 2)
{
	CurveOpt o;
	o.maxPointMode = 2;
	o.scale = ctx.rng.logu(0.5, 500);
	LN_NurbsCurve c = genCurve(ctx, o), r, c0 = c;
	Rng& g = ctx.rng;
	double a = genParam(ctx, c), b = genParam(ctx, c);
	if (a > b) std::swap(a, b);
	if (b - a < 1e-3) return;
	std::vector<double> shape;
	for (size_t i = 0; i < c.ControlPoints.size(); i++) shape.push_back(g.chance(0.3) ? 0 : g.uni(-2, 2));
	XYZ normal = genPoint(g, g.logu(0.2, 5));
	double d = g.sgn() * g.logu(0.01, 10);
	double m = 0.5 * (a + b);
	for (auto& q : groups(c.KnotVector)) if (q.first > lo(c) && q.first < hi(c) && fabs(q.first - m) < 1e-5 * (1 + fabs(m))) return;
	V3 dir = refDers(c, m, 1)[1].cross(V3(normal));
	if (dir.len() < 1e-3L * maxAbs(c) || normal.Length() < 0.05) return;
	ctx.dump("shape", shape);
	ctx.dump("normal", normal);
	ctx.note(strf("distance %.17g from %.17g to %.17g", d, a, b));
	ctx.bucket("sign", d > 0 ? "+" : "-");
	NurbsCurve::Warping(c, shape, d, normal, a, b, r);
	ctx.check(identical(c, c0), "input-untouched", "input modified");
	std::vector<bool> may(c.ControlPoints.size());
	for (size_t i = 0; i < may.size(); i++) may[i] = shape[i] != 0;
	othersUntouched(ctx, c, r, may);
	for (size_t i = 0; i < may.size(); i++)
	{
		ctx.near(r.ControlPoints[i].GetW(), c.ControlPoints[i].GetW(), 1e-12L * c.ControlPoints[i].GetW(), "warp-weight", "weight");
		nearPt(ctx, r.ControlPoints[i].ToXYZ(true), V4(c.ControlPoints[i]).proj() + dir.unit() * ((ld)d * shape[i]), 1e-8L * weightRatio(c) * (1 + maxAbs(c) + fabs(d)), "warp-moves", strf("control point %zu", i));
	}
}

static void range(const LN_NurbsCurve& c, double a, double b, int& first, int& last)
{
	first = refSpan(c.Degree, c.KnotVector, a);
	last = refSpan(c.Degree, c.KnotVector, b) - c.Degree - 1;
}
SCENARIO(flatten, 2)
{
	CurveOpt o;
	o.maxInterior = 14;
	o.maxP = 4;
	o.maxPointMode = 2;
	o.scale = ctx.rng.logu(1, 200);
	LN_NurbsCurve c = genCurve(ctx, o), r, c0 = c;
	Rng& g = ctx.rng;
	double a = g.chance(0.4) ? lo(c) : genParam(ctx, c, P_INNER), b = g.chance(0.4) ? hi(c) : genParam(ctx, c, P_INNER);
	if (a > b) std::swap(a, b);
	if (b - a < 1e-3) return;
	double sc = (double)maxAbs(c);
	XYZ p0 = genPoint(g, sc), p1 = genPoint(g, sc);
	if (p0.Distance(p1) < 0.2 * sc) return;
	int first, last;
	range(c, a, b, first, last);
	ctx.bucket("selected", last - first + 1 <= 0 ? "none" : last - first + 1 <= c.Degree ? "few" : "many");
	ctx.dump("line start", p0);
	ctx.dump("line end", p1);
	ctx.note(strf("from %.17g to %.17g", a, b));
	bool ok = NurbsCurve::Flattening(c, p0, p1, a, b, r);
	ctx.check(identical(c, c0), "input-untouched", "input modified");
	V3 A(p0), L = V3(p1) - A;
	std::vector<bool> may(c.ControlPoints.size());
	int moved = 0;
	bool unsure = false;
	for (int i = first; i <= last; i++)
	{
		V3 q = V4(c.ControlPoints[i]).proj();
		ld s = (q - A).dot(L) / L.dot(L);
		if (fabsl(s) < 1e-5L || fabsl(s - 1) < 1e-5L) { unsure = true; may[i] = true; continue; }
		if (s < 0 || s > 1) continue;
		may[i] = true;
		moved++;
		nearPt(ctx, r.ControlPoints[i].ToXYZ(true), A + L * s, 1e-9L * weightRatio(c) * (1 + maxAbs(c)), "flatten-projects", strf("control point %d", i));
		ctx.near(r.ControlPoints[i].GetW(), c.ControlPoints[i].GetW(), 1e-12L * c.ControlPoints[i].GetW(), "flatten-weight", "weight");
	}
	othersUntouched(ctx, c, r, may);
	if (!unsure) ctx.check(ok == (moved >= c.Degree + 1), "flatten-verdict", strf("returned %d with %d control points on the line, degree %d", ok, moved, c.Degree));
	// the curve does not change after the end of the range nor before the span that holds its start
	for (double t : sampleParams(c.Degree, c.KnotVector, 3))
		if (t >= b || t <= c.KnotVector[first])
			nearPt(ctx, refPoint(r, t), refPoint(c, t), 1e-10L * weightRatio(c) * (1 + maxAbs(c) + maxAbs(r)), "flatten-local", strf("curve outside the range, t=%.9g", t));
}
SCENARIO(bend, 2)
{
	CurveOpt o;
	o.maxInterior = 14;
	o.maxP = 4;
	o.maxPointMode = 2;
	o.scale = ctx.rng.logu(1, 200);
	LN_NurbsCurve c = genCurve(ctx, o), r, c0 = c;
	Rng& g = ctx.rng;
	double a = g.chance(0.4) ? lo(c) : genParam(ctx, c, P_INNER), b = g.chance(0.4) ? hi(c) : genParam(ctx, c, P_INNER);
	if (a > b) std::swap(a, b);
	if (b - a < 1e-3) return;
	double sc = (double)maxAbs(c);
	XYZ ctr = genPoint(g, 4 * sc);
	double rad = sc * g.logu(0.05, 3), k = g.chance(0.2) ? 1.0 : g.uni(0.2, 4);
	int first, last;
	range(c, a, b, first, last);
	ctx.bucket("selected", last - first + 1 <= 0 ? "none" : last - first + 1 <= c.Degree ? "few" : "many");
	ctx.dump("center", ctr);
	ctx.note(strf("radius %.17g cross ratio %.17g from %.17g to %.17g", rad, k, a, b));
	for (int i = first; i <= last; i++)
	{
		ld s = (ld)rad / dist(V4(c.ControlPoints[i]).proj(), V3(ctr));
		if (!(s < 50) || fabsl(1 + (k - 1) * s) < 0.05L) return;
	}
	NurbsCurve::Bending(c, a, b, ctr, rad, k, r);
	ctx.check(identical(c, c0), "input-untouched", "input modified");
	std::vector<bool> may(c.ControlPoints.size());
	for (int i = first; i <= last; i++)
	{
		may[i] = true;
		V3 q = V4(c.ControlPoints[i]).proj() - V3(ctr);
		ld s = (ld)rad / q.len(), t = k * s / (1 + (k - 1) * s);
		nearPt(ctx, r.ControlPoints[i].ToXYZ(true), V3(ctr) + q * t, 1e-8L * weightRatio(c) * (1 + maxAbs(c) + maxAbs(r)), "bend-cross-ratio", strf("control point %d", i));
		if (k == 1.0) ctx.near(dist(V4(r.ControlPoints[i]).proj(), V3(ctr)), rad, 1e-8L * weightRatio(c) * (1 + maxAbs(c)), "bend-on-circle", "distance to the bend center");
		ctx.near(r.ControlPoints[i].GetW(), c.ControlPoints[i].GetW(), 1e-12L * c.ControlPoints[i].GetW(), "bend-weight", "weight");
	}
	othersUntouched(ctx, c, r, may);
	for (double t : sampleParams(c.Degree, c.KnotVector, 3))
		if (t >= b || t <= c.KnotVector[first])
			nearPt(ctx, refPoint(r, t), refPoint(c, t), 1e-10L * weightRatio(c) * (1 + maxAbs(c) + maxAbs(r)), "bend-local", strf("curve outside the range, t=%.9g", t));
}

// derivative constraints are met exactly, with the smallest movement of the free control points
SCENARIO(constrained, 3)
{
	CurveOpt o;
	o.weightMode = 0;
	o.minP = 2;
	o.maxP = 5;
	o.maxInterior = 8;
	o.minGap = 0.1;
	o.multChance = 0.15;
	o.maxPointMode = 2;
	o.simpleDomain = true;
	o.scale = ctx.rng.logu(1, 100);
	LN_NurbsCurve c = genCurve(ctx, o), r, c0 = c;
	Rng& g = ctx.rng;
	int p = c.Degree, n = (int)c.ControlPoints.size();
	int k = g.irange(1, 3);
	std::vector<double> ur;
	for (int i = 0; i < k; i++) ur.push_back(genParam(ctx, c, P_INNER));
	std::sort(ur.begin(), ur.end());
	std::vector<XYZ> D;
	std::vector<int> Dr, Dk;
	for (int i = 0; i < k; i++)
	{
		int top = g.irange(0, std::min(2, p));
		for (int d = 0; d <= top; d++)
			if (g.chance(0.7) || d == top) { D.push_back(g.chance(0.2) ? XYZ(0, 0, 0) : genPoint(g, 2)); Dr.push_back(i); Dk.push_back(d); }
	}
	std::vector<int> fixed;
	for (int i = 0; i < n; i++) if (g.chance(0.12)) fixed.push_back(i);
	// reference rows over the free control points
	int m = (int)D.size();
	std::vector<bool> isFixed(n);
	for (int f : fixed) isFixed[f] = true;
	std::vector<std::vector<ld>> B(m, std::vector<ld>(n, 0));
	for (int i = 0; i < m; i++)
	{
		int sp = refSpan(p, c.KnotVector, ur[Dr[i]]);
		for (int j = sp - p; j <= sp; j++) if (!isFixed[j]) B[i][j] = refN(j, p, c.KnotVector, ur[Dr[i]], sp, Dk[i]);
	}
	// rows must be independent: pivoted orthogonalisation of the normalised rows
	{
		std::vector<std::vector<ld>> Q;
		for (int i = 0; i < m; i++)
		{
			std::vector<ld> v = B[i];
			ld nn = 0;
			for (ld x : v) nn += x * x;
			if (nn < 1e-4L) return;
			for (ld& x : v) x /= sqrtl(nn);
			for (int z = 0; z < 2; z++)
				for (auto& q : Q) { ld s = 0; for (int j = 0; j < n; j++) s += q[j] * v[j]; for (int j = 0; j < n; j++) v[j] -= s * q[j]; }
			ld rest = 0;
			for (ld x : v) rest += x * x;
			if (rest < 0.02L) return;
			for (ld& x : v) x /= sqrtl(rest);
			Q.push_back(v);
		}
	}
	// the tool ignores basis values whose square is below its tolerance
	for (auto& row : B) for (ld x : row) if (x != 0 && fabsl(x) < 2e-3L) return;
	ctx.bucket("constraints", m);
	ctx.bucket("fixed", (int)fixed.size());
	ctx.dump("params", ur);
	ctx.dump("deltas", D);
	std::string s;
	for (int i = 0; i < m; i++) s += strf("(%d,%d) ", Dr[i], Dk[i]);
	for (int f : fixed) s += strf("f%d ", f);
	ctx.note(s);
	NurbsCurve::ConstraintBasedModification(c, ur, D, Dr, Dk, fixed, r);
	ctx.check(identical(c, c0), "input-untouched", "input modified");
	std::vector<bool> may(n);
	for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) if (B[i][j] != 0) may[j] = true;
	othersUntouched(ctx, c, r, may);
	std::vector<V3> dP(n);
	ld mx = 0;
	for (int j = 0; j < n; j++) { dP[j] = V4(r.ControlPoints[j]).proj() - V4(c.ControlPoints[j]).proj(); mx = std::max(mx, dP[j].len()); }
	ld bm = 0;
	for (auto& row : B) for (ld x : row) bm = std::max(bm, fabsl(x));
	for (int i = 0; i < m; i++)
	{
		V3 got = refDers(r, ur[Dr[i]], Dk[i])[Dk[i]] - refDers(c, ur[Dr[i]], Dk[i])[Dk[i]];
		nearPt(ctx, got, V3(D[i]), 1e-6L * (1 + mx) * (1 + bm) + 1e-9L * maxAbs(c) * (1 + bm), "constraint-met", strf("change of derivative %d at %.9g", Dk[i], ur[Dr[i]]));
	}
	// minimal norm: the movement is a combination of the constraint rows
	{
		std::vector<std::vector<ld>> Q;
		for (int i = 0; i < m; i++)
		{
			std::vector<ld> v = B[i];
			for (int z = 0; z < 2; z++)
				for (auto& q : Q) { ld t = 0; for (int j = 0; j < n; j++) t += q[j] * v[j]; for (int j = 0; j < n; j++) v[j] -= t * q[j]; }
			ld nn = 0;
			for (ld x : v) nn += x * x;
			for (ld& x : v) x /= sqrtl(nn);
			Q.push_back(v);
		}
		std::vector<V3> res = dP;
		for (auto& q : Q) { V3 s2; for (int j = 0; j < n; j++) s2 += dP[j] * q[j]; for (int j = 0; j < n; j++) res[j] = res[j] - s2 * q[j]; }
		for (int j = 0; j < n; j++) ctx.near(res[j].len(), 0, 1e-6L * (1 + mx) + 1e-9L * maxAbs(c), "constraint-minimal", "part of the movement the constraints do not need");
	}
}
#include "main.inc"
