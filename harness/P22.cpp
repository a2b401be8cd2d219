// P22: operations on volumes preserve them
#include "vol.hpp"
using namespace H;

static LN_NurbsVolume vol(Ctx& ctx) { return genVolume(ctx, 4, 2, 1); }
static LN_NurbsVolume outVol(Ctx& ctx) { return ctx.rng.chance(0.5) ? dirtyVolume() : LN_NurbsVolume(); }
static void whole(const LN_NurbsVolume& s, double* a, double* b) { for (int d = 0; d < 3; d++) { a[d] = vlo(s, d); b[d] = vhi(s, d); } }
static void sameShape(Ctx& ctx, const LN_NurbsVolume& s, const LN_NurbsVolume& r, int d)
{
	for (int e = 0; e < 3; e++) if (e != d) ctx.check(deg(s, e) == deg(r, e) && kv(s, e) == kv(r, e), "other-directions", strf("direction %d changed", e));
}
// insertion clamped near a knot: the inserted value may be the knot it almost equals
SCENARIO(insert, 4)
{
	Rng& g = ctx.rng;
	LN_NurbsVolume s = vol(ctx), s0 = s;
	int d = g.irange(0, 2), p = deg(s, d);
	ctx.bucket("direction", d);
	double t = genParam(ctx, p, kv(s, d), P_INNER);
	if (g.chance(0.3)) { auto k = innerKnots(p, kv(s, d)); if (!k.empty()) t = g.pick(k); }
	if (t <= vlo(s, d) || t >= vhi(s, d)) return;
	for (double k : kv(s, d)) if (k != t && fabs(k - t) < 1e-4) return;
	int m = multOf(kv(s, d), t), times = g.irange(1, p);
	ctx.bucket("mult", m);
	ctx.bucket("times", times);
	ctx.dump("knot", t);
	LN_NurbsVolume r = outVol(ctx);
	if (g.chance(0.15)) { r = s; NurbsVolume::InsertKnot(r, t, times, VD[d], r); ctx.bucket("aliased", 1); }
	else { NurbsVolume::InsertKnot(s, t, times, VD[d], r); ctx.check(identicalV(s, s0), "input-untouched", "modified"); }
	validVolume(ctx, r, "insert-valid");
	sameShape(ctx, s, r, d);
	int got = (int)dim(r, d) - (int)dim(s, d);
	if (m + times <= p) ctx.check(got == times, "insert-count", strf("%d of %d inserted", got, times));
	else ctx.check(got >= 0 && got <= times, "insert-count", strf("%d of %d inserted", got, times));
	ctx.check(sameKnots(kv(r, d), withKnots(kv(s, d), std::vector<double>(got, t))), "insert-knots", "unexpected knots");
	double a[3], b[3];
	whole(s, a, b);
	sameVolume(ctx, s, r, nullptr, a, b, 10 * volTol(s), "insert-same");
}
SCENARIO(refine, 3)
{
	Rng& g = ctx.rng;
	LN_NurbsVolume s = vol(ctx), s0 = s;
	int d = g.irange(0, 2), p = deg(s, d), n = g.irange(1, 4);
	ctx.bucket("direction", d);
	std::vector<double> x;
	for (int i = 0; i < n; i++)
	{
		double t = genParam(ctx, p, kv(s, d), P_INNER);
		if (t <= vlo(s, d) || t >= vhi(s, d)) continue;
		int m = multOf(kv(s, d), t);
		bool near = false;
		for (double k : kv(s, d)) if (k != t && fabs(k - t) < 1e-3) near = true;
		for (double k : x) { if (k == t) m++; else if (fabs(k - t) < 1e-3) near = true; }
		if (near || m >= p) continue;
		x.push_back(t);
	}
	if (x.empty()) return;
	std::sort(x.begin(), x.end());
	ctx.bucket("count", (int)x.size());
	ctx.dump("knots", x);
	LN_NurbsVolume r = outVol(ctx);
	NurbsVolume::RefineKnotVector(s, x, VD[d], r);
	ctx.check(identicalV(s, s0), "input-untouched", "modified");
	validVolume(ctx, r, "refine-valid");
	sameShape(ctx, s, r, d);
	ctx.check(sameKnots(kv(r, d), withKnots(kv(s, d), x)), "refine-knots", "unexpected knots");
	double a[3], b[3];
	whole(s, a, b);
	sameVolume(ctx, s, r, nullptr, a, b, 10 * volTol(s), "refine-same");
}
SCENARIO(elevate, 3)
{
	Rng& g = ctx.rng;
	LN_NurbsVolume s = vol(ctx), s0 = s;
	int d = g.irange(0, 2), p = deg(s, d), times = g.irange(1, std::min(3, 7 - p));
	ctx.bucket("direction", d);
	ctx.bucket("times", times);
	LN_NurbsVolume r = outVol(ctx);
	NurbsVolume::ElevateDegree(s, times, VD[d], r);
	ctx.check(identicalV(s, s0), "input-untouched", "modified");
	validVolume(ctx, r, "elevate-valid");
	sameShape(ctx, s, r, d);
	ctx.check(deg(r, d) == p + times, "elevate-degree", strf("degree %d", deg(r, d)));
	std::vector<double> x;
	for (auto& q : groups(kv(s, d))) for (int k = 0; k < times; k++) x.push_back(q.first);
	ctx.check(sameKnots(kv(r, d), withKnots(kv(s, d), x)), "elevate-knots", "unexpected knots");
	double a[3], b[3];
	whole(s, a, b);
	sameVolume(ctx, s, r, nullptr, a, b, 1000 * volTol(s), "elevate-same");
}
SCENARIO(split, 4)
{
	Rng& g = ctx.rng;
	LN_NurbsVolume s = vol(ctx), s0 = s;
	int d = g.irange(0, 2), p = deg(s, d);
	ctx.bucket("direction", d);
	double t = genParam(ctx, p, kv(s, d), P_ANY);
	if (t <= vlo(s, d) + 1e-4 || t >= vhi(s, d) - 1e-4) return;
	ctx.dump("parameter", t);
	LN_NurbsVolume l = outVol(ctx), r = outVol(ctx);
	bool ok = NurbsVolume::SplitAt(s, t, VD[d], l, r);
	ctx.check(ok, "split-succeeds", "refused");
	ctx.check(identicalV(s, s0), "input-untouched", "modified");
	validVolume(ctx, l, "split-valid");
	validVolume(ctx, r, "split-valid");
	sameShape(ctx, s, l, d);
	sameShape(ctx, s, r, d);
	ctx.near(vlo(l, d), vlo(s, d), 0, "split-domain", "left start");
	ctx.near(vhi(r, d), vhi(s, d), 0, "split-domain", "right end");
	ctx.near(vhi(l, d), t, 3e-6L * (1 + fabs(t)), "split-domain", "left end");
	ctx.near(vhi(l, d), vlo(r, d), 0, "split-domain", "meeting parameter");
	ctx.check(kv(l, d).back() == vhi(l, d) && kv(r, d).front() == vlo(r, d), "split-domain", strf("a part runs past the parameter: outer knots %.17g and %.17g", kv(l, d).back(), kv(r, d).front()));
	double a[3], b[3];
	whole(l, a, b);
	sameVolume(ctx, s, l, nullptr, a, b, 100 * volTol(s), "split-same");
	whole(r, a, b);
	sameVolume(ctx, s, r, nullptr, a, b, 100 * volTol(s), "split-same");
}
SCENARIO(reverse, 3)
{
	Rng& g = ctx.rng;
	LN_NurbsVolume s = vol(ctx), s0 = s;
	int d = g.irange(0, 2);
	ctx.bucket("direction", d);
	LN_NurbsVolume r = outVol(ctx);
	if (g.chance(0.2)) { r = s; NurbsVolume::Reverse(r, VD[d], r); ctx.bucket("aliased", 1); }
	else { NurbsVolume::Reverse(s, VD[d], r); ctx.check(identicalV(s, s0), "input-untouched", "modified"); }
	validVolume(ctx, r, "reverse-valid");
	sameShape(ctx, s, r, d);
	double a[3], b[3];
	whole(s, a, b);
	sameVolume(ctx, s, r, [&](ld* x, ld* y) { y[d] = (ld)vlo(s, d) + vhi(s, d) - x[d]; }, a, b, 10 * volTol(s), "reverse-same");
}
SCENARIO(swap, 3)
{
	Rng& g = ctx.rng;
	LN_NurbsVolume s = vol(ctx), s0 = s;
	int d = g.irange(0, 2), e = g.irange(0, 2);
	ctx.bucket("directions", strf("%d%d", d, e));
	LN_NurbsVolume r = outVol(ctx);
	if (g.chance(0.2)) { r = s; NurbsVolume::Swap(r, VD[d], VD[e], r); ctx.bucket("aliased", 1); }
	else { NurbsVolume::Swap(s, VD[d], VD[e], r); ctx.check(identicalV(s, s0), "input-untouched", "modified"); }
	validVolume(ctx, r, "swap-valid");
	ctx.check(deg(r, d) == deg(s, e) && deg(r, e) == deg(s, d) && kv(r, d) == kv(s, e) && kv(r, e) == kv(s, d), "swap-shape", "degrees or knots");
	double a[3], b[3];
	whole(s, a, b);
	sameVolume(ctx, s, r, [&](ld* x, ld* y) { std::swap(y[d], y[e]); }, a, b, volTol(s), "swap-same");
}
SCENARIO(closed, 2)
{
	Rng& g = ctx.rng;
	LN_NurbsVolume s = vol(ctx);
	int d = g.irange(0, 2);
	bool close = g.chance(0.5);
	// make it closed in d, possibly spoiling a single pair of corresponding control points
	size_t n = dim(s, d);
	auto at = [&](size_t i, size_t j, size_t k) -> XYZW& { return d == 0 ? s.ControlPoints[k][i][j] : d == 1 ? s.ControlPoints[i][k][j] : s.ControlPoints[i][j][k]; };
	size_t ni = dim(s, d == 0 ? 1 : 0), nj = dim(s, d == 2 ? 1 : 2);
	for (size_t i = 0; i < ni; i++) for (size_t j = 0; j < nj; j++) at(i, j, n - 1) = at(i, j, 0);
	if (!close) { size_t i = g.irange(0, ni - 1), j = g.irange(0, nj - 1); at(i, j, n - 1) = XYZW(at(i, j, 0).ToXYZ(true) + XYZ(0.1, 0, 0.2), at(i, j, 0).GetW()); }
	ctx.bucket("closed", close);
	ctx.bucket("direction", d);
	ctx.dump("volume", s);
	ctx.check(NurbsVolume::IsClosed(s, VD[d]) == close, "closed-answer", close ? "closed volume reported open" : "open volume reported closed");
}
#include "main.inc"
