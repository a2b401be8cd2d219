// P21: volume points, derivatives and isocurves
#include "vol.hpp"
using namespace H;

static void params(Ctx& ctx, const LN_NurbsVolume& s, double* t, int mode = P_ANY)
{
	for (int d = 0; d < 3; d++) t[d] = genParam(ctx, deg(s, d), kv(s, d), mode);
	ctx.note(strf("parameters %.17g %.17g %.17g", t[0], t[1], t[2]));
}
SCENARIO(point, 3)
{
	LN_NurbsVolume s = genVolume(ctx, 4, 2, 2), s0 = s;
	double t[3];
	params(ctx, s, t);
	XYZ p = NurbsVolume::GetPointOnVolume(s, UVW(t[0], t[1], t[2]));
	ctx.check(identicalV(s, s0), "input-untouched", "modified");
	nearPt(ctx, p, refPoint(s, t[0], t[1], t[2]), volTol(s), "volume-point", "point");
}
SCENARIO(derivatives, 5)
{
	Rng& g = ctx.rng;
	LN_NurbsVolume s = genVolume(ctx, 4, 2, 1);
	int n = g.irange(0, 3);
	ctx.bucket("order", n);
	double t[3];
	params(ctx, s, t);
	auto D = NurbsVolume::ComputeVolumeRationalDerivatives(s, n, UVW(t[0], t[1], t[2]));
	ctx.check((int)D.size() == n + 1, "derivative-shape", strf("%zu", D.size()));
	int sp[3];
	for (int d = 0; d < 3; d++)
	{
		ld k = t[d];
		for (double q : kv(s, d)) if (fabs(q - t[d]) > 0 && fabs(q - t[d]) < 1e-5 * (1 + fabs(q))) return;   // next to a knot either side is right
		sp[d] = refSpan(deg(s, d), kv(s, d), k);
	}
	std::vector<std::vector<std::vector<V4>>> A(n + 1, std::vector<std::vector<V4>>(n + 1, std::vector<V4>(n + 1)));
	std::vector<std::vector<std::vector<V3>>> S(n + 1, std::vector<std::vector<V3>>(n + 1, std::vector<V3>(n + 1)));
	ld span = 1e300L;
	for (int d = 0; d < 3; d++) span = std::min(span, (ld)kv(s, d)[sp[d] + 1] - kv(s, d)[sp[d]]);
	for (int a = 0; a <= n; a++) for (int b = 0; a + b <= n; b++) for (int c = 0; a + b + c <= n; c++) A[a][b][c] = refVolH(s, t[0], t[1], t[2], a, b, c, sp[0], sp[1], sp[2]);
	ld wr = wRatio(s);
	for (int a = 0; a <= n; a++) for (int b = 0; a + b <= n; b++) for (int c = 0; a + b + c <= n; c++)
	{
		V3 x = A[a][b][c].v3();
		for (int i = 0; i <= a; i++) for (int j = 0; j <= b; j++) for (int k = 0; k <= c; k++)
			if (i || j || k) x = x - S[a - i][b - j][c - k] * (binom(a, i) * binom(b, j) * binom(c, k) * A[i][j][k].w);
		S[a][b][c] = x / A[0][0][0].w;
		ld mag = (1e-3L + maxAbs(s)) * wr;
		for (int q = 0; q < a + b + c; q++) mag *= 8 * wr / std::min((ld)1, span) ;
		ctx.check((int)D[a].size() > b && (int)D[a][b].size() > c, "derivative-shape", "missing entry");
		nearPt(ctx, D[a][b][c], S[a][b][c], 1e-11L * mag + 1e-10L * S[a][b][c].len(), "volume-derivative", strf("[%d][%d][%d]", a, b, c));
	}
}
SCENARIO(isocurve, 3)
{
	Rng& g = ctx.rng;
	LN_NurbsVolume s = genVolume(ctx, 4, 2, 1);
	double t[3];
	params(ctx, s, t);
	int d = g.irange(0, 2);
	for (int e = 0; e < 3; e++) if (e != d && fabs(t[e] + 1) < 1e-3) return;   // -1 is the marker of the free direction
	double q[3] = { t[0], t[1], t[2] };
	q[d] = -1;
	ctx.bucket("direction", d);
	LN_NurbsCurve c = NurbsVolume::GetIsoCurve(s, UVW(q[0], q[1], q[2]));
	validCurve(ctx, c, "isocurve-valid");
	ctx.check(c.Degree == deg(s, d) && c.KnotVector == kv(s, d), "isocurve-shape", strf("degree %d", c.Degree));
	for (double x : sampleParams(c.Degree, c.KnotVector, 3))
	{
		q[d] = x;
		nearPt(ctx, refPoint(c, x), refPoint(s, q[0], q[1], q[2]), volTol(s), "isocurve-on-volume", strf("direction %d at %.12g", d, x));
	}
}
SCENARIO(extract, 4)
{
	Rng& g = ctx.rng;
	LN_NurbsVolume s = genVolume(ctx, 4, 2, 1), s0 = s;
	int d = g.irange(0, 2);
	double t = genParam(ctx, deg(s, d), kv(s, d));
	ctx.bucket("direction", d);
	ctx.dump("parameter", t);
	LN_NurbsSurface f = g.chance(0.5) ? dirtySurface() : LN_NurbsSurface();
	bool ok = NurbsVolume::Extract(s, t, VD[d], f);
	ctx.check(ok, "extract-succeeds", "refused");
	ctx.check(identicalV(s, s0), "input-untouched", "modified");
	validSurface(ctx, f, "extract-valid");
	int e = d == 0 ? 1 : 0, h = d == 2 ? 1 : 2;
	ctx.check(f.DegreeU == deg(s, e) && f.DegreeV == deg(s, h) && f.ControlPoints.size() == dim(s, e) && f.ControlPoints[0].size() == dim(s, h), "extract-shape", strf("degrees %d %d", f.DegreeU, f.DegreeV));
	ctx.check(sameKnots(f.KnotVectorU, kv(s, e)) && sameKnots(f.KnotVectorV, kv(s, h)), "extract-shape", "knots");
	// a parameter next to a knot may be taken to be the knot
	ld slack = volTol(s) * 10;
	for (double k : kv(s, d)) if (k != t && fabs(k - t) < 3e-6 * (1 + fabs(k))) slack += 1e-4L * maxAbs(s) * wRatio(s) * deg(s, d) * 10;
	for (int c = 0; c < 16; c++)
	{
		ld x[3];
		x[d] = t;
		x[e] = vlo(s, e) + (vhi(s, e) - vlo(s, e)) * (c < 4 ? (c & 1) : g.uni());
		x[h] = vlo(s, h) + (vhi(s, h) - vlo(s, h)) * (c < 4 ? (c >> 1) : g.uni());
		nearPt(ctx, refPoint(f, x[e], x[h]), refPoint(s, x[0], x[1], x[2]), slack, "extract-on-volume", strf("direction %d", d));
	}
}
#include "main.inc"
