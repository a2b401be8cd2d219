// P23: inversion of volume points and the validity check
#include "vol.hpp"
using namespace H;

static LN_NurbsVolume box(Ctx& ctx, int wm)
{
	// a right-handed, regular volume: a rotated and stretched box with a disturbed control net
	Rng& g = ctx.rng;
	LN_NurbsVolume c = genVolume(ctx, 2, 1, wm, true);
	double sc = g.logu(0.3, 100);
	XYZ o = genPoint(g, g.logu(0.1, 50)), a, b, n;
	do { a = genPoint(g, 1); b = genPoint(g, 1); } while (a.Length() < 0.3 || a.CrossProduct(b).Length() < 0.3);
	n = a.CrossProduct(b);
	n = n * (g.uni(0.5, 1.5) / n.Length());
	double ex[3] = { g.logu(0.4, 2.5), g.logu(0.4, 2.5), g.logu(0.4, 2.5) }, jit = g.chance(0.3) ? 0 : 0.12;
	int D[3] = { (int)dim(c, 0), (int)dim(c, 1), (int)dim(c, 2) };
	auto greville = [&](int d, int i) { ld s = 0; for (int k = 1; k <= deg(c, d); k++) s += kv(c, d)[i + k]; return (s / deg(c, d) - vlo(c, d)) / (vhi(c, d) - vlo(c, d)); };
	for (int i = 0; i < D[0]; i++) for (int j = 0; j < D[1]; j++) for (int k = 0; k < D[2]; k++)
	{
		double u = greville(0, i) + jit * g.uni(-1, 1) / D[0] / 2, v = greville(1, j) + jit * g.uni(-1, 1) / D[1] / 2, w = greville(2, k) + jit * g.uni(-1, 1) / D[2] / 2;
		c.ControlPoints[i][j][k] = XYZW(o + a * (sc * ex[0] * u) + b * (sc * ex[1] * v) + n * (sc * ex[2] * w), c.ControlPoints[i][j][k].GetW());
	}
	ctx.dump("volume", c);
	return c;
}
static V3 ders(const LN_NurbsVolume& s, ld* t, V3* d)
{
	int sp[3];
	for (int e = 0; e < 3; e++) sp[e] = refSpan(deg(s, e), kv(s, e), t[e]);
	V4 h = refVolH(s, t[0], t[1], t[2], 0, 0, 0, sp[0], sp[1], sp[2]);
	V3 p = h.proj();
	for (int e = 0; e < 3; e++) { V4 q = refVolH(s, t[0], t[1], t[2], e == 0, e == 1, e == 2, sp[0], sp[1], sp[2]); d[e] = (q.v3() - p * q.w) / h.w; }
	return p;
}
static ld jac(const LN_NurbsVolume& s, ld* t) { V3 d[3]; ders(s, t, d); return d[0].dot(d[1].cross(d[2])); }
static bool inDomain(const LN_NurbsVolume& s, const UVW& r)
{
	double q[3] = { r.GetU(), r.GetV(), r.GetW() };
	for (int d = 0; d < 3; d++) if (!(q[d] >= vlo(s, d) - 1e-9 * (1 + fabs(vlo(s, d))) && q[d] <= vhi(s, d) + 1e-9 * (1 + fabs(vhi(s, d))))) return false;
	return true;
}
SCENARIO(inside, 4)
{
	Rng& g = ctx.rng;
	LN_NurbsVolume s = box(ctx, 1), s0 = s;
	double t[3];
	for (int d = 0; d < 3; d++) t[d] = genParam(ctx, deg(s, d), kv(s, d), P_ANY);
	XYZ p = refPoint(s, t[0], t[1], t[2]).xyz();
	ctx.dump("point", p);
	ctx.note(strf("taken at %.17g %.17g %.17g", t[0], t[1], t[2]));
	UVW r = NurbsVolume::GetParamOnVolume(s, p);
	ctx.check(identicalV(s, s0), "input-untouched", "modified");
	ctx.check(inDomain(s, r), "volume-param-in-domain", strf("(%.12g,%.12g,%.12g)", r.GetU(), r.GetV(), r.GetW()));
	// half the diagonal of a grid cell
	ld cell = 0;
	for (int k = 0; k < 27; k++)
	{
		ld q[3];
		int c[3] = { k % 3, k / 3 % 3, k / 9 };
		for (int d = 0; d < 3; d++) q[d] = vlo(s, d) + (vhi(s, d) - vlo(s, d)) * c[d] * 0.5L;
		V3 e[3];
		ders(s, q, e);
		ld m = 0;
		for (int d = 0; d < 3; d++) m += e[d].len() * (vhi(s, d) - vlo(s, d)) / 39;
		cell = std::max(cell, m);
	}
	ld dd = dist(refPoint(s, r.GetU(), r.GetV(), r.GetW()), V3(p));
	ctx.check(dd <= 2 * cell + 1e-4L, "volume-inversion-bound", strf("returned (%.12g,%.12g,%.12g), %.3Lg away (cell %.3Lg)", r.GetU(), r.GetV(), r.GetW(), dd, cell));
	for (int d = 0; d < 3; d++) for (auto& q : groups(kv(s, d))) if (q.first > vlo(s, d) && q.first < vhi(s, d) && q.second >= deg(s, d) && fabs(q.first - t[d]) < 2 * (vhi(s, d) - vlo(s, d)) / 39) { ctx.bucket("crease", 1); return; }
	ctx.check(dd <= 2e-4L + 1e-7L * maxAbs(s), "volume-inversion", strf("point at (%.12g,%.12g,%.12g) inverted to (%.12g,%.12g,%.12g), %.3Lg away", t[0], t[1], t[2], r.GetU(), r.GetV(), r.GetW(), dd));
}
SCENARIO(outside, 1)
{
	Rng& g = ctx.rng;
	LN_NurbsVolume s = box(ctx, 1);
	ld t[3];
	for (int d = 0; d < 3; d++) t[d] = g.uni(vlo(s, d), vhi(s, d));
	int d = g.irange(0, 2);
	bool up = g.chance(0.5);
	t[d] = up ? vhi(s, d) : vlo(s, d);
	V3 e[3];
	V3 q = ders(s, t, e);
	XYZ p = (q + e[d] * ((up ? 1 : -1) * (ld)g.uni(0.1, 3) * (vhi(s, d) - vlo(s, d)))).xyz();
	ctx.bucket("side", d * 2 + up);
	ctx.dump("point", p);
	UVW r = NurbsVolume::GetParamOnVolume(s, p);
	ctx.check(inDomain(s, r), "volume-param-in-domain", strf("(%.12g,%.12g,%.12g)", r.GetU(), r.GetV(), r.GetW()));
	ld got = dist(refPoint(s, r.GetU(), r.GetV(), r.GetW()), V3(p)), best = 1e300L, cell = 0;
	const int N = 13;
	for (int i = 0; i <= N * N * 6; i++)
	{
		int f = i % 6, x = i / 6 % N, y = i / 6 / N;
		if (y >= N) break;
		ld q3[3];
		int dd = f / 2, a = (dd + 1) % 3, b = (dd + 2) % 3;
		q3[dd] = (f & 1) ? vhi(s, dd) : vlo(s, dd);
		q3[a] = vlo(s, a) + (vhi(s, a) - vlo(s, a)) * x / (N - 1);
		q3[b] = vlo(s, b) + (vhi(s, b) - vlo(s, b)) * y / (N - 1);
		best = std::min(best, dist(refPoint(s, q3[0], q3[1], q3[2]), V3(p)));
	}
	for (int k = 0; k < 27; k++)
	{
		ld q3[3];
		int c[3] = { k % 3, k / 3 % 3, k / 9 };
		for (int x = 0; x < 3; x++) q3[x] = vlo(s, x) + (vhi(s, x) - vlo(s, x)) * c[x] * 0.5L;
		V3 ee[3];
		ders(s, q3, ee);
		ld m = 0;
		for (int x = 0; x < 3; x++) m += ee[x].len() * (vhi(s, x) - vlo(s, x)) / 39;
		cell = std::max(cell, m);
	}
	ctx.check(got <= best + 2 * cell + 1e-4L, "volume-closest", strf("distance %.9Lg, but %.9Lg is possible (cell %.3Lg)", got, best, cell));
}
SCENARIO(check, 1)
{
	Rng& g = ctx.rng;
	LN_NurbsVolume s = box(ctx, 0);
	int kind = g.irange(0, 3);   // 0 as it is, 1 mirrored, 2 folded, 3 collapsed
	if (kind == 1) for (auto& a : s.ControlPoints) for (auto& b : a) for (auto& c : b) c = XYZW(-c.GetWX(), c.GetWY(), c.GetWZ(), c.GetW());
	if (kind == 2) { int i = dim(s, 0) - 1; for (size_t j = 0; j < dim(s, 1); j++) for (size_t k = 0; k < dim(s, 2); k++) { V4 a(s.ControlPoints[0][j][k]), b(s.ControlPoints[i][j][k]); V4 c = a * 1.5L - b * 0.5L; s.ControlPoints[0][j][k] = XYZW((double)b.x, (double)b.y, (double)b.z, 1.0); s.ControlPoints[i][j][k] = XYZW((double)c.x, (double)c.y, (double)c.z, 1.0); } }
	if (kind == 3) { auto q = s.ControlPoints[0]; for (auto& a : s.ControlPoints) a = q; }
	ctx.bucket("kind", kind);
	ctx.dump("volume", s);
	ld mn = 1e300L, mx = -1e300L;
	const int N = 8;   // 50 samples, 49 = 7 * 7 intervals: these are a subset of the library's
	for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) for (int k = 0; k < N; k++)
	{
		ld t[3] = { vlo(s, 0) + (vhi(s, 0) - vlo(s, 0)) * i / (N - 1.0L), vlo(s, 1) + (vhi(s, 1) - vlo(s, 1)) * j / (N - 1.0L), vlo(s, 2) + (vhi(s, 2) - vlo(s, 2)) * k / (N - 1.0L) };
		ld J = jac(s, t);
		mn = std::min(mn, J); mx = std::max(mx, J);
	}
	ld ref = std::max(fabsl(mn), fabsl(mx));
	bool got = NurbsVolume::Check(s);
	if (kind == 0) { if (mn > 0.2L * ref) ctx.check(got, "check-accepts", strf("regular volume rejected (Jacobian from %.3Lg to %.3Lg)", mn, mx)); }
	else if (kind == 3 || mn < -1e-9L * ref) ctx.check(!got, "check-rejects", strf("accepted although its Jacobian reaches %.3Lg", mn));
}
SCENARIO(ring, 1)
{
	// closed in one direction: the search may walk across the seam
	Rng& g = ctx.rng;
	LN_NurbsVolume s;
	int p = g.irange(2, 3), n = g.irange(7, 10), d = g.irange(0, 2);
	double sc = g.logu(0.5, 30), r0 = g.uni(0.6, 1.2), r1 = r0 + g.uni(0.3, 1.5), h = g.uni(0.3, 2);
	s.DegreeU = p; s.DegreeV = s.DegreeW = 1;
	for (int i = 0; i < n + p + 1; i++) s.KnotVectorU.push_back(std::min(std::max(i - p, 0), n - p));
	s.KnotVectorV = s.KnotVectorW = { 0, 0, 1, 1 };
	s.ControlPoints.resize(n);
	for (int i = 0; i < n; i++)
	{
		double a = 2 * M_PI * (i % (n - 1)) / (n - 1);
		s.ControlPoints[i] = { { XYZW(r1 * cos(a) * sc, r1 * sin(a) * sc, 0, 1), XYZW(r1 * cos(a) * sc, r1 * sin(a) * sc, h * sc, 1) }, { XYZW(r0 * cos(a) * sc, r0 * sin(a) * sc, 0, 1), XYZW(r0 * cos(a) * sc, r0 * sin(a) * sc, h * sc, 1) } };
	}
	ld t[3] = { g.chance(0.6) ? (g.chance(0.5) ? g.uni(0, 0.1) : n - p - g.uni(0, 0.1)) : g.uni(0, n - p), g.chance(0.2) ? g.irange(0, 1) : g.uni(), g.chance(0.2) ? g.irange(0, 1) : g.uni() };
	XYZ q = refPoint(s, t[0], t[1], t[2]).xyz();
	if (d) { LN_NurbsVolume x; NurbsVolume::Swap(s, VD[0], VD[d], x); s = x; }
	ctx.bucket("closed-direction", d);
	ctx.dump("volume", s);
	ctx.dump("point", q);
	UVW r = NurbsVolume::GetParamOnVolume(s, q);
	ctx.check(inDomain(s, r), "volume-param-in-domain", strf("(%.12g,%.12g,%.12g)", r.GetU(), r.GetV(), r.GetW()));
	ld dd = dist(refPoint(s, r.GetU(), r.GetV(), r.GetW()), V3(q));
	ctx.check(dd <= 2e-4L + 1e-7L * maxAbs(s), "ring-inversion", strf("returned (%.12g,%.12g,%.12g), %.3Lg away", r.GetU(), r.GetV(), r.GetW(), dd));
}
SCENARIO(coil, 1)
{
	// a bar along one and a half turns of a helix: far parts of it come close in space
	Rng& g = ctx.rng;
	LN_NurbsVolume s;
	int p = 3, n = 14, d = g.irange(0, 2);
	double sc = g.logu(0.5, 30), turn = g.uni(1.2, 1.6) * 2 * M_PI, pitch = g.uni(0.9, 1.4), th = g.uni(0.1, 0.25), hh = g.uni(0.1, 0.25);
	s.DegreeU = p; s.DegreeV = s.DegreeW = 1;
	for (int i = 0; i < n + p + 1; i++) s.KnotVectorU.push_back(std::min(std::max(i - p, 0), n - p));
	s.KnotVectorV = s.KnotVectorW = { 0, 0, 1, 1 };
	s.ControlPoints.resize(n);
	for (int i = 0; i < n; i++)
	{
		double a = turn * i / (n - 1), z = pitch * a / (2 * M_PI), q = 1 - th;
		auto at = [&](double r, double h) { return XYZW(r * cos(a) * sc, r * sin(a) * sc, (z + h) * sc, 1); };
		s.ControlPoints[i] = { { at(1, 0), at(1, hh) }, { at(q, 0), at(q, hh) } };
	}
	ld t[3] = { g.chance(0.2) ? (ld)g.irange(0, 1) * (n - p) : g.uni(0, n - p), g.chance(0.2) ? g.irange(0, 1) : g.uni(), g.chance(0.2) ? g.irange(0, 1) : g.uni() };
	XYZ q = refPoint(s, t[0], t[1], t[2]).xyz();
	if (d) { LN_NurbsVolume x; NurbsVolume::Swap(s, VD[0], VD[d], x); s = x; }
	ctx.bucket("long-direction", d);
	ctx.dump("volume", s);
	ctx.dump("point", q);
	UVW r = NurbsVolume::GetParamOnVolume(s, q);
	ctx.check(inDomain(s, r), "volume-param-in-domain", strf("(%.12g,%.12g,%.12g)", r.GetU(), r.GetV(), r.GetW()));
	ld dd = dist(refPoint(s, r.GetU(), r.GetV(), r.GetW()), V3(q));
	ctx.check(dd <= 2e-4L + 1e-7L * maxAbs(s), "coil-inversion", strf("returned (%.12g,%.12g,%.12g), %.3Lg away", r.GetU(), r.GetV(), r.GetW(), dd));
}
SCENARIO(closed, 3)
{
	// closed in a direction exactly when every curve of the control net in that direction is
	Rng& g = ctx.rng;
	LN_NurbsVolume s = box(ctx, 0);
	int d = g.irange(0, 2);
	auto at = [&](int i, int a, int b) -> XYZW& { return d == 0 ? s.ControlPoints[i][a][b] : d == 1 ? s.ControlPoints[a][i][b] : s.ControlPoints[a][b][i]; };
	int n = dim(s, d), na = dim(s, d == 0 ? 1 : 0), nb = dim(s, d == 2 ? 1 : 2);
	ctx.bucket("closed-direction", d);
	for (int e = 0; e < 3; e++) ctx.check(!NurbsVolume::IsClosed(s, VD[e]), "volume-closed", strf("a box is called closed in direction %d", e));
	if (n < 3) return;
	for (int a = 0; a < na; a++) for (int b = 0; b < nb; b++) at(n - 1, a, b) = at(0, a, b);
	ctx.dump("closed", s);
	for (int e = 0; e < 3; e++) ctx.check(NurbsVolume::IsClosed(s, VD[e]) == (e == d), "volume-closed", strf("closed in direction %d only, misjudged in direction %d", d, e));
	int a = g.irange(0, na - 1), b = g.irange(0, nb - 1);
	double off = g.logu(1e-3, 1) * (1 + (double)maxAbs(s));
	XYZW& c = at(g.chance(0.5) ? 0 : n - 1, a, b);
	c = XYZW(c.ToXYZ(true) + (g.chance(0.5) ? XYZ(off, 0, 0) : g.chance(0.5) ? XYZ(0, off, 0) : XYZ(0, 0, -off)), c.GetW());
	ctx.dump("opened", s);
	ctx.check(!NurbsVolume::IsClosed(s, VD[d]), "volume-closed", strf("called closed in direction %d although control curve (%d,%d) of %dx%d ends %.3g away", d, a, b, na, nb, off));
}
#include "main.inc"
