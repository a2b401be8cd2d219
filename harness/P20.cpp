// P20: surface interpolation and approximation of point grids
#include "surf.hpp"
using namespace H;
typedef std::vector<std::vector<XYZ>> Grid;

static Grid genGrid(Ctx& ctx, int n, int m, double& sc)
{
	Rng& g = ctx.rng;
	sc = genScale(g);
	double au = g.logu(0.3, 3), av = g.logu(0.3, 3), jit = g.chance(0.2) ? 0 : g.uni(0, 0.45), zz = g.chance(0.15) ? 0 : g.uni(0, 1.5);
	XYZ o = g.chance(0.3) ? XYZ(0, 0, 0) : genPoint(g, sc);
	std::vector<double> su(n), sv(m);
	bool even = g.chance(0.3);
	for (int i = 0; i < n; i++) su[i] = i + (even ? 0 : g.uni(-0.35, 0.35));
	for (int j = 0; j < m; j++) sv[j] = j + (even ? 0 : g.uni(-0.35, 0.35));
	double ph = g.uni(0, 6), fx = g.uni(0.2, 0.9), fy = g.uni(0.2, 0.9);
	bool waves = g.chance(0.5);
	Grid q(n, std::vector<XYZ>(m));
	int perm = g.irange(0, 2);
	for (int i = 0; i < n; i++) for (int j = 0; j < m; j++)
	{
		double x = au * (su[i] + jit * g.uni(-0.5, 0.5)), y = av * (sv[j] + jit * g.uni(-0.5, 0.5));
		double z = waves ? zz * sin(fx * i + fy * j + ph) : zz * g.uni(-1, 1);
		double k = sc / 8;
		XYZ p = perm == 0 ? XYZ(x, y, z) : perm == 1 ? XYZ(z, x, y) : XYZ(y, z, -x);
		q[i][j] = o + p * k;
	}
	if (n > 2 && m > 2 && g.chance(0.1)) { int r = g.irange(0, n - 1); for (int j = 1; j < m; j++) q[r][j] = q[r][0]; ctx.bucket("degenerate-row", 1); }   // a pole
	else if (n > 2 && m > 2 && g.chance(0.1)) { int r = g.irange(0, m - 1); for (int i = 1; i < n; i++) q[i][r] = q[0][r]; ctx.bucket("degenerate-col", 1); }
	ctx.bucket("rows", n);
	ctx.bucket("cols", m);
	ctx.bucket("even", even);
	for (auto& r : q) ctx.dump("points", r);
	ld s = 0;
	for (auto& r : q) for (auto& p : r) s = std::max(s, V3(p).len());
	sc = (double)s;
	return q;
}
static void refMesh(const Grid& q, std::vector<ld>& u, std::vector<ld>& v)
{
	int n = q.size(), m = q[0].size();
	auto dir = [&](int a, int b, std::function<V3(int, int)> P) {
		std::vector<ld> r(a, 0);
		int cnt = 0;
		for (int l = 0; l < b; l++)
		{
			std::vector<ld> c(a, 0);
			for (int k = 1; k < a; k++) c[k] = c[k - 1] + dist(P(k, l), P(k - 1, l));
			if (c[a - 1] < 1e-7L) continue;
			cnt++;
			for (int k = 0; k < a; k++) r[k] += c[k] / c[a - 1];
		}
		for (auto& x : r) x /= cnt;
		return r;
	};
	u = dir(n, m, [&](int k, int l) { return V3(q[k][l]); });
	v = dir(m, n, [&](int k, int l) { return V3(q[l][k]); });
}
SCENARIO(mesh, 2)
{
	Rng& g = ctx.rng;
	double sc;
	Grid q = genGrid(ctx, g.irange(2, 9), g.irange(2, 9), sc);
	std::vector<double> u, v;
	if (g.chance(0.5)) { u = { 3, 1, 4 }; v = { 2, 7 }; }
	bool ok = Interpolation::GetSurfaceMeshParameterization(q, u, v);
	ctx.check(ok, "mesh-succeeds", "refused");
	std::vector<ld> ru, rv;
	refMesh(q, ru, rv);
	ctx.check(u.size() == ru.size() && v.size() == rv.size(), "mesh-size", strf("%zu %zu", u.size(), v.size()));
	for (size_t i = 0; i < u.size(); i++) ctx.near(u[i], ru[i], 1e-12L, "mesh-parameter", strf("u[%zu]", i).c_str());
	for (size_t i = 0; i < v.size(); i++) ctx.near(v[i], rv[i], 1e-12L, "mesh-parameter", strf("v[%zu]", i).c_str());
}
SCENARIO(global_interpolation, 5)
{
	Rng& g = ctx.rng;
	double sc;
	int p = g.irange(1, 5), r = g.irange(1, 5), n = g.irange(p + 1, p + 5), m = g.irange(r + 1, r + 5);
	ctx.bucket("degrees", strf("%d,%d", p, r));
	Grid q = genGrid(ctx, n, m, sc), q0 = q;
	LN_NurbsSurface s = g.chance(0.5) ? dirtySurface() : LN_NurbsSurface();
	NurbsSurface::GlobalInterpolation(q, p, r, s);
	validSurface(ctx, s, "interpolant-valid");
	ctx.check(s.DegreeU == p && s.DegreeV == r && (int)s.ControlPoints.size() == n && (int)s.ControlPoints[0].size() == m, "interpolant-shape", strf("degrees %d %d, net %zux%zu", s.DegreeU, s.DegreeV, s.ControlPoints.size(), s.ControlPoints[0].size()));
	std::vector<ld> u, v;
	refMesh(q, u, v);
	ld tol = 1e-9L * (1e-3L + sc) + 1e-12L * maxAbs(s);
	for (int i = 0; i < n; i++) for (int j = 0; j < m; j++)
		nearPt(ctx, refPoint(s, u[i], v[j]), V3(q[i][j]), tol, "interpolates", strf("point [%d][%d] at (%.12Lg,%.12Lg)", i, j, u[i], v[j]));
}
SCENARIO(global_refused, 1)
{
	Rng& g = ctx.rng;
	double sc;
	int p = g.irange(1, 5), r = g.irange(1, 5), n = g.irange(p + 1, p + 3), m = g.irange(r + 1, r + 3);
	if (g.chance(0.5)) n = g.irange(1, p); else m = g.irange(1, r);
	Grid q = genGrid(ctx, n, m, sc);
	LN_NurbsSurface s;
	bool thrown = false;
	try { NurbsSurface::GlobalInterpolation(q, p, r, s); } catch (const std::invalid_argument&) { thrown = true; }
	ctx.check(thrown, "too-few-refused", strf("%dx%d points accepted for degrees %d %d", n, m, p, r));
}
SCENARIO(bicubic, 5)
{
	Rng& g = ctx.rng;
	double sc;
	int n = g.irange(2, 8), m = g.irange(2, 8);
	Grid q = genGrid(ctx, n, m, sc);
	LN_NurbsSurface s = g.chance(0.5) ? dirtySurface() : LN_NurbsSurface();
	bool ok = NurbsSurface::BicubicLocalInterpolation(q, s);
	ctx.check(ok, "bicubic-created", "refused");
	validSurface(ctx, s, "bicubic-valid");
	ctx.check(s.DegreeU == 3 && s.DegreeV == 3, "bicubic-degree", strf("%d %d", s.DegreeU, s.DegreeV));
	auto gu = groups(s.KnotVectorU), gv = groups(s.KnotVectorV);
	ctx.check((int)gu.size() == n && (int)gv.size() == m, "bicubic-knots", strf("%zu x %zu distinct knots for %dx%d points", gu.size(), gv.size(), n, m));
	for (int i = 1; i + 1 < n; i++) ctx.check(gu[i].second <= 2, "bicubic-c1", strf("u knot of multiplicity %d", gu[i].second));
	for (int j = 1; j + 1 < m; j++) ctx.check(gv[j].second <= 2, "bicubic-c1", strf("v knot of multiplicity %d", gv[j].second));
	for (int i = 0; i < n; i++) for (int j = 0; j < m; j++)
		nearPt(ctx, refPoint(s, gu[i].first, gv[j].first), V3(q[i][j]), 1e-9L * (1e-3L + sc), "bicubic-interpolates", strf("point [%d][%d] at (%.12g,%.12g)", i, j, gu[i].first, gv[j].first));
	// local: a neighbourhood further than the stencil of tangents and cross derivatives is not affected by a moved point.
	// The parameters are averages over the whole grid, so the equivariance below is what can be asked of every input.
	{
		double k = g.logu(0.1, 10);
		XYZ d = genPoint(g, sc);
		Grid q2 = q;
		for (auto& r : q2) for (auto& x : r) x = x * k + d;
		LN_NurbsSurface t;
		NurbsSurface::BicubicLocalInterpolation(q2, t);
		for (int c = 0; c < 6; c++)
		{
			double u = g.uni(), v = g.uni();
			nearPt(ctx, refPoint(t, u, v), refPoint(s, u, v) * k + V3(d), 1e-7L * (1e-3L + sc * (1 + k)), "bicubic-similarity", strf("scaled by %.6g, at (%.9g,%.9g)", k, u, v));
		}
		Grid q3(m, std::vector<XYZ>(n));
		for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) q3[j][i] = q[i][j];
		NurbsSurface::BicubicLocalInterpolation(q3, t);
		for (int c = 0; c < 6; c++)
		{
			double u = g.uni(), v = g.uni();
			nearPt(ctx, refPoint(t, v, u), refPoint(s, u, v), 1e-7L * (1e-3L + sc), "bicubic-transposed", strf("transposed grid, at (%.9g,%.9g)", u, v));
		}
	}
}
SCENARIO(linear_precision, 3)
{
	// an affine grid with separable spacing: every scheme must return the affine plane itself
	Rng& g = ctx.rng;
	int p = g.irange(1, 4), r = g.irange(1, 4), n = g.irange(p + 2, p + 6), m = g.irange(r + 2, r + 6);
	double sc = genScale(g);
	XYZ o = genPoint(g, sc), a, b;
	do { a = genPoint(g, sc); b = genPoint(g, sc); } while (a.CrossProduct(b).Length() < 0.1 * sc * sc);
	std::vector<double> su(n, 0), sv(m, 0);
	for (int i = 1; i < n; i++) su[i] = su[i - 1] + g.uni(0.5, 1.5);
	for (int j = 1; j < m; j++) sv[j] = sv[j - 1] + g.uni(0.5, 1.5);
	Grid q(n, std::vector<XYZ>(m));
	for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) q[i][j] = o + a * (su[i] / su[n - 1]) + b * (sv[j] / sv[m - 1]);
	for (auto& x : q) ctx.dump("points", x);
	int mode = g.irange(0, 2);
	ctx.bucket("scheme", mode);
	ctx.bucket("degrees", strf("%d,%d", p, r));
	LN_NurbsSurface s;
	if (mode == 0) NurbsSurface::GlobalInterpolation(q, p, r, s);
	else if (mode == 1) NurbsSurface::BicubicLocalInterpolation(q, s);
	else
	{
		int cn = g.irange(p + 1, n - 1), cm = g.irange(r + 1, m - 1);
		bool ok = NurbsSurface::GlobalApproximation(q, p, r, cn, cm, s);
		ctx.check(ok, "approximation-succeeds", strf("%dx%d net for %dx%d points refused", cn, cm, n, m));
	}
	validSurface(ctx, s, "plane-valid");
	for (int c = 0; c < 12; c++)
	{
		ld u = g.uni(), v = g.uni();
		nearPt(ctx, refPoint(s, u, v), V3(o) + V3(a) * u + V3(b) * v, 1e-8L * (1 + 4 * sc), "linear-precision", strf("(%.9Lg,%.9Lg) of scheme %d", u, v, mode));
	}
}
// end-interpolating least squares in one direction, by dense normal equations with pivoting
static std::vector<V3> fit1(int p, const Knots& U, int n, const std::vector<ld>& t, const std::vector<V3>& d)
{
	int m = (int)t.size(), f = n - 2;
	std::vector<std::vector<ld>> B(m, std::vector<ld>(n, 0));
	for (int k = 0; k < m; k++) { BasisRow b = refRow(p, U, t[k], refSpan(p, U, t[k]), 0); for (int i = 0; i <= p; i++) B[k][b.first + i] = b.v[i]; }
	std::vector<V3> P(n);
	P[0] = d[0]; P[n - 1] = d[m - 1];
	if (f <= 0) return P;
	std::vector<std::vector<ld>> A(f, std::vector<ld>(f, 0));
	std::vector<V3> R(f);
	for (int k = 1; k + 1 < m; k++)
	{
		V3 res = d[k] - P[0] * B[k][0] - P[n - 1] * B[k][n - 1];
		for (int i = 0; i < f; i++) { R[i] += res * B[k][i + 1]; for (int j = 0; j < f; j++) A[i][j] += B[k][i + 1] * B[k][j + 1]; }
	}
	for (int i = 0; i < f; i++)
	{
		int pv = i;
		for (int r = i + 1; r < f; r++) if (fabsl(A[r][i]) > fabsl(A[pv][i])) pv = r;
		std::swap(A[i], A[pv]); std::swap(R[i], R[pv]);
		if (fabsl(A[i][i]) < 1e-9L) throw std::domain_error("ill-conditioned");
		for (int r = i + 1; r < f; r++) { ld k = A[r][i] / A[i][i]; for (int c = i; c < f; c++) A[r][c] -= k * A[i][c]; R[r] = R[r] - R[i] * k; }
	}
	for (int i = f - 1; i >= 0; i--) { V3 x = R[i]; for (int c = i + 1; c < f; c++) x = x - P[c + 1] * A[i][c]; P[i + 1] = x / A[i][i]; }
	return P;
}
SCENARIO(approximation, 5)
{
	Rng& g = ctx.rng;
	double sc;
	int p = g.irange(1, 4), r = g.irange(1, 4), n = g.irange(p + 3, p + 9), m = g.irange(r + 3, r + 9);
	int cn = g.irange(p + 1, n - 1), cm = g.irange(r + 1, m - 1);
	ctx.bucket("degrees", strf("%d,%d", p, r));
	ctx.bucket("net", strf("%d,%d", cn, cm));
	Grid q = genGrid(ctx, n, m, sc);
	LN_NurbsSurface s = g.chance(0.5) ? dirtySurface() : LN_NurbsSurface();
	bool ok = NurbsSurface::GlobalApproximation(q, p, r, cn, cm, s);
	ctx.check(ok, "approximation-succeeds", strf("%dx%d net for %dx%d points refused", cn, cm, n, m));
	validSurface(ctx, s, "approximant-valid");
	ctx.check(s.DegreeU == p && s.DegreeV == r && (int)s.ControlPoints.size() == cn && (int)s.ControlPoints[0].size() == cm, "approximant-shape", strf("degrees %d %d, net %zux%zu", s.DegreeU, s.DegreeV, s.ControlPoints.size(), s.ControlPoints[0].size()));
	ld tol = 1e-7L * (1e-3L + sc);
	nearPt(ctx, refPoint(s, 0, 0), V3(q[0][0]), tol, "approximant-corners", "00");
	nearPt(ctx, refPoint(s, 1, 0), V3(q[n - 1][0]), tol, "approximant-corners", "10");
	nearPt(ctx, refPoint(s, 0, 1), V3(q[0][m - 1]), tol, "approximant-corners", "01");
	nearPt(ctx, refPoint(s, 1, 1), V3(q[n - 1][m - 1]), tol, "approximant-corners", "11");
	std::vector<ld> u, v;
	refMesh(q, u, v);
	std::vector<std::vector<V3>> T(cm, std::vector<V3>(n));
	try
	{
		for (int i = 0; i < n; i++)
		{
			std::vector<V3> d;
			for (int j = 0; j < m; j++) d.push_back(V3(q[i][j]));
			auto P = fit1(r, s.KnotVectorV, cm, v, d);
			for (int j = 0; j < cm; j++) T[j][i] = P[j];
		}
		ld big = maxAbs(s);
		for (int j = 0; j < cm; j++)
		{
			auto P = fit1(p, s.KnotVectorU, cn, u, T[j]);
			for (int i = 0; i < cn; i++) nearPt(ctx, V4(s.ControlPoints[i][j]).proj(), P[i], 1e-6L * (1e-3L + sc + big), "least-squares-net", strf("control point [%d][%d]", i, j));
		}
	}
	catch (const std::domain_error&) { ctx.bucket("ill-conditioned", 1); }
}
#include "main.inc"
