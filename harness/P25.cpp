// P25: scalar helpers, linear algebra, quadrature and cosine transforms
#include "common.h"
#include "FFT.h"
#include <csetjmp>
using namespace H;
typedef std::vector<std::vector<double>> Mat;
static Mat genMat(Rng& g, int r, int c, double s = 3) { Mat m(r, std::vector<double>(c)); for (auto& x : m) for (auto& y : x) y = g.uni(-s, s); return m; }
static void dumpMat(Ctx& ctx, const char* n, const Mat& m) { std::string s = strf("%s %zux%zu", n, m.size(), m.empty() ? 0 : m[0].size()); for (auto& r : m) for (double x : r) s += strf(" %.17g", x); ctx.note(s); }
static void nearMat(Ctx& ctx, const Mat& got, const std::vector<std::vector<ld>>& want, ld tol, const char* mon)
{
	ctx.check(got.size() == want.size() && (got.empty() || got[0].size() == want[0].size()), mon, strf("size %zux%zu", got.size(), got.empty() ? 0 : got[0].size()));
	for (size_t i = 0; i < want.size(); i++) for (size_t j = 0; j < want[0].size(); j++) ctx.near(got[i][j], want[i][j], tol, mon, strf("element %zu,%zu", i, j).c_str());
}
static std::vector<std::vector<ld>> mulL(const Mat& a, const Mat& b)
{
	std::vector<std::vector<ld>> r(a.size(), std::vector<ld>(b[0].size(), 0));
	for (size_t i = 0; i < a.size(); i++) for (size_t j = 0; j < b[0].size(); j++) for (size_t k = 0; k < b.size(); k++) r[i][j] += (ld)a[i][k] * b[k][j];
	return r;
}
SCENARIO(scalars, 2)
{
	Rng& g = ctx.rng;
	double m = g.sgn() * g.logu(1e-6, 1e6), tol = g.chance(0.5) ? Constants::DoubleEpsilon : g.logu(1e-12, 1e-2), e = tol * (1 + fabs(m));
	int k = g.irange(0, 3);
	double d = k == 0 ? 0 : k == 1 ? g.sgn() * e * g.uni(0, 0.99) : k == 2 ? g.sgn() * e * g.uni(1.03, 3) : g.sgn() * g.logu(1e-6, 1e6);
	double a = m, b = m + d;
	ctx.bucket("gap", k);
	ctx.note(strf("a %.17g b %.17g tolerance %.17g", a, b, tol));
	ld gap = fabsl((ld)a - b), lim = tol * (1 + std::max(fabsl(a), fabsl(b)));
	if (fabsl(gap - lim) > 1e-3L * lim + 1e-15L * (1 + fabsl(a)))
	{
		bool eq = gap <= lim;
		ctx.check(MathUtils::IsAlmostEqualTo(a, b, tol) == eq && MathUtils::IsAlmostEqualTo(b, a, tol) == eq, "comparison", "IsAlmostEqualTo");
		ctx.check(MathUtils::IsGreaterThan(a, b, tol) == (!eq && a > b), "comparison", "IsGreaterThan"); ctx.check(MathUtils::IsLessThan(a, b, tol) == (!eq && a < b), "comparison", "IsLessThan");
		ctx.check(MathUtils::IsGreaterThanOrEqual(a, b, tol) == (eq || a > b), "comparison", "IsGreaterThanOrEqual"); ctx.check(MathUtils::IsLessThanOrEqual(a, b, tol) == (eq || a < b), "comparison", "IsLessThanOrEqual");
	}
	double nan = std::nan(""), inf = INFINITY;
	ctx.check(!MathUtils::IsAlmostEqualTo(a, nan) && !MathUtils::IsAlmostEqualTo(nan, nan) && !MathUtils::IsGreaterThan(nan, a) && !MathUtils::IsLessThan(nan, a) && !MathUtils::IsGreaterThanOrEqual(nan, a) && !MathUtils::IsLessThanOrEqual(a, nan), "comparison-special", "NaN compares");
	ctx.check(MathUtils::IsAlmostEqualTo(inf, inf) && !MathUtils::IsAlmostEqualTo(inf, a) && !MathUtils::IsAlmostEqualTo(inf, -inf) && MathUtils::IsInfinite(-inf) && !MathUtils::IsInfinite(a) && MathUtils::IsNaN(nan) && !MathUtils::IsNaN(inf), "comparison-special", "infinity");
	double ang = g.uni(-720, 720);
	ctx.near(MathUtils::AngleToRadians(ang), ang * acosl(-1.0L) / 180, 1e-13L * (1 + fabs(ang)), "angles", "AngleToRadians"); ctx.near(MathUtils::RadiansToAngle(ang), ang * 180 / acosl(-1.0L), 1e-12L * (1 + fabs(ang)), "angles", "RadiansToAngle");
	int n = g.irange(0, 45), i = g.irange(-2, n + 2);
	ld w = i < 0 || i > n ? 0 : binom(n, i);
	ctx.near(MathUtils::Binomial(n, i), w, 1e-12L * w, "binomial", strf("C(%d,%d)", n, i).c_str());
	int f = g.irange(0, 20);
	long long fw = 1;
	for (int q = 2; q <= f; q++) fw *= q;
	ctx.check(MathUtils::Factorial(f) == fw, "factorial", strf("%d!", f));
	bool threw = false;
	try { MathUtils::Factorial(21 + g.irange(0, 5)); } catch (std::exception&) { threw = true; }
	ctx.check(threw, "factorial", "overflow not refused");
}
SCENARIO(cubic, 2)
{
	Rng& g = ctx.rng;
	double c[4];
	int k = g.irange(0, 4);
	ctx.bucket("cubic", k);
	if (k == 0) for (double& x : c) x = g.uni(-5, 5);
	else if (k == 1) for (double& x : c) x = g.irange(-4, 4);
	else
	{
		// from its roots, some equal or close; or one real root
		double a = g.sgn() * g.logu(0.1, 10), r = g.uni(-5, 5), s = k == 2 ? g.uni(-5, 5) : k == 3 ? r : r + g.logu(1e-3, 1), t = g.uni(-5, 5);
		c[0] = a; c[1] = -a * (r + s + t); c[2] = a * (r * s + r * t + s * t); c[3] = -a * r * s * t;
	}
	if (fabs(c[0]) < 0.05) c[0] = g.sgn();
	ctx.note(strf("%.17g %.17g %.17g %.17g", c[0], c[1], c[2], c[3]));
	double x = MathUtils::ComputerCubicEquationsWithOneVariable(c[0], c[1], c[2], c[3]);
	ctx.check(std::isfinite(x), "cubic-root", strf("%g", x));
	ld X = x, f = ((c[0] * X + c[1]) * X + c[2]) * X + c[3], slope = fabsl(3 * c[0] * X * X) + fabsl(2 * c[1] * X) + fabsl(c[2]);
	ctx.near(f, 0, 1e-5L * (slope + fabsl(c[0]) + fabsl(c[1])), "cubic-root", "value at the returned root");
}
SCENARIO(products, 2)
{
	Rng& g = ctx.rng;
	int m = g.irange(1, 7), n = g.irange(1, 7), p = g.irange(1, 7);
	Mat a = genMat(g, m, n), b = genMat(g, n, p);
	ctx.bucket("rows", m); ctx.bucket("columns", n); ctx.bucket("columns2", p);
	dumpMat(ctx, "a", a); dumpMat(ctx, "b", b);
	nearMat(ctx, MathUtils::MatrixMultiply(a, b), mulL(a, b), 1e-12L, "product");
	Mat t;
	if (g.chance(0.4)) t = genMat(g, g.irange(1, 4), g.irange(1, 4));   // what the output held before does not matter
	MathUtils::Transpose(a, t);
	ctx.check((int)t.size() == n && (int)t[0].size() == m, "transpose", strf("size %zux%zu of the transpose of %dx%d", t.size(), t[0].size(), m, n));
	for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) ctx.check(t[j][i] == a[i][j], "transpose", "element");
	Mat s = a;
	MathUtils::Transpose(s, s);
	ctx.check(s == t, "transpose", "in place");
	int c = g.irange(0, n - 1);
	auto col = MathUtils::GetColumn(a, c);
	for (int i = 0; i < m; i++) ctx.check((int)col.size() == m && col[i] == a[i][c], "column", "element");
	Mat D = MathUtils::MakeDiagonal(m), Z = MathUtils::CreateMatrix(m, n);
	ctx.check((int)D.size() == m && (int)Z.size() == m, "constructors", "size");
	for (int i = 0; i < m; i++) { ctx.check((int)D[i].size() == m && (int)Z[i].size() == n, "constructors", "size"); for (int j = 0; j < m; j++) ctx.check(D[i][j] == (i == j), "constructors", "MakeDiagonal"); for (int j = 0; j < n; j++) ctx.check(Z[i][j] == 0, "constructors", "CreateMatrix"); }
}
SCENARIO(solving, 3)
{
	// well conditioned by diagonal dominance
	Rng& g = ctx.rng;
	int n = g.irange(1, 12), c = g.irange(1, 4);
	Mat a = genMat(g, n, n, 1), x = genMat(g, n, c, 10), b(n, std::vector<double>(c));
	for (int i = 0; i < n; i++) a[i][i] += g.sgn() * (n + 1);
	// the scale of the equations is no measure of their condition
	ld sc = g.chance(0.4) ? g.logu(1e-9, 1e6) : 1.0;
	for (auto& r : a) for (auto& v : r) v *= (double)sc;
	ctx.bucket("scale", (int)floorl(log10l(sc)));
	int perm = g.irange(0, n - 1);
	ctx.bucket("unknowns", n); ctx.bucket("permuted", perm);
	std::rotate(a.begin(), a.begin() + perm, a.end());
	auto bl = mulL(a, x);
	for (int i = 0; i < n; i++) for (int j = 0; j < c; j++) b[i][j] = (double)bl[i][j];
	dumpMat(ctx, "a", a);
	Mat a0 = a, y = MathUtils::SolveLinearSystem(a, b);
	std::vector<std::vector<ld>> xl(n, std::vector<ld>(c));
	for (int i = 0; i < n; i++) for (int j = 0; j < c; j++) xl[i][j] = x[i][j];
	nearMat(ctx, y, xl, 1e-11L * n, "solve");
	Mat inv;
	if (g.chance(0.3)) inv = genMat(g, 2, 3);
	ctx.check(MathUtils::MakeInverse(a, inv), "inverse", "refused");
	auto I = mulL(a, inv);
	ctx.check((int)inv.size() == n && (int)inv[0].size() == n, "inverse", "size");
	for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) ctx.near(I[i][j], i == j, 1e-12L * n, "inverse", "product with the inverse");
	ctx.check(a == a0, "input-untouched", "matrix");
	if (n <= 7)
	{
		// Leibniz by cofactors in extended precision
		std::function<ld(std::vector<int>, int)> det = [&](std::vector<int> cols, int r) { ld s = 0; if (cols.empty()) return (ld)1; for (size_t k = 0; k < cols.size(); k++) { auto cc = cols; cc.erase(cc.begin() + k); s += ((k & 1) ? -1 : 1) * a[r][cols[k]] * det(cc, r + 1); } return s; };
		std::vector<int> all(n);
		for (int i = 0; i < n; i++) all[i] = i;
		ld d = det(all, 0);
		ctx.near(MathUtils::GetDeterminant(a), d, 1e-11L * fabsl(d), "determinant", "");
	}
	if (n > 1) { Mat q = genMat(g, n, n - 1), dummy; ctx.check(!MathUtils::MakeInverse(q, dummy), "inverse", "a non-square matrix was inverted"); }
	if (n > 1) { Mat q = a, dummy; q[g.irange(0, n - 1)] = std::vector<double>(n, 0.0); ctx.check(!MathUtils::MakeInverse(q, dummy), "inverse", "a singular matrix was inverted"); }
	// overdetermined: least squares, residual orthogonal to the columns
	int m = n + g.irange(1, 6);
	Mat A = genMat(g, m, n), B = genMat(g, m, c);
	for (int i = 0; i < n; i++) A[i][i] += 3 * (n + 1);
	Mat X = MathUtils::SolveLinearSystem(A, B);
	ctx.check((int)X.size() == n && (int)X[0].size() == c, "least-squares", "size");
	auto AX = mulL(A, X);
	for (int j = 0; j < n; j++) for (int k = 0; k < c; k++) { ld s = 0; for (int i = 0; i < m; i++) s += A[i][j] * (AX[i][k] - B[i][k]); ctx.near(s, 0, 1e-10L * m * (n + 1), "least-squares", "residual"); }
}
SCENARIO(banded, 2)
{
	Rng& g = ctx.rng;
	int n = g.irange(1, 14), h = g.irange(0, 4), bw = 2 * h + 1, c = g.irange(1, 4);
	Mat band(n, std::vector<double>(bw, 0.0)), full(n, std::vector<double>(n, 0.0)), x = genMat(g, n, c, 10), b(n, std::vector<double>(c));
	double sc = g.chance(0.4) ? g.logu(1e-9, 1e6) : 1.0;   // the scale of the equations is no measure of their condition
	for (int i = 0; i < n; i++) for (int k = 0; k < bw; k++)
	{
		int j = i - h + k;
		band[i][k] = g.chance(0.2) ? 0 : g.uni(-1, 1);
		if (j == i) band[i][k] += g.sgn() * (bw + 1);
		band[i][k] *= sc;
		if (j >= 0 && j < n) full[i][j] = band[i][k];
	}
	ctx.bucket("half-bandwidth", h);
	ctx.bucket("unknowns", n);
	dumpMat(ctx, "band", band);
	auto bl = mulL(full, x);
	std::vector<std::vector<ld>> xl(n, std::vector<ld>(c));
	for (int i = 0; i < n; i++) for (int j = 0; j < c; j++) { b[i][j] = (double)bl[i][j]; xl[i][j] = x[i][j]; }
	Mat y;
	int pre = g.irange(0, 2);
	if (pre == 0) y.assign(n, std::vector<double>(c));
	if (pre == 1) y = genMat(g, n, c);
	ctx.check(MathUtils::SolveLinearSystemBanded(n, band, bw, b, y), "banded-solve", "refused");
	nearMat(ctx, y, xl, 1e-11L * n, "banded-solve");
	int r = g.irange(0, n - 1);
	for (auto& q : band[r]) q = 0;
	Mat z(n, std::vector<double>(c));
	ctx.check(!MathUtils::SolveLinearSystemBanded(n, band, bw, b, z), "banded-refuses-singular", "a system with a zero row was solved");
}
struct Fn : IntegrationFunction
{
	std::function<ld(ld)> f;
	double a, b;
	bool outside = false;
	long calls = 0;
	double operator()(double t, void*) override { calls++; double e = 1e-9 * (fabs(a) + fabs(b)); if (t < std::min(a, b) - e || t > std::max(a, b) + e) outside = true; return (double)f(t); }
};
struct Fn2 : BinaryIntegrationFunction { std::function<ld(ld, ld)> f; double operator()(double u, double v, void*) const override { return (double)f(u, v); } };
SCENARIO(quadrature, 3)
{
	Rng& g = ctx.rng;
	double a = g.uni(-5, 5), b = a + g.sgn() * g.logu(1e-2, 10);
	Fn fn;
	fn.a = a; fn.b = b;
	ctx.note(strf("from %.17g to %.17g", a, b));
	auto poly = [&](int d) { std::vector<ld> c(d + 1); for (auto& x : c) x = g.uni(-1, 1); return c; };
	ld mid = ((ld)a + b) / 2, half = ((ld)b - a) / 2;
	auto ev = [&](const std::vector<ld>& c, ld t) { ld s = 0; for (size_t i = c.size(); i-- > 0;) s = s * t + c[i]; return s; };       // in local coordinates -1..1
	auto in = [&](const std::vector<ld>& c) { ld s = 0; for (size_t i = 0; i < c.size(); i += 2) s += 2 * c[i] / (i + 1); return s * half; };
	{
		auto c = poly(g.irange(0, 3));
		fn.f = [&](ld t) { return ev(c, (t - mid) / half); };
		ctx.near(Integrator::Simpson(fn, nullptr, a, b), in(c), 1e-13L * (1 + fabsl(half)) * 10, "simpson", "cubic polynomial");
		auto d = poly(g.irange(0, 3));
		double u = g.uni(-3, 3), v = u + g.sgn() * g.logu(1e-2, 5);
		ld m2 = ((ld)u + v) / 2, h2 = ((ld)v - u) / 2;
		Fn2 f2;
		f2.f = [&](ld x, ld y) { return ev(c, (x - mid) / half) * ev(d, (y - m2) / h2) + ev(c, (y - m2) / h2) * ev(d, (x - mid) / half); };
		auto ind = [&](const std::vector<ld>& q) { ld s = 0; for (size_t i = 0; i < q.size(); i += 2) s += 2 * q[i] / (i + 1); return s; };
		ctx.near(Integrator::Simpson(f2, nullptr, a, b, u, v), 2 * ind(c) * ind(d) * half * h2, 1e-12L * (1 + fabsl(half * h2)) * 10, "simpson", "bicubic polynomial");
	}
	{
		const auto& x = Integrator::GaussLegendreAbscissae;
		const auto& w = Integrator::GaussLegendreWeights;
		int d = g.irange(0, 47);
		auto c = poly(d);
		ld s = 0;
		for (size_t i = 0; i < x.size(); i++) s += (ld)w[i] * ev(c, x[i]);
		ctx.check(x.size() == 24 && w.size() == 24, "gauss-legendre", "order");
		ctx.near(s * half, in(c), 1e-12L * (1 + fabsl(half)), "gauss-legendre", strf("degree %d", d).c_str());
	}
	int size = g.chance(0.5) ? 100 : g.irange(30, 600);
	ctx.bucket("series", size / 50);
	auto series = Integrator::ChebyshevSeries(size);
	ctx.check((int)series.size() == size, "clenshaw-curtis", "size of the series");
	auto keep = series;
	int kind = g.irange(0, 3);
	ld want = 0, mag = 0;
	ctx.bucket("integrand", kind);
	std::vector<ld> c = poly(g.irange(0, 8));
	ld fr = g.uni(0.2, 3), ph = g.uni(0, 6), k = g.uni(-2, 2);
	if (kind == 0) { fn.f = [&](ld t) { return ev(c, (t - mid) / half); }; want = in(c); for (auto q : c) mag += fabsl(q); }
	if (kind == 1) { fn.f = [&](ld t) { return cosl(fr * (t - mid) / half + ph); }; want = half * (sinl(fr + ph) - sinl(ph - fr)) / fr; mag = 1; }
	if (kind == 2) { fn.f = [&](ld t) { return expl(k * (t - mid) / half); }; want = fabsl(k) < 1e-6L ? 2 * half : half * (expl(k) - expl(-k)) / k; mag = expl(fabsl(k)); }
	if (kind == 3) { fn.f = [&](ld t) { return 1 / (1 + fr * fr * (t - mid) * (t - mid) / (half * half)); }; want = half * 2 * atanl(fr) / fr; mag = 1; }
	double eps = g.chance(0.6) ? Constants::DistanceEpsilon : g.logu(1e-8, 1e-4);
	double r1 = Integrator::ClenshawCurtisQuadrature2(fn, nullptr, a, b, series, eps);
	ctx.check(series == keep, "clenshaw-curtis", "the series passed by value changed");
	ctx.near(r1, want, (kind == 3 && size < 100 ? 1e-2L : 3 * eps) * mag * fabsl(half), "clenshaw-curtis", "smooth integrand");
	double r2 = Integrator::ClenshawCurtisQuadrature(fn, nullptr, a, b, series, eps);
	ctx.near(r2, r1, 1e-14L * mag * fabsl(half), "clenshaw-curtis", "the two variants differ");
	double r3 = Integrator::ClenshawCurtisQuadrature(fn, nullptr, a, b, series, eps);
	ctx.near(r3, r1, 1e-14L * mag * fabsl(half), "clenshaw-curtis", "a second use of the same series differs");
	ctx.check(!fn.outside, "clenshaw-curtis", "the integrand was evaluated outside the interval");
}
SCENARIO(transforms, 1)
{
	Rng& g = ctx.rng;
	int n = 1 << g.irange(1, 7);
	ctx.bucket("length", n);
	std::vector<double> x(n + 1);
	for (auto& q : x) q = g.uni(-1, 1);
	const ld PI = acosl(-1.0L);
	ld tol = 1e-13L * n * 4;
	{
		auto a = x;
		dfct(n, cos(M_PI / n), sin(M_PI / n), a);
		for (int k = 0; k <= n; k++) { ld s = 0; for (int j = 0; j <= n; j++) s += x[j] * cosl(PI * j * k / n); ctx.near(a[k], s, tol, "dfct", strf("term %d", k).c_str()); }
	}
	{
		auto a = x;
		ddct(n, cos(M_PI / n / 2), sin(M_PI / n / 2), a);
		for (int k = 0; k < n; k++) { ld s = 0; for (int j = 0; j < n; j++) s += x[j] * cosl(PI * j * (k + 0.5L) / n); ctx.near(a[k], s, tol, "ddct", strf("term %d", k).c_str()); }
		a = x;
		ddct(n, cos(M_PI / n / 2), -sin(M_PI / n / 2), a);
		for (int k = 0; k < n; k++) { ld s = 0; for (int j = 0; j < n; j++) s += x[j] * cosl(PI * (j + 0.5L) * k / n); ctx.near(a[k], s, tol, "ddct", strf("inverse term %d", k).c_str()); }
	}
	{
		auto a = x;
		rdft(n, cos(M_PI / n), sin(M_PI / n), a);
		for (int k = 0; k <= n / 2; k++)
		{
			ld re = 0, im = 0;
			for (int j = 0; j < n; j++) { re += x[j] * cosl(2 * PI * j * k / n); im += x[j] * sinl(2 * PI * j * k / n); }
			ctx.near(k == n / 2 ? a[1] : a[2 * k], re, tol, "rdft", strf("real term %d", k).c_str());
			if (k > 0 && k < n / 2) ctx.near(a[2 * k + 1], im, tol, "rdft", strf("imaginary term %d", k).c_str());
		}
	}
}
SCENARIO(axes, 1)
{
	Rng& g = ctx.rng;
	int n = g.irange(1, 12), k = g.irange(0, 2);
	std::vector<std::array<double, 3>> p(n);
	V3 c(0, 0, 0), d(genPoint(g, 1)), e(genPoint(g, 1));
	for (auto& q : p) { V3 z = k == 0 ? V3(genPoint(g, 10)) : k == 1 ? d * g.uni(-5, 5) : d * g.uni(-5, 5) + e * g.uni(-2, 2); q = { (double)z.x, (double)z.y, (double)z.z }; c = c + z / n; }
	ctx.bucket("cloud", k);
	std::array<double, 3> ax[3];
	MathUtils::ComputeOBBAxes(p, { (double)c.x, (double)c.y, (double)c.z }, ax);
	V3 A[3];
	for (int i = 0; i < 3; i++) A[i] = V3(ax[i][0], ax[i][1], ax[i][2]);
	for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) ctx.near(A[i].dot(A[j]), i == j, 1e-12L, "principal-axes", "orthonormal");
	// principal: no correlation between different axes
	ld big = 0;
	for (auto& q : p) big = std::max(big, (V3(q[0], q[1], q[2]) - c).dot(V3(q[0], q[1], q[2]) - c));
	for (int i = 0; i < 3; i++) for (int j = 0; j < i; j++) { ld s = 0; for (auto& q : p) s += A[i].dot(V3(q[0], q[1], q[2]) - c) * A[j].dot(V3(q[0], q[1], q[2]) - c); ctx.near(s, 0, 1e-11L * n * (big + 1e-9L), "principal-axes", "correlated"); }
}
#include "main.inc"
