// P18: surface area by every quadrature rule
#include "surf.hpp"
using namespace H;
static const IntegratorType TYPES[3] = { IntegratorType::GaussLegendre, IntegratorType::Simpson, IntegratorType::Chebyshev };
static const char* TN[3] = { "gauss", "simpson", "chebyshev" };

static ld jac(const LN_NurbsSurface& s, ld u, ld v, int su, int sv) { auto d = refDers(s, u, v, 1, su, sv); return d[1][0].cross(d[0][1]).len(); }
// composite 8 point Gauss rule with k cells per span and direction
static ld refArea(const LN_NurbsSurface& s, int k, ld* worst = nullptr)
{
	ld sum = 0, mn = 1e300L, tot = 0;
	for (int i = s.DegreeU; i < (int)s.KnotVectorU.size() - s.DegreeU - 1; i++)
	{
		if (!(s.KnotVectorU[i] < s.KnotVectorU[i + 1])) continue;
		for (int j = s.DegreeV; j < (int)s.KnotVectorV.size() - s.DegreeV - 1; j++)
		{
			if (!(s.KnotVectorV[j] < s.KnotVectorV[j + 1])) continue;
			ld a = s.KnotVectorU[i], b = s.KnotVectorU[i + 1], c = s.KnotVectorV[j], d = s.KnotVectorV[j + 1];
			for (int x = 0; x < k; x++) for (int y = 0; y < k; y++)
				sum += gl8([&](ld u) { return gl8([&](ld v) { ld z = jac(s, u, v, i, j); mn = std::min(mn, z * (b - a) * (d - c)); tot += z; return z; }, c + (d - c) * y / k, c + (d - c) * (y + 1) / k); }, a + (b - a) * x / k, a + (b - a) * (x + 1) / k);
		}
	}
	if (worst) *worst = mn;
	return sum;
}
struct Ref { ld area, diff; };
static Ref reference(const LN_NurbsSurface& s)
{
	Ref r;
	ld mn = 0, a1 = refArea(s, 1), a2 = refArea(s, 2), a3 = refArea(s, 4, &mn);
	r.area = a3;
	r.diff = (fabsl(a3 - a2) + fabsl(a2 - a1)) / (a3 + 1e-300L);
	ld cells = (ld)(groups(s.KnotVectorU).size() - 1) * (groups(s.KnotVectorV).size() - 1);
	if (mn < 0.05L * r.area / cells) r.diff = std::max(r.diff, (ld)2e-3L);
	return r;
}
static ld areaTol(int ty, const Ref& r)
{
	ld A = r.area, d = r.diff;
	if (ty == 0) return 1e-8L * (1 + A) + A * (d < 1e-7L ? 1e-7L : 4 * d);
	if (ty == 2) return 1e-8L * (1 + A) + A * (d < 1e-7L ? 1e-3L : 2e-2L + 4 * d);
	return 1e-3L + A * (0.1L + 4 * d);
}
static LN_NurbsSurface areaSurface(Ctx& ctx, bool small = false)
{
	SurfOpt o;
	o.maxP = 4;
	o.maxInteriorU = ctx.rng.irange(0, 2);
	o.maxInteriorV = ctx.rng.irange(0, small ? 1 : 2);
	o.maxWeightMode = 1;
	o.minGap = 0.15;
	o.scale = small ? ctx.rng.logu(0.5, 4) : ctx.rng.chance(0.5) ? 10 : ctx.rng.logu(0.5, 200);
	if (ctx.rng.chance(0.7)) o.pointMode = 2;
	return genSurface(ctx, o);
}
SCENARIO(area, 4)
{
	int ty = ctx.rng.chance(0.5) ? 0 : ctx.rng.chance(0.5) ? 1 : 2;
	LN_NurbsSurface s = areaSurface(ctx, ty != 0), s0 = s;
	Ref r = reference(s);
	ctx.bucket("rule", TN[ty]);
	ctx.bucket("difficulty", r.diff < 1e-7L ? "smooth" : r.diff < 1e-3L ? "medium" : "hard");
	double got = NurbsSurface::ApproximateArea(s, TYPES[ty]);
	ctx.check(identicalS(s, s0), "input-untouched", "ApproximateArea modified its input");
	ctx.near(got, r.area, areaTol(ty, r), "area-value", TN[ty]);
}
SCENARIO(area_invariance, 2)
{
	LN_NurbsSurface s = areaSurface(ctx), r;
	Ref f = reference(s);
	ld tol = 2 * areaTol(0, f);
	double A = NurbsSurface::ApproximateArea(s);
	NurbsSurface::Swap(s, r);
	ctx.near(NurbsSurface::ApproximateArea(r), A, tol, "area-invariant", "swapped");
	NurbsSurface::Reverse(s, SurfaceDirection::All, r);
	ctx.near(NurbsSurface::ApproximateArea(r), A, tol, "area-invariant", "reversed");
	NurbsSurface::Reparametrize(s, -2, 5, 3, 4.5, r);
	ctx.near(NurbsSurface::ApproximateArea(r), A, tol, "area-invariant", "reparametrised");
	XYZ off = genPoint(ctx.rng, 20);
	double k = ctx.rng.logu(0.3, 3);
	r = s;
	for (auto& row : r.ControlPoints) for (auto& p : row) { XYZ q = p.ToXYZ(true); p = XYZW((q + off) * k, p.GetW()); }
	ctx.near(NurbsSurface::ApproximateArea(r), k * k * A, 2 * k * k * tol + 1e-8L * (1 + k * k * A), "area-scales", "moved and scaled");
}
// planar surfaces: the area of a planar region is known from its boundary
SCENARIO(area_planar, 2)
{
	Rng& g = ctx.rng;
	int ty = g.irange(0, 2);
	ctx.bucket("rule", TN[ty]);
	int p = g.irange(1, 3), q = g.irange(1, 3), nu = g.irange(0, 2), nv = g.irange(0, 2);
	LN_NurbsSurface s;
	s.DegreeU = p; s.DegreeV = q;
	KnotOpt ko;
	ko.maxInterior = nu; ko.minGap = 0.2;
	s.KnotVectorU = genKnots(g, p, ko);
	ko.maxInterior = nv;
	s.KnotVectorV = genKnots(g, q, ko);
	int n = s.KnotVectorU.size() - p - 1, m = s.KnotVectorV.size() - q - 1;
	XYZ e = genPoint(g, 1).Normalize(), f = perpTo(g, e), o = genPoint(g, 5);
	double a = g.logu(0.5, 5), b = g.logu(0.5, 5);
	// Greville abscissae: the map is affine, the surface a rectangle
	auto gr = [](const Knots& U, int p, int i) { double s = 0; for (int k = 1; k <= p; k++) s += U[i + k]; return s / p; };
	for (int i = 0; i < n; i++)
	{
		s.ControlPoints.push_back({});
		for (int j = 0; j < m; j++)
		{
			double x = (gr(s.KnotVectorU, p, i) - loU(s)) / (hiU(s) - loU(s)), y = (gr(s.KnotVectorV, q, j) - loV(s)) / (hiV(s) - loV(s));
			s.ControlPoints[i].push_back(XYZW(o + a * x * e + b * y * f, 1));
		}
	}
	ctx.cls("rectangle");
	ctx.dump("surface", s);
	ctx.near(NurbsSurface::ApproximateArea(s, TYPES[ty]), (ld)a * b, 1e-6L * (1 + (ld)a * b), "area-rectangle", TN[ty]);
}
// degenerate surfaces: no area, still an answer
SCENARIO(area_degenerate, 1)
{
	SurfOpt o;
	o.maxP = 3;
	o.maxInteriorU = 1;
	o.maxInteriorV = 1;
	o.maxWeightMode = 1;
	o.minGap = 0.2;
	o.scale = ctx.rng.logu(1, 10);
	LN_NurbsSurface s = genSurface(ctx, o);
	int kind = ctx.rng.irange(0, 2), ty = ctx.rng.irange(0, 2);
	XYZ a = genPoint(ctx.rng, 5), d = genPoint(ctx.rng, 1).Normalize();
	if (kind == 0) for (auto& r : s.ControlPoints) for (auto& p : r) p = XYZW(a + ctx.rng.uni(-o.scale, o.scale) * d, p.GetW());   // collapsed to a line
	if (kind == 1) for (auto& p : s.ControlPoints[0]) p = s.ControlPoints[0][0];                                              // one edge is a point
	if (kind == 2) for (auto& r : s.ControlPoints) for (auto& p : r) p = XYZW(a, p.GetW());                                   // a single point
	ctx.cls(strf("degenerate%d", kind));
	ctx.bucket("rule", TN[ty]);
	ctx.dump("tested", s);
	double got = NurbsSurface::ApproximateArea(s, TYPES[ty]);
	ctx.check(std::isfinite(got) && got >= 0, "area-finite", strf("area %g (%s)", got, TN[ty]));
	if (kind != 1) ctx.check(got <= 1e-4 * (1 + o.scale * o.scale), "area-zero", strf("area %.9g of a collapsed surface (%s)", got, TN[ty]));
}
#include "main.inc"
