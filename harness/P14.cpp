// P14: surface points, derivatives, normals, curvatures, isocurves and tangent inversion
#include "common.h"
using namespace H;

static int libSpan(int p, const Knots& U, double t) { return Polynomials::GetKnotSpanIndex(p, U, t); }
static ld magH(const LN_NurbsSurface& s, ld u, ld v, int k, int l, int su, int sv)
{
	if (k > s.DegreeU || l > s.DegreeV) return 0;
	BasisRow bu = refRow(s.DegreeU, s.KnotVectorU, u, su, k), bv = refRow(s.DegreeV, s.KnotVectorV, v, sv, l);
	ld r = 0;
	for (int i = 0; i <= s.DegreeU; i++)
		for (int j = 0; j <= s.DegreeV; j++)
		{
			V4 q(s.ControlPoints[bu.first + i][bv.first + j]);
			r += fabsl(bu.v[i] * bv.v[j]) * sqrtl(q.x * q.x + q.y * q.y + q.z * q.z + q.w * q.w);
		}
	return r;
}
static std::vector<std::vector<ld>> derMags(const LN_NurbsSurface& s, ld u, ld v, int d, int su, int sv)
{
	std::vector<std::vector<ld>> a(d + 1, std::vector<ld>(d + 1)), C = a;
	ld w = fabsl(refSurfH(s, u, v, 0, 0, su, sv).w);
	for (int k = 0; k <= d; k++) for (int l = 0; l <= d; l++) a[k][l] = magH(s, u, v, k, l, su, sv);
	for (int k = 0; k <= d; k++)
		for (int l = 0; l <= d; l++)
		{
			ld x = a[k][l];
			for (int i = 0; i <= k; i++) for (int j = 0; j <= l; j++) if (i || j) x += binom(k, i) * binom(l, j) * a[i][j] * C[k - i][l - j];
			C[k][l] = x / w;
		}
	return C;
}
static ld len4(const V4& e) { return sqrtl(e.x * e.x + e.y * e.y + e.z * e.z + e.w * e.w); }
static void genUV(Ctx& ctx, const LN_NurbsSurface& s, double& u, double& v, int mode = P_ANY)
{
	u = genParam(ctx, s.DegreeU, s.KnotVectorU, mode);
	v = genParam(ctx, s.DegreeV, s.KnotVectorV, mode);
	ctx.note(strf("u %.17g v %.17g", u, v));
}
static ld wRatio(const LN_NurbsSurface& s)
{
	ld a = 1e300L, b = 0;
	for (auto& r : s.ControlPoints) for (auto& q : r) { a = std::min(a, (ld)q.GetW()); b = std::max(b, (ld)q.GetW()); }
	return b / a;
}

SCENARIO(points, 4)
{
	SurfOpt o;
	o.closeChance = 0.1;
	o.allowUnclamped = true;
	LN_NurbsSurface s = genSurface(ctx, o);
	ld tol = 1e-11L * wRatio(s) * (1e-3L + maxAbs(s));
	LN_BsplineSurface<XYZ> b;
	b.DegreeU = s.DegreeU; b.DegreeV = s.DegreeV; b.KnotVectorU = s.KnotVectorU; b.KnotVectorV = s.KnotVectorV;
	LN_NurbsSurface poly = s;
	for (size_t i = 0; i < s.ControlPoints.size(); i++)
	{
		b.ControlPoints.push_back({});
		for (size_t j = 0; j < s.ControlPoints[i].size(); j++)
		{
			XYZ q = s.ControlPoints[i][j].ToXYZ(true);
			b.ControlPoints[i].push_back(q);
			poly.ControlPoints[i][j] = XYZW(q, 1);
		}
	}
	for (int rep = 0; rep < 6; rep++)
	{
		double u, v;
		genUV(ctx, s, u, v);
		int su = libSpan(s.DegreeU, s.KnotVectorU, u), sv = libSpan(s.DegreeV, s.KnotVectorV, v);
		V3 want = refSurfH(s, u, v, 0, 0, su, sv).proj();
		XYZ got = NurbsSurface::GetPointOnSurface(s, UV(u, v));
		nearPt(ctx, got, want, tol, "point", "surface point");
		nearPt(ctx, got, refPoint(s, u, v), 1e-7L * wRatio(s) * (1e-3L + maxAbs(s)), "point-definition", "surface point against the definition");
		// hull of the active control points (axis-aligned)
		for (int k = 0; k < 3; k++)
		{
			ld mn = 1e300L, mx = -1e300L;
			for (int i = su - s.DegreeU; i <= su; i++)
				for (int j = sv - s.DegreeV; j <= sv; j++)
				{
					XYZ q = s.ControlPoints[i][j].ToXYZ(true);
					mn = std::min(mn, (ld)q[k]); mx = std::max(mx, (ld)q[k]);
				}
			ctx.check(got[k] >= mn - tol && got[k] <= mx + tol, "hull", "point outside the hull of its control points");
		}
		XYZ gp = BsplineSurface::GetPointOnSurface(b, UV(u, v));
		nearPt(ctx, gp, refSurfH(poly, u, v, 0, 0, su, sv).proj(), tol, "bspline-point", "non-rational surface point");
	}
	// locality: a control point only influences its support
	int i = ctx.rng.irange(0, (int)s.ControlPoints.size() - 1), j = ctx.rng.irange(0, (int)s.ControlPoints[0].size() - 1);
	LN_NurbsSurface m = s;
	m.ControlPoints[i][j] = XYZW(s.ControlPoints[i][j].ToXYZ(true) + XYZ(1, 2, 3) * (double)(1 + maxAbs(s)), s.ControlPoints[i][j].GetW() * 2);
	for (int rep = 0; rep < 4; rep++)
	{
		double u, v;
		genUV(ctx, s, u, v, P_SMOOTH);
		int su = refSpan(s.DegreeU, s.KnotVectorU, u), sv = refSpan(s.DegreeV, s.KnotVectorV, v);
		if (i >= su - s.DegreeU && i <= su && j >= sv - s.DegreeV && j <= sv) continue;
		XYZ a = NurbsSurface::GetPointOnSurface(s, UV(u, v)), c = NurbsSurface::GetPointOnSurface(m, UV(u, v));
		ctx.check(a.GetX() == c.GetX() && a.GetY() == c.GetY() && a.GetZ() == c.GetZ(), "locality", strf("control point (%d,%d) changed the surface outside its support", i, j));
	}
}

SCENARIO(derivatives, 5)
{
	SurfOpt o;
	o.closeChance = 0.1;
	o.allowUnclamped = true;
	LN_NurbsSurface s = genSurface(ctx, o);
	for (int rep = 0; rep < 3; rep++)
	{
		double u, v;
		genUV(ctx, s, u, v);
		int d = ctx.rng.irange(1, 4);
		ctx.bucket("order", d);
		ctx.bucket("order-vs-degree", d > std::min(s.DegreeU, s.DegreeV) ? "above" : "within");
		int su = libSpan(s.DegreeU, s.KnotVectorU, u), sv = libSpan(s.DegreeV, s.KnotVectorV, v);
		auto got = NurbsSurface::ComputeRationalSurfaceDerivatives(s, d, UV(u, v));
		auto hom = BsplineSurface::ComputeDerivatives(s, d, UV(u, v));
		auto all = BsplineSurface::ComputeDerivativesByAllBasisFunctions(s, d, UV(u, v));
		ctx.check((int)got.size() == d + 1 && (int)hom.size() == d + 1 && (int)all.size() == d + 1, "derivative-count", "wrong number of derivatives");
		auto want = refDers(s, u, v, d, su, sv);
		auto mag = derMags(s, u, v, d, su, sv);
		for (int k = 0; k <= d; k++)
			for (int l = 0; l + k <= d; l++)
			{
				nearPt(ctx, got[k][l], want[k][l], 1e-9L * (mag[k][l] + 1e-6L), "rational-derivative", strf("derivative (%d,%d)", k, l));
				V4 w = refSurfH(s, u, v, k, l, su, sv);
				ld tl = 1e-9L * (magH(s, u, v, std::min(k, s.DegreeU), std::min(l, s.DegreeV), su, sv) + 1e-6L);
				ctx.near(len4(V4(hom[k][l]) - w), 0, tl, "bspline-derivative", strf("homogeneous derivative (%d,%d)", k, l).c_str());
				ctx.near(len4(V4(all[k][l]) - w), 0, tl, "bspline-derivative-all", strf("homogeneous derivative by all basis functions (%d,%d)", k, l).c_str());
			}
		// first-order shortcuts, with reused output buffers
		XYZ S(7, 7, 7), Su(7, 7, 7), Sv(7, 7, 7);
		NurbsSurface::ComputeRationalSurfaceFirstOrderDerivative(s, UV(u, v), S, Su, Sv);
		nearPt(ctx, S, want[0][0], 1e-9L * (mag[0][0] + 1e-6L), "first-order", "S");
		nearPt(ctx, Su, want[1][0], 1e-9L * (mag[1][0] + 1e-6L), "first-order", "Su");
		nearPt(ctx, Sv, want[0][1], 1e-9L * (mag[0][1] + 1e-6L), "first-order", "Sv");
		static XYZW buf[2][2];
		BsplineSurface::ComputeFirstOrderDerivative(s, UV(u, v), buf);
		for (int k = 0; k <= 1; k++)
			for (int l = 0; l <= 1; l++)
				ctx.near(len4(V4(buf[k][l]) - refSurfH(s, u, v, k, l, su, sv)), 0, 1e-9L * (magH(s, u, v, k, l, su, sv) + 1e-6L), "first-order-bspline", strf("first order derivative (%d,%d), reused output array", k, l).c_str());
	}
}

// control nets of the derivative surfaces
SCENARIO(derivative_nets, 1)
{
	SurfOpt o;
	o.closeChance = 0.1;
	LN_NurbsSurface s = genSurface(ctx, o);
	double u, v;
	genUV(ctx, s, u, v, P_SMOOTH);
	int su = refSpan(s.DegreeU, s.KnotVectorU, u), sv = refSpan(s.DegreeV, s.KnotVectorV, v);
	int d = ctx.rng.irange(1, 3);
	auto P = BsplineSurface::ComputeControlPointsOfDerivatives(s, d, su - s.DegreeU, su, sv - s.DegreeV, sv, UV(u, v));
	for (int k = 0; k <= std::min(d, s.DegreeU); k++)
		for (int l = 0; l <= std::min(d - k, s.DegreeV); l++)
		{
			V4 r;
			for (int i = 0; i <= s.DegreeU - k; i++)
				for (int j = 0; j <= s.DegreeV - l; j++)
					r += V4(P[k][l][i][j]) * (refN(su - s.DegreeU + k + i, s.DegreeU - k, s.KnotVectorU, u, su) * refN(sv - s.DegreeV + l + j, s.DegreeV - l, s.KnotVectorV, v, sv));
			ctx.near(len4(r - refSurfH(s, u, v, k, l, su, sv)), 0, 1e-9L * (magH(s, u, v, k, l, su, sv) + 1e-6L), "derivative-net", strf("derivative surface (%d,%d)", k, l).c_str());
		}
}

SCENARIO(geometry, 4)
{
	SurfOpt o;
	o.closeChance = 0.1;
	o.pointMode = ctx.rng.chance(0.6) ? 2 : 0;
	o.maxWeightMode = 1;
	o.minGap = 0.1;
	o.scale = ctx.rng.logu(1, 100);
	LN_NurbsSurface s = genSurface(ctx, o);
	for (int rep = 0; rep < 4; rep++)
	{
		double u, v;
		genUV(ctx, s, u, v);
		int su = libSpan(s.DegreeU, s.KnotVectorU, u), sv = libSpan(s.DegreeV, s.KnotVectorV, v);
		auto D = refDers(s, u, v, 2, su, sv);
		V3 a = D[1][0], b = D[0][1], cr = a.cross(b);
		ld sinang = cr.len() / (a.len() * b.len() + 1e-300L);
		ld E = a.dot(a), F = a.dot(b), G = b.dot(b), den = E * G - F * F;
		ld speed = std::min(a.len(), b.len());
		auto mag = derMags(s, u, v, 2, su, sv);
		if (!(sinang > 0.02L) || speed < 1e-2L * std::max(mag[1][0], mag[0][1]) || speed < 0.1L || den < 1e-2L) continue;
		V3 n = cr / cr.len();
		XYZ gn = NurbsSurface::Normal(s, UV(u, v));
		nearPt(ctx, gn, n, 1e-7L / sinang, "normal", "unit normal Su x Sv");
		ld L = D[2][0].dot(n), M = D[1][1].dot(n), N = D[0][2].dot(n);
		ld m2 = std::max(mag[2][0], std::max(mag[1][1], mag[0][2]));
		ld kscale = m2 / (speed * speed * sinang * sinang) + 1e-6L;
		ld K = (L * N - M * M) / den, H = (E * N + G * L - 2 * F * M) / (2 * den);
		ld disc = sqrtl(std::max((ld)0, H * H - K));
		ld tl = 1e-11L * kscale, dt = 1e-11L * kscale + 1e-12L * kscale * kscale / (disc + 1e-6L * kscale) + 1e-4L * kscale * (disc < 1e-3L * kscale ? 1 : 0) * 10;
		UV uv(u, v);
		ctx.near(NurbsSurface::Curvature(s, SurfaceCurvature::Gauss, uv), K, tl * kscale * 4, "curvature-gauss", "Gaussian curvature");
		ctx.near(NurbsSurface::Curvature(s, SurfaceCurvature::Mean, uv), H, tl * 4, "curvature-mean", "mean curvature");
		ctx.near(NurbsSurface::Curvature(s, SurfaceCurvature::Maximum, uv), H + disc, dt * 4, "curvature-max", "maximum curvature");
		ctx.near(NurbsSurface::Curvature(s, SurfaceCurvature::Minimum, uv), H - disc, dt * 4, "curvature-min", "minimum curvature");
		ctx.near(NurbsSurface::Curvature(s, SurfaceCurvature::Abs, uv), fabsl(H + disc) + fabsl(H - disc), dt * 8, "curvature-abs", "absolute curvature");
		ctx.near(NurbsSurface::Curvature(s, SurfaceCurvature::Rms, uv), sqrtl((H + disc) * (H + disc) + (H - disc) * (H - disc)), dt * 8, "curvature-rms", "rms curvature");
		// tangent inversion
		if (sinang > 0.05L)
		{
			ld p = ctx.rng.uni(-2, 2), q = ctx.rng.uni(-2, 2);
			V3 T = a * p + b * q;
			UV r;
			bool ok = NurbsSurface::GetUVTangent(s, uv, T.xyz(), r);
			ctx.check(ok, "uv-tangent", "tangent vector not inverted");
			ctx.near(r.GetU(), p, 1e-6L / (sinang * sinang) * (1 + std::max(a.len(), b.len()) / speed), "uv-tangent", "du");
			ctx.near(r.GetV(), q, 1e-6L / (sinang * sinang) * (1 + std::max(a.len(), b.len()) / speed), "uv-tangent", "dv");
		}
	}
}

// tangents of a plane patch whose two directions are nearly, but not quite, parallel
SCENARIO(tangent_skew, 1)
{
	Rng& g = ctx.rng;
	XYZ d = genPoint(g, 1).Normalize(), e = perpTo(g, d), o = genPoint(g, 10);
	if (e.Length() < 0.5) return;
	double th = (g.chance(0.5) ? 0 : Constants::Pi) + g.logu(3e-3, 0.3) * (g.chance(0.5) ? 1 : -1), la = g.logu(0.5, 50), lb = g.logu(0.5, 50);
	XYZ A = d * la, B = (d * cos(th) + e * sin(th)) * lb;
	double det = la * la * lb * lb * sin(th) * sin(th);
	if (det < 4e-6 * (1 + la * la * lb * lb)) return;
	LN_NurbsSurface s;
	s.DegreeU = s.DegreeV = 1;
	s.KnotVectorU = s.KnotVectorV = { 0, 0, 1, 1 };
	s.ControlPoints = { { XYZW(o, 1), XYZW(o + B, 1) }, { XYZW(o + A, 1), XYZW(o + A + B, 1) } };
	ctx.dump("surface", s);
	double p = g.uni(-2, 2), q = g.uni(-2, 2);
	UV r, uv(g.uni(), g.uni());
	ctx.cls(strf("skew %d", (int)(log10(fabs(sin(th))) * 2)));
	ctx.check(NurbsSurface::GetUVTangent(s, uv, A * p + B * q, r), "uv-tangent", strf("tangent not inverted between directions at %.3g rad", th));
	ld tol = 1e-11L / (sin(th) * sin(th)) * (1 + std::max(la, lb) / std::min(la, lb));
	ctx.near(r.GetU(), p, tol, "uv-tangent", "du, skew directions");
	ctx.near(r.GetV(), q, tol, "uv-tangent", "dv, skew directions");
	// directions that are parallel span no tangent plane
	s.ControlPoints = { { XYZW(o, 1), XYZW(o + A * 2, 1) }, { XYZW(o + A, 1), XYZW(o + A * 3, 1) } };
	ctx.check(!NurbsSurface::GetUVTangent(s, uv, A, r), "uv-tangent", "a tangent was split between parallel directions");
}

SCENARIO(isocurves, 2)
{
	SurfOpt o;
	o.closeChance = 0.1;
	o.allowUnclamped = true;
	LN_NurbsSurface s = genSurface(ctx, o);
	for (int rep = 0; rep < 2; rep++)
	{
		bool uDir = ctx.rng.chance(0.5);
		double f = uDir ? genParam(ctx, s.DegreeV, s.KnotVectorV) : genParam(ctx, s.DegreeU, s.KnotVectorU);
		ctx.note(strf("iso %s fixed %.17g", uDir ? "u" : "v", f));
		LN_NurbsCurve c = NurbsSurface::GetIsoCurve(s, f, uDir);
		validCurve(ctx, c, "iso-valid");
		ctx.check(c.Degree == (uDir ? s.DegreeU : s.DegreeV) && c.KnotVector == (uDir ? s.KnotVectorU : s.KnotVectorV), "iso-structure", "degree or knots differ from the surface's");
		for (double t : sampleParams(c.Degree, c.KnotVector, 2))
		{
			XYZ p = uDir ? NurbsSurface::GetPointOnSurface(s, UV(t, f)) : NurbsSurface::GetPointOnSurface(s, UV(f, t));
			nearPt(ctx, refPoint(c, t), V3(p), 1e-9L * wRatio(s) * (1e-3L + maxAbs(s)), "iso-point", strf("isocurve at %.12g", t));
		}
	}
}
#include "main.inc"
