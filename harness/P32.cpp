// P32: the C API gives what the C++ API gives for the same data, writes only what it reports, keeps
// its results valid until the next call on the same thread, and never writes to its inputs
#include "surf.hpp"
#include "BezierSurface.h"
#include "BezierCurve_CAPI.h"
#include "BezierSurface_CAPI.h"
#include "Interpolation_CAPI.h"
#include "Intersection_CAPI.h"
#include "KnotVectorUtils_CAPI.h"
#include "Matrix4d_CAPI.h"
#include "NurbsCurve_CAPI.h"
#include "NurbsSurface_CAPI.h"
#include "Polynomials_CAPI.h"
#include "Projection_CAPI.h"
#include "UV_CAPI.h"
#include "ValidationUtils_CAPI.h"
#include "XYZW_CAPI.h"
#include "XYZ_CAPI.h"
#include <thread>
using namespace H;

typedef std::vector<double> D;
static void put(D& d, double v) { d.push_back(v); }
static void put(D& d, int v) { d.push_back(v); }
static void put(D& d, bool v) { d.push_back(v); }
static void put(D& d, const XYZ& p) { for (int k = 0; k < 3; k++) d.push_back(p[k]); }
static void put(D& d, const XYZW& p) { for (int k = 0; k < 4; k++) d.push_back(p[k]); }
static void put(D& d, const UV& p) { d.push_back(p.GetU()); d.push_back(p.GetV()); }
static void put(D& d, const XYZ_C& p) { d.push_back(p.x); d.push_back(p.y); d.push_back(p.z); }
static void put(D& d, const XYZW_C& p) { d.push_back(p.wx); d.push_back(p.wy); d.push_back(p.wz); d.push_back(p.w); }
static void put(D& d, const UV_C& p) { d.push_back(p.u); d.push_back(p.v); }
static void put(D& d, const LN_NurbsCurve& c);
static void put(D& d, const LN_NurbsCurve_C& c);
static void put(D& d, const LN_NurbsSurface& c);
static void put(D& d, const LN_NurbsSurface_C& c);
template <class T> static void put(D& d, const std::vector<T>& v) { d.push_back((double)v.size()); for (auto& x : v) put(d, x); }
template <class T> static void putN(D& d, const T* v, int n) { d.push_back(n); for (int i = 0; i < n; i++) put(d, v[i]); }
template <class T> static void flat(D& d, const std::vector<std::vector<T>>& v) { d.push_back((double)v.size()); d.push_back(v.empty() ? 0 : (double)v[0].size()); for (auto& r : v) for (auto& x : r) put(d, x); }
static void put(D& d, const LN_NurbsCurve& c) { put(d, c.Degree); put(d, c.KnotVector); put(d, c.ControlPoints); }
static void put(D& d, const LN_NurbsCurve_C& c) { put(d, c.degree); putN(d, c.knot_vector, c.knot_vector_count); putN(d, c.control_points, c.control_point_count); }
static void put(D& d, const LN_NurbsSurface& c) { put(d, c.DegreeU); put(d, c.DegreeV); put(d, c.KnotVectorU); put(d, c.KnotVectorV); flat(d, c.ControlPoints); }
static void put(D& d, const LN_NurbsSurface_C& c)
{
	put(d, c.degree_u); put(d, c.degree_v); putN(d, c.knot_vector_u, c.knot_vector_count_u); putN(d, c.knot_vector_v, c.knot_vector_count_v);
	put(d, c.cp_rows); put(d, c.cp_cols);
	for (int i = 0; i < c.cp_rows * c.cp_cols; i++) put(d, c.control_points[i]);
}
static void put(D& d, const Matrix4d& m) { for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) put(d, m.GetElement(i, j)); }
static void put(D& d, const Matrix4d_C& m) { for (int i = 0; i < 16; i++) put(d, m.m[i]); }

static bool same(const D& a, const D& b)
{
	if (a.size() != b.size()) return false;
	for (size_t i = 0; i < a.size(); i++)
		if (!(a[i] == b[i] || (std::isnan(a[i]) && std::isnan(b[i])) || fabs(a[i] - b[i]) <= 1e-11 * (1 + fabs(a[i])))) return false;
	return true;
}
static std::string show(const D& d) { std::string s = strf("[%zu]", d.size()); for (size_t i = 0; i < d.size() && i < 24; i++) s += strf(" %.9g", d[i]); return s; }

// C views of C++ objects, in exactly sized heap blocks
static std::vector<XYZ_C> cx(const std::vector<XYZ>& v) { std::vector<XYZ_C> r; r.reserve(v.size()); for (auto& p : v) r.push_back({ p[0], p[1], p[2] }); return r; }
static std::vector<XYZ_C> cx(const std::vector<std::vector<XYZ>>& v) { std::vector<XYZ_C> r; r.reserve(v.size() * v[0].size()); for (auto& q : v) for (auto& p : q) r.push_back({ p[0], p[1], p[2] }); return r; }
static XYZ_C cx(const XYZ& p) { return { p[0], p[1], p[2] }; }
static UV_C cu(const UV& p) { return { p.GetU(), p.GetV() }; }
static Matrix4d_C cm(const Matrix4d& m) { Matrix4d_C r; for (int i = 0; i < 16; i++) r.m[i] = m.GetElement(i / 4, i % 4); return r; }
struct CC
{
	std::vector<double> k;
	std::vector<XYZW_C> p;
	LN_NurbsCurve_C c;
	CC(const LN_NurbsCurve& s) : k(s.KnotVector)
	{
		p.reserve(s.ControlPoints.size());
		for (auto& q : s.ControlPoints) p.push_back({ q[0], q[1], q[2], q[3] });
		c = { s.Degree, k.data(), (int)k.size(), p.data(), (int)p.size() };
	}
};
struct CS
{
	std::vector<double> ku, kv;
	std::vector<XYZW_C> p;
	LN_NurbsSurface_C c;
	CS(const LN_NurbsSurface& s) : ku(s.KnotVectorU), kv(s.KnotVectorV)
	{
		p.reserve(s.ControlPoints.size() * s.ControlPoints[0].size());
		for (auto& r : s.ControlPoints) for (auto& q : r) p.push_back({ q[0], q[1], q[2], q[3] });
		c = { s.DegreeU, s.DegreeV, ku.data(), (int)ku.size(), kv.data(), (int)kv.size(), p.data(), (int)s.ControlPoints.size(), (int)s.ControlPoints[0].size() };
	}
};
static const double FILL = -7.77e77;
static LN_NurbsCurve_C noCurve() { return { -99, nullptr, 0, nullptr, 0 }; }
static LN_NurbsSurface_C noSurface() { return { -99, -99, nullptr, 0, nullptr, 0, nullptr, 0, 0 }; }

static D run(const std::function<void(D&)>& f)
{
	D d;
	try { f(d); }
	catch (std::exception& e) { d = { -12345.0 }; for (const char* q = e.what(); *q; q++) d.push_back(*q); }
	return d;
}
static void pair(Ctx& ctx, const char* name, const std::function<void(D&)>& cpp, const std::function<void(D&)>& c)
{
	D a = run(cpp), b = run(c);
	ctx.count("calls-compared", 1);
	ctx.bucket("outcome", a.size() && a[0] == -12345.0 ? "refused" : "result");
	ctx.check(same(a, b), "c-equals-cpp", strf("%s: C %s, C++ %s", name, show(b).c_str(), show(a).c_str()));
}
#define PAIR(name, cpp, c) pair(ctx, name, [&](D& d) { cpp; }, [&](D& d) { c; })
#define VALUE(name, cpp, c) pair(ctx, name, [&](D& d) { put(d, cpp); }, [&](D& d) { put(d, c); })

static LN_NurbsCurve curveFor(Ctx& ctx, int maxP = 4)
{
	CurveOpt o;
	o.minP = 1; o.maxP = maxP; o.maxInterior = 4; o.maxMult = 2; o.maxWeightMode = 1; o.pointMode = ctx.rng.chance(0.7) ? 2 : -1; o.scale = 10; o.simpleDomain = true; o.minGap = 0.05;
	return genCurve(ctx, o);
}
static LN_NurbsSurface surfaceFor(Ctx& ctx)
{
	SurfOpt so;
	so.minP = 1; so.maxP = 3; so.maxMult = 1; so.maxWeightMode = 1; so.pointMode = 2; so.scale = 10; so.simpleDomain = true; so.maxInteriorU = so.maxInteriorV = 2; so.minGap = 0.1;
	return genSurface(ctx, so);
}
static std::vector<XYZ> pathFor(Rng& g, int n)
{
	std::vector<XYZ> r;
	XYZ p = genPoint(g, 5), dir = genPoint(g, 1).Normalize();
	for (int i = 0; i < n; i++) { p = p + dir * g.uni(2, 4) + genPoint(g, 1.2); r.push_back(p); }
	return r;
}
static void curveOut(D& d, bool ok, const LN_NurbsCurve& r) { put(d, (int)ok); if (ok) put(d, r); }
static void curveOut(D& d, int ok, const LN_NurbsCurve_C& r) { put(d, (int)(ok != 0)); if (ok) put(d, r); }
static void surfOut(D& d, bool ok, const LN_NurbsSurface& r) { put(d, (int)ok); if (ok) put(d, r); }
static void surfOut(D& d, int ok, const LN_NurbsSurface_C& r) { put(d, (int)(ok != 0)); if (ok) put(d, r); }

SCENARIO(curves, 4)
{
	Rng& g = ctx.rng;
	LN_NurbsCurve c = curveFor(ctx), c2 = curveFor(ctx, 3);
	CC C(c), C2(c2);
	D k0, k1;
	put(k0, C.c); put(k1, C2.c);
	double a = lo(c), b = hi(c), t = genParam(ctx, c), t1 = a + (b - a) * g.uni(0.1, 0.45), t2 = a + (b - a) * g.uni(0.55, 0.9);
	int i = g.irange(0, (int)c.ControlPoints.size() - 1);
	XYZ q = (refPoint(c, t) + V3(genPoint(g, 0.5))).xyz();
	VALUE("get_point_on_curve", NurbsCurve::GetPointOnCurve(c, t), LNLIB_NURBSCUR_get_point_on_curve(C.c, t));
	VALUE("by_corner_cut", NurbsCurve::GetPointOnCurveByCornerCut(c, t), LNLIB_NURBSCUR_get_point_on_curve_by_corner_cut(C.c, t));
	int order = g.irange(0, 4);
	PAIR("derivatives", put(d, NurbsCurve::ComputeRationalCurveDerivatives(c, order, t)), std::vector<XYZ_C> o(order + 1); int n = LNLIB_NURBSCUR_compute_rational_curve_derivatives(C.c, order, t, o.data()); putN(d, o.data(), n));
	VALUE("can_compute_derivative", (int)NurbsCurve::CanComputeDerivative(c, t), LNLIB_NURBSCUR_can_compute_derivative(C.c, t));
	VALUE("curvature", NurbsCurve::Curvature(c, t), LNLIB_NURBSCUR_curvature(C.c, t));
	VALUE("torsion", NurbsCurve::Torsion(c, t), LNLIB_NURBSCUR_torsion(C.c, t));
	VALUE("normal", NurbsCurve::Normal(c, CurveNormal::Normal, t), LNLIB_NURBSCUR_normal(C.c, CURVE_NORMAL_NORMAL, t));
	VALUE("binormal", NurbsCurve::Normal(c, CurveNormal::Binormal, t), LNLIB_NURBSCUR_normal(C.c, CURVE_NORMAL_BINORMAL, t));
	VALUE("is_closed", (int)NurbsCurve::IsClosed(c), LNLIB_NURBSCUR_is_closed(C.c));
	VALUE("is_linear", (int)NurbsCurve::IsLinear(c), LNLIB_NURBSCUR_is_linear(C.c));
	VALUE("is_clamp", (int)NurbsCurve::IsClamp(c), LNLIB_NURBSCUR_is_clamp(C.c));
	VALUE("is_periodic", (int)NurbsCurve::IsPeriodic(c), LNLIB_NURBSCUR_is_periodic(C.c));
	PAIR("is_arc", LN_ArcInfo f; bool ok = NurbsCurve::IsArc(c, f); put(d, (int)ok); if (ok) { put(d, f.Radius); put(d, f.Center); }, LNLIB_ArcInfo_C f; int ok = LNLIB_NURBSCUR_is_arc(C.c, &f); put(d, (int)(ok != 0)); if (ok) { put(d, f.radius); put(d, f.center); });
	int times = g.irange(1, 2);
#define CURVE(name, cppcall, ccall) PAIR(name, LN_NurbsCurve R; cppcall; put(d, R), LN_NurbsCurve_C R = noCurve(); ccall; put(d, R))
#define CURVEB(name, cppcall, ccall) PAIR(name, LN_NurbsCurve R; bool ok = cppcall; curveOut(d, ok, R), LN_NurbsCurve_C R = noCurve(); int ok = ccall; curveOut(d, ok, R))
	CURVE("insert_knot", put(d, NurbsCurve::InsertKnot(c, t1, times, R)), put(d, LNLIB_NURBSCUR_insert_knot(C.c, t1, times, &R)));
	std::vector<double> ins = { t1, t2 };
	CURVE("refine", NurbsCurve::RefineKnotVector(c, ins, R), LNLIB_NURBSCUR_refine_knot_vector(C.c, ins.data(), (int)ins.size(), &R));
	auto in = innerKnots(c.Degree, c.KnotVector);
	if (!in.empty())
	{
		double kn = in[g.irange(0, (int)in.size() - 1)];
		CURVEB("remove_knot", NurbsCurve::RemoveKnot(c, kn, 1, R), LNLIB_NURBSCUR_remove_knot(C.c, kn, 1, &R));
		int r = 0;
		for (int j = 0; j < (int)c.KnotVector.size(); j++) if (c.KnotVector[j] == kn) r = j;
		VALUE("remove_knot_error_bound", NurbsCurve::ComputerRemoveKnotErrorBound(c, r), LNLIB_NURBSCUR_computer_remove_knot_error_bound(C.c, r));
	}
	CURVE("remove_excessive_knots", NurbsCurve::RemoveExcessiveKnots(c, R), LNLIB_NURBSCUR_remove_excessive_knots(C.c, &R));
	if (c.Degree + times <= Constants::NURBSMaxDegree)
	{
		LN_NurbsCurve e;
		CURVE("elevate_degree", NurbsCurve::ElevateDegree(c, times, R), LNLIB_NURBSCUR_elevate_degree(C.c, times, &R));
		NurbsCurve::ElevateDegree(c, 1, e);
		CC E(e);
		CURVEB("reduce_degree", NurbsCurve::ReduceDegree(e, R), LNLIB_NURBSCUR_reduce_degree(E.c, &R));
	}
	Matrix4d m(g.uni(-2, 2), g.uni(-2, 2), g.uni(-2, 2), g.uni(-2, 2), g.uni(-2, 2), g.uni(-2, 2), g.uni(-2, 2), g.uni(-2, 2), g.uni(-2, 2), g.uni(-2, 2), g.uni(-2, 2), g.uni(-2, 2), 0, 0, 0, 1);
	CURVE("create_transformed", NurbsCurve::CreateTransformed(c, m, R), LNLIB_NURBSCUR_create_transformed(C.c, cm(m), &R));
	double r0 = g.uni(-3, 3), r1 = r0 + g.uni(0.5, 4);
	CURVE("reparametrize", NurbsCurve::Reparametrize(c, r0, r1, R), LNLIB_NURBSCUR_reparametrize(C.c, r0, r1, &R));
	double al = g.uni(1, 3), be = g.uni(0, 2), ga = g.uni(0, 0.05), de = g.uni(1, 3);
	CURVE("reparametrize_linear_rational", NurbsCurve::Reparametrize(c, al, be, ga, de, R), LNLIB_NURBSCUR_reparametrize_linear_rational(C.c, al, be, ga, de, &R));
	CURVE("reverse", NurbsCurve::Reverse(c, R), LNLIB_NURBSCUR_reverse(C.c, &R));
	CURVE("extract", NurbsCurve::Extract(c, t1, t2, R), LNLIB_NURBSCUR_extract(C.c, t1, t2, &R));
	PAIR("split_at", LN_NurbsCurve l; LN_NurbsCurve r; bool ok = NurbsCurve::SplitAt(c, t1, l, r); put(d, (int)ok); if (ok) { put(d, l); put(d, r); },
		LN_NurbsCurve_C l; LN_NurbsCurve_C r; int ok = LNLIB_NURBSCUR_split_at(C.c, t1, &l, &r); put(d, (int)(ok != 0)); if (ok) { put(d, l); put(d, r); });
	{
		auto segs = NurbsCurve::DecomposeToBeziers(c);
		int cap = g.chance(0.7) ? (int)segs.size() : g.irange(1, (int)segs.size());
		if (cap < (int)segs.size()) segs.resize(cap);
		PAIR("decompose_to_beziers", put(d, segs), std::vector<LN_NurbsCurve_C> o(cap); int n = LNLIB_NURBSCUR_decompose_to_beziers(C.c, o.data(), cap); putN(d, o.data(), n));
	}
	{
		LN_NurbsCurve l, r;
		if (NurbsCurve::SplitAt(c, t1, l, r))
		{
			CC L(l), Rr(r);
			CURVEB("merge", NurbsCurve::Merge(l, r, R), LNLIB_NURBSCUR_merge(L.c, Rr.c, &R));
		}
		CURVEB("merge.apart", NurbsCurve::Merge(c, c2, R), LNLIB_NURBSCUR_merge(C.c, C2.c, &R));
	}
	CURVE("to_clamp", NurbsCurve::ToClampCurve(c, R), LNLIB_NURBSCUR_to_clamp_curve(C.c, &R));
	CURVE("to_unclamp", NurbsCurve::ToUnclampCurve(c, R), LNLIB_NURBSCUR_to_unclamp_curve(C.c, &R));
	XYZ dir = genPoint(g, 1);
	CURVEB("reposition", NurbsCurve::ControlPointReposition(c, t1, i, dir, 0.5, R), LNLIB_NURBSCUR_control_point_reposition(C.c, t1, i, cx(dir), 0.5, &R));
	double md = g.uni(0.05, 0.4);
	CURVE("weight_modification", NurbsCurve::WeightModification(c, t1, i, md, R), LNLIB_NURBSCUR_weight_modification(C.c, t1, i, md, &R));
	double sc = g.uni(0.3, 1.5);
	if (i + 1 < (int)c.ControlPoints.size()) CURVEB("neighbor_weights", NurbsCurve::NeighborWeightsModification(c, t1, i, md, sc, R), LNLIB_NURBSCUR_neighbor_weights_modification(C.c, t1, i, md, sc, &R));
	std::vector<double> shape;
	for (size_t j = 0; j < c.ControlPoints.size(); j++) shape.push_back(g.uni(0, 1));
	CURVE("warping", NurbsCurve::Warping(c, shape, md, dir, t1, t2, R), LNLIB_NURBSCUR_warping(C.c, shape.data(), (int)shape.size(), md, cx(dir), t1, t2, &R));
	CURVEB("flattening", NurbsCurve::Flattening(c, XYZ(-30, -30, 0), XYZ(30, 31, 0), t1, t2, R), LNLIB_NURBSCUR_flattening(C.c, cx(XYZ(-30, -30, 0)), cx(XYZ(30, 31, 0)), t1, t2, &R));
	double br = g.uni(30, 50), cr = g.uni(1.2, 2);
	CURVE("bending", NurbsCurve::Bending(c, t1, t2, XYZ(1, -40, 2), br, cr, R), LNLIB_NURBSCUR_bending(C.c, t1, t2, cx(XYZ(1, -40, 2)), br, cr, &R));
	{
		std::vector<double> cp = { t1, t2 };
		std::vector<XYZ> dc = { genPoint(g, 0.5), genPoint(g, 0.5) };
		std::vector<int> ai = { 0, 1 }, ad = { 0, c.Degree > 1 ? g.irange(0, 1) : 0 }, fx;
		if (g.chance(0.5) && c.ControlPoints.size() > 5) fx = { 0 };
		auto dcc = cx(dc);
		CURVE("constraint_based", NurbsCurve::ConstraintBasedModification(c, cp, dc, ai, ad, fx, R), LNLIB_NURBSCUR_constraint_based_modification(C.c, cp.data(), dcc.data(), ai.data(), ad.data(), fx.data(), 2, (int)fx.size(), &R));
	}
	if (g.chance(0.1))
	{
		VALUE("get_param_on_curve", NurbsCurve::GetParamOnCurve(c, q), LNLIB_NURBSCUR_get_param_on_curve(C.c, cx(q)));
		static const LNLIB_ENUMS_IntegratorType_C it[3] = { INTEGRATOR_SIMPSON, INTEGRATOR_GAUSS_LEGENDRE, INTEGRATOR_CHEBYSHEV };
		static const IntegratorType itc[3] = { IntegratorType::Simpson, IntegratorType::GaussLegendre, IntegratorType::Chebyshev };
		for (int k = 0; k < 3; k++)
		{
			VALUE("approximate_length", NurbsCurve::ApproximateLength(c, itc[k]), LNLIB_NURBSCUR_approximate_length(C.c, it[k]));
			VALUE("get_param_by_length", NurbsCurve::GetParamOnCurve(c, 0.3, itc[k]), LNLIB_NURBSCUR_get_param_by_length(C.c, 0.3, it[k]));
		}
		if (c.Degree > 1)
		{
			double len = (double)refLength(c, a, b, 1e-6L);
			double seg = len / g.irange(2, 6) * 0.99;
			std::vector<double> ps;
			bool ok = len > 0.5;
			if (ok) try { ps = NurbsCurve::GetParamsOnCurve(c, seg, IntegratorType::GaussLegendre); } catch (std::exception&) { ok = false; }
			if (ok) PAIR("get_params_by_equal_length", put(d, ps), std::vector<double> o(ps.size(), FILL); int n = LNLIB_NURBSCUR_get_params_by_equal_length(C.c, seg, INTEGRATOR_GAUSS_LEGENDRE, o.data()); putN(d, o.data(), n));
		}
		std::vector<XYZ> ts;
		bool ok = true;
		try { ts = NurbsCurve::Tessellate(c); } catch (std::exception&) { ok = false; }
		if (ok) PAIR("tessellate", put(d, ts), std::vector<XYZ_C> o(ts.size()); int n = LNLIB_NURBSCUR_tessellate(C.c, o.data()); putN(d, o.data(), n));
		std::vector<XYZ> ep;
		std::vector<double> ek;
		NurbsCurve::EquallyTessellate(c, ep, ek);
		int cap = g.chance(0.5) ? (int)ep.size() : g.irange(1, (int)ep.size());
		PAIR("equally_tessellate", for (int j = 0; j < cap; j++) { put(d, ep[j]); put(d, ek[j]); }, std::vector<XYZ_C> o(cap); std::vector<double> k(cap, FILL); LNLIB_NURBSCUR_equally_tessellate(C.c, cap, o.data(), k.data()); for (int j = 0; j < cap; j++) { put(d, o[j]); put(d, k[j]); });
		// the frame starts at random: the count and the length of the normals
		PAIR("project_normal", put(d, (int)NurbsCurve::ProjectNormal(c).size()), std::vector<XYZ_C> o(c.KnotVector.size() + 200); int n = LNLIB_NURBSCUR_project_normal(C.c, o.data()); put(d, n));
		CurveOpt fo;
		fo.minP = 1; fo.maxP = 2; fo.maxInterior = 1; fo.maxMult = 1; fo.weightMode = 0; fo.pointMode = 2; fo.scale = 10; fo.simpleDomain = true; fo.minGap = 0.1;
		LN_NurbsCurve fl = genCurve(ctx, fo);
		for (auto& p : fl.ControlPoints) p = XYZW(p[0], p[1], 0, 1);
		CC F(fl);
		CURVE("offset", NurbsCurve::Offset(fl, 0.3, OffsetType::PieglAndTiller, R), LNLIB_NURBSCUR_offset(F.c, 0.3, OFFSET_PIEGL_TILLER, &R));
		CURVE("offset.th", NurbsCurve::Offset(fl, 0.3, OffsetType::TillerAndHanson, R), LNLIB_NURBSCUR_offset(F.c, 0.3, OFFSET_TILLER_HANSON, &R));
	}
	D z0, z1;
	put(z0, C.c); put(z1, C2.c);
	ctx.check(z0 == k0 && z1 == k1, "c-input-untouched", "a C call wrote to its input curve");
}
SCENARIO(makers, 2)
{
	Rng& g = ctx.rng;
	auto pts = pathFor(g, g.irange(6, 12));
	auto cp = cx(pts);
	auto tan = pathFor(g, (int)pts.size());
	auto ct = cx(tan);
	int n = (int)pts.size();
	XYZ p = genPoint(g, 5), x = genPoint(g, 1).Normalize(), y0 = genPoint(g, 1), y = (y0 - x * x.DotProduct(y0)).Normalize();
	double s = g.uni(0, 3), e = s + g.uni(0.2, 3), rx = g.uni(1, 4), ry = g.uni(1, 4);
	PAIR("create_line", LN_NurbsCurve R; NurbsCurve::CreateLine(pts[0], pts[1], R); put(d, R), put(d, LNLIB_NURBSCUR_create_line(cp[0], cp[1])));
	CURVE("create_cubic_hermite", NurbsCurve::CreateCubicHermite(pts, tan, R), LNLIB_NURBSCUR_create_cubic_hermite(cp.data(), n, ct.data(), n, &R));
	CURVEB("create_arc", NurbsCurve::CreateArc(p, x, y, s, e, rx, ry, R), LNLIB_NURBSCUR_create_arc(cx(p), cx(x), cx(y), s, e, rx, ry, &R));
	CURVEB("create_arc.bad", NurbsCurve::CreateArc(p, x, y, e, s, rx, ry, R), LNLIB_NURBSCUR_create_arc(cx(p), cx(x), cx(y), e, s, rx, ry, &R));
	{
		// a conic through points of an ellipse
		double b0 = g.uni(0, 6), b1 = b0 + g.uni(0.3, 4.5), bm = b0 + (b1 - b0) * g.uni(0.2, 0.8);
		auto at = [&](double w) { return p + x * (rx * cos(w)) + y * (ry * sin(w)); };
		auto dt = [&](double w) { return x * (-rx * sin(w)) + y * (ry * cos(w)); };
		XYZ a0 = at(b0), a1 = at(b1), am = at(bm), d0 = dt(b0), d1 = dt(b1);
		CURVEB("create_open_conic", NurbsCurve::CreateOpenConic(a0, d0, a1, d1, am, R), LNLIB_NURBSCUR_create_open_conic(cx(a0), cx(d0), cx(a1), cx(d1), cx(am), &R));
		PAIR("create_one_conic_arc", XYZ q; double w = 0; bool ok = NurbsCurve::CreateOneConicArc(a0, d0, a1, d1, am, q, w); put(d, (int)ok); if (ok) { put(d, q); put(d, w); },
			XYZ_C q; double w; int ok = LNLIB_NURBSCUR_create_one_conic_arc(cx(a0), cx(d0), cx(a1), cx(d1), cx(am), &q, &w); put(d, (int)(ok != 0)); if (ok) { put(d, q); put(d, w); });
		double wt = g.uni(0.2, 2);
		PAIR("split_arc", XYZ u; XYZ v; XYZ z; double w = 0; NurbsCurve::SplitArc(a0, am, wt, a1, u, v, z, w); put(d, u); put(d, v); put(d, z); put(d, w),
			XYZ_C u; XYZ_C v; XYZ_C z; double w; LNLIB_NURBSCUR_split_arc(cx(a0), cx(am), wt, cx(a1), &u, &v, &z, &w); put(d, u); put(d, v); put(d, z); put(d, w));
		// fits of the points between
		std::vector<XYZ> on;
		for (int k = 0; k < 7; k++) on.push_back(at(b0 + (b1 - b0) * k / 6));
		auto oc = cx(on);
		double me = g.logu(1e-3, 3);
		for (int cubic = 0; cubic < 2; cubic++)
		{
			std::vector<XYZW> mc;
			bool ok = cubic ? NurbsCurve::FitWithCubic(on, 0, 6, d0, d1, me, mc) : NurbsCurve::FitWithConic(on, 0, 6, d0, d1, me, mc);
			PAIR(cubic ? "fit_with_cubic" : "fit_with_conic", put(d, (int)ok); put(d, mc),
				std::vector<XYZW_C> o(mc.size()); int sz = -1;
				int k = cubic ? LNLIB_NURBSCUR_fit_with_cubic(oc.data(), 7, 0, 6, cx(d0), cx(d1), me, o.data(), &sz) : LNLIB_NURBSCUR_fit_with_conic(oc.data(), 7, 0, 6, cx(d0), cx(d1), me, o.data(), &sz);
				put(d, (int)(k != 0)); putN(d, o.data(), sz));
		}
	}
	int deg = g.irange(1, 4);
	CURVE("global_interpolation", NurbsCurve::GlobalInterpolation(deg, pts, R), LNLIB_NURBSCUR_global_interpolation(deg, cp.data(), n, &R));
	CURVE("interpolation_with_tangents", NurbsCurve::GlobalInterpolation(3, pts, tan, 1.5, R), LNLIB_NURBSCUR_global_interpolation_with_tangents(3, cp.data(), ct.data(), 1.5, n, &R));
	CURVEB("cubic_local_interpolation", NurbsCurve::CubicLocalInterpolation(pts, R), LNLIB_NURBSCUR_cubic_local_interpolation(cp.data(), n, &R));
	int nc = g.irange(deg + 1, n);
	CURVEB("least_squares", NurbsCurve::LeastSquaresApproximation(deg, pts, nc, R), LNLIB_NURBSCUR_least_squares_approximation(deg, cp.data(), n, nc, &R));
	double err = g.logu(0.05, 2);
	CURVE("approximation_by_error_bound", NurbsCurve::GlobalApproximationByErrorBound(std::min(deg, 3), pts, err, R), LNLIB_NURBSCUR_global_approximation_by_error_bound(std::min(deg, 3), cp.data(), n, err, &R));
	{
		// as many points as control points: what the C signature can express
		std::vector<double> pw, tw;
		std::vector<XYZ> tn;
		std::vector<int> ti;
		for (int k = 0; k < n; k++) pw.push_back(g.chance(0.1) ? -1 : g.uni(0.5, 2));
		if (g.chance(0.5)) { tn.push_back(tan[0]); ti.push_back(g.irange(0, n - 1)); tw.push_back(g.uni(0.5, 2)); }
		auto tc = cx(tn);
		CURVEB("weighted_constrained", NurbsCurve::WeightedAndContrainedLeastSquaresApproximation(std::min(deg, 3), pts, pw, tn, ti, tw, n, R), LNLIB_NURBSCUR_weighted_constrained_least_squares(std::min(deg, 3), cp.data(), pw.data(), tc.data(), ti.data(), tw.data(), (int)tn.size(), n, &R));
	}
	{
		LN_NurbsCurve c = curveFor(ctx, 3);
		CC C(c);
		std::vector<double> ps;
		for (int k = 0; k < 8; k++) ps.push_back(lo(c) + (hi(c) - lo(c)) * k / 7);
		double me = g.logu(1e-3, 3);
		PAIR("remove_knots_by_given_bound", std::vector<double> er(ps.size(), 0.0); LN_NurbsCurve R; NurbsCurve::RemoveKnotsByGivenBound(c, ps, er, me, R); put(d, er); put(d, R),
			std::vector<double> er(ps.size(), FILL); int sz = -1; LN_NurbsCurve_C R; LNLIB_NURBSCUR_remove_knots_by_given_bound(C.c, ps.data(), (int)ps.size(), me, er.data(), &sz, &R); putN(d, er.data(), sz); put(d, R));
	}
	auto p0 = cp;
	VALUE("total_chord_length", Interpolation::GetTotalChordLength(pts), LNLIB_INTERPOLATION_get_total_chord_length(cp.data(), n));
	VALUE("centripetal_length", Interpolation::GetCentripetalLength(pts), LNLIB_INTERPOLATION_get_centripetal_length(cp.data(), n));
	PAIR("chord_parameterization", put(d, Interpolation::GetChordParameterization(pts)), std::vector<double> o(n, FILL); int z = -1; LNLIB_INTERPOLATION_get_chord_parameterization(cp.data(), n, o.data(), &z); putN(d, o.data(), z));
	PAIR("centripetal_parameterization", put(d, Interpolation::GetCentripetalParameterization(pts)), std::vector<double> o(n, FILL); int z = -1; LNLIB_INTERPOLATION_get_centripetal_parameterization(cp.data(), n, o.data(), &z); putN(d, o.data(), z));
	auto ps = Interpolation::GetChordParameterization(pts);
	auto kv = Interpolation::AverageKnotVector(deg, ps);
	PAIR("average_knot_vector", put(d, kv), std::vector<double> o(kv.size(), FILL); int z = -1; LNLIB_INTERPOLATION_average_knot_vector(deg, ps.data(), n, o.data(), &z); putN(d, o.data(), z));
	auto kv2 = Interpolation::ComputeKnotVector(deg, nc, ps);
	PAIR("compute_knot_vector", put(d, kv2), std::vector<double> o(kv2.size(), FILL); int z = -1; LNLIB_INTERPOLATION_compute_knot_vector(deg, nc, ps.data(), n, o.data(), &z); putN(d, o.data(), z));
	PAIR("tangent_three", put(d, Interpolation::ComputeTangent(pts)), std::vector<XYZ_C> o(n); int z = -1; LNLIB_INTERPOLATION_compute_tangent_by_three_points(cp.data(), n, o.data(), &z); putN(d, o.data(), z));
	{
		std::vector<XYZ> tg;
		bool ok = Interpolation::ComputeTangent(pts, tg);
		PAIR("tangent_five", put(d, (int)ok); put(d, tg), std::vector<XYZ_C> o(tg.size()); int z = -1; int k = LNLIB_INTERPOLATION_compute_tangent_by_five_points(cp.data(), n, o.data(), &z); put(d, (int)(k != 0)); putN(d, o.data(), z));
	}
	PAIR("conic_weight", double w = 0; bool ok = Interpolation::ComputerWeightForRationalQuadraticInterpolation(pts[0], pts[1], pts[2], w); put(d, (int)ok); put(d, w), double w = FILL; int ok = LNLIB_INTERPOLATION_computer_weight_for_rational_quadratic_interpolation(cp[0], cp[1], cp[2], &w); put(d, (int)(ok != 0)); put(d, w));
	ctx.check(!memcmp(p0.data(), cp.data(), cp.size() * sizeof(XYZ_C)), "c-input-untouched", "a C call wrote to its input points");
	// rays, planes, projection
	XYZ o1 = genPoint(g, 5), v1 = genPoint(g, 2), o2 = g.chance(0.4) ? o1 + v1 * 0.5 : genPoint(g, 5), v2 = g.chance(0.3) ? v1 * 2.0 : genPoint(g, 2);
	PAIR("rays", double a; double b; XYZ q; auto ty = Intersection::ComputeRays(o1, v1, o2, v2, a, b, q); put(d, (int)ty); if (ty == CurveCurveIntersectionType::Intersecting) { put(d, a); put(d, b); put(d, q); },
		double a; double b; XYZ_C q; auto ty = LNLIB_INTERSECT_compute_rays(cx(o1), cx(v1), cx(o2), cx(v2), &a, &b, &q); put(d, (int)ty); if (ty == CURVE_CURVE_INTERSECTING) { put(d, a); put(d, b); put(d, q); });
	PAIR("line_plane", XYZ q; auto ty = Intersection::ComputeLineAndPlane(v2, o2, o1, v1, q); put(d, (int)ty); if (ty == LinePlaneIntersectionType::Intersecting) put(d, q),
		XYZ_C q; auto ty = LNLIB_INTERSECT_compute_line_and_plane(cx(v2), cx(o2), cx(o1), cx(v1), &q); put(d, (int)ty); if (ty == LINE_PLANE_INTERSECTING) put(d, q));
	VALUE("point_to_ray", Projection::PointToRay(o1, v1, o2), LNLIB_PROJ_point_to_ray(cx(o1), cx(v1), cx(o2)));
	PAIR("point_to_line", XYZ q; bool ok = Projection::PointToLine(o1, o1 + v1, o2, q); put(d, (int)ok); if (ok) put(d, q), XYZ_C q; int ok = LNLIB_PROJ_point_to_line(cx(o1), cx(o1 + v1), cx(o2), &q); put(d, (int)(ok != 0)); if (ok) put(d, q));
	XYZ sp = genPoint(g, 1).Normalize() * rx;
	if (fabs(rx - sp[2]) > 0.01) VALUE("stereographic", Projection::Stereographic(sp, rx), LNLIB_PROJ_stereographic(cx(sp), rx));
}
SCENARIO(surfaces, 3)
{
	Rng& g = ctx.rng;
	LN_NurbsSurface s = surfaceFor(ctx);
	CS S(s);
	D k0;
	put(k0, S.c);
	double u = loU(s) + (hiU(s) - loU(s)) * g.uni(0.05, 0.95), v = loV(s) + (hiV(s) - loV(s)) * g.uni(0.05, 0.95);
	UV uv(u, v);
	int dirU = g.irange(0, 1), times = g.irange(1, 2);
#define SURF(name, cppcall, ccall) PAIR(name, LN_NurbsSurface R; cppcall; put(d, R), LN_NurbsSurface_C R = noSurface(); ccall; put(d, R))
#define SURFB(name, cppcall, ccall) PAIR(name, LN_NurbsSurface R; bool ok = cppcall; surfOut(d, ok, R), LN_NurbsSurface_C R = noSurface(); int ok = ccall; surfOut(d, ok, R))
	VALUE("get_point_on_surface", NurbsSurface::GetPointOnSurface(s, uv), LNLIB_NURBSSUR_get_point_on_surface(S.c, cu(uv)));
	int order = g.irange(1, 3);
	auto ders = NurbsSurface::ComputeRationalSurfaceDerivatives(s, order, uv);
	int total = 0;
	for (auto& r : ders) total += (int)r.size();
	PAIR("surface_derivatives", put(d, total); for (auto& r : ders) for (auto& q : r) put(d, q), std::vector<XYZ_C> o(total); int n = LNLIB_NURBSSUR_compute_rational_surface_derivatives(S.c, order, cu(uv), o.data()); putN(d, o.data(), n));
	PAIR("first_order", XYZ a; XYZ b; XYZ c; NurbsSurface::ComputeRationalSurfaceFirstOrderDerivative(s, uv, a, b, c); put(d, a); put(d, b); put(d, c), XYZ_C a; XYZ_C b; XYZ_C c; LNLIB_NURBSSUR_compute_rational_surface_first_order_derivative(S.c, cu(uv), &a, &b, &c); put(d, a); put(d, b); put(d, c));
	static const int sct[6] = { SURFACE_CURVATURE_MAXIMUM, SURFACE_CURVATURE_MINIMUM, SURFACE_CURVATURE_GAUSS, SURFACE_CURVATURE_MEAN, SURFACE_CURVATURE_ABS, SURFACE_CURVATURE_RMS };
	static const SurfaceCurvature sc[6] = { SurfaceCurvature::Maximum, SurfaceCurvature::Minimum, SurfaceCurvature::Gauss, SurfaceCurvature::Mean, SurfaceCurvature::Abs, SurfaceCurvature::Rms };
	for (int k = 0; k < 6; k++) VALUE("surface_curvature", NurbsSurface::Curvature(s, sc[k], uv), LNLIB_NURBSSUR_curvature(S.c, sct[k], cu(uv)));
	VALUE("surface_normal", NurbsSurface::Normal(s, uv), LNLIB_NURBSSUR_Normal(S.c, cu(uv)));
	SURF("swap", NurbsSurface::Swap(s, R), LNLIB_NURBSSUR_swap(S.c, &R));
	static const int sd[3] = { SURFACE_DIRECTION_ALL, SURFACE_DIRECTION_U, SURFACE_DIRECTION_V };
	static const SurfaceDirection sdc[3] = { SurfaceDirection::All, SurfaceDirection::UDirection, SurfaceDirection::VDirection };
	for (int k = 0; k < 3; k++) SURF("surface_reverse", NurbsSurface::Reverse(s, sdc[k], R), LNLIB_NURBSSUR_reverse(S.c, sd[k], &R));
	VALUE("surface_is_closed", (int)NurbsSurface::IsClosed(s, dirU), LNLIB_NURBSSUR_is_closed(S.c, dirU));
	double x = dirU ? u : v;
	SURF("surface_insert", NurbsSurface::InsertKnot(s, x, times, dirU, R), LNLIB_NURBSSUR_insert_knot(S.c, x, times, dirU, &R));
	std::vector<double> ins = { x };
	SURF("surface_refine", NurbsSurface::RefineKnotVector(s, ins, dirU, R), LNLIB_NURBSSUR_refine_knot_vector(S.c, ins.data(), 1, dirU, &R));
	auto in = innerKnots(dirU ? s.DegreeU : s.DegreeV, dirU ? s.KnotVectorU : s.KnotVectorV);
	if (!in.empty()) SURF("surface_remove", NurbsSurface::RemoveKnot(s, in[0], 1, dirU, R), LNLIB_NURBSSUR_remove_knot(S.c, in[0], 1, dirU, &R));
	SURF("surface_elevate", NurbsSurface::ElevateDegree(s, times, dirU, R), LNLIB_NURBSSUR_elevate_degree(S.c, times, dirU, &R));
	{
		LN_NurbsSurface e;
		NurbsSurface::ElevateDegree(s, 1, dirU, e);
		CS E(e);
		SURFB("surface_reduce", NurbsSurface::ReduceDegree(e, dirU, R), LNLIB_NURBSSUR_reduce_degree(E.c, dirU, &R));
	}
	double a = g.uni(-2, 2), b = a + g.uni(0.5, 3), c = g.uni(-2, 2), e = c + g.uni(0.5, 3);
	SURF("surface_reparametrize", NurbsSurface::Reparametrize(s, a, b, c, e, R), LNLIB_NURBSSUR_reparametrize(S.c, a, b, c, e, &R));
	{
		auto ps = NurbsSurface::DecomposeToBeziers(s);
		int cap = g.chance(0.7) ? (int)ps.size() : g.irange(1, (int)ps.size());
		if (cap < (int)ps.size()) ps.resize(cap);
		PAIR("surface_beziers", put(d, cap); for (auto& q : ps) put(d, q), std::vector<LN_NurbsSurface_C> o(cap); int n = LNLIB_NURBSSUR_decompose_to_beziers(S.c, o.data(), cap); putN(d, o.data(), n));
	}
	XYZ tg = genPoint(g, 1);
	PAIR("uv_tangent", UV r; bool ok = NurbsSurface::GetUVTangent(s, uv, tg, r); put(d, (int)ok); if (ok) put(d, r), UV_C r; int ok = LNLIB_NURBSSUR_get_uv_tangent(S.c, cu(uv), cx(tg), &r); put(d, (int)(ok != 0)); if (ok) put(d, r));
	int ru = g.irange(2, 6), rv = g.irange(2, 6), del = g.irange(0, 1);
	PAIR("triangulate", LN_Mesh m = NurbsSurface::Triangulate(s, ru, rv, del); put(d, m.Vertices); std::vector<int> f; for (auto& q : m.Faces) f.insert(f.end(), q.begin(), q.end()); put(d, f); put(d, m.UVs); put(d, m.Normals),
		LNLIB_Mesh_C m = LNLIB_NURBSSUR_triangulate(S.c, ru, rv, del); putN(d, m.vertices, m.vertices_count); putN(d, m.facets, m.facets_count); putN(d, m.uvs, m.uvs_count); putN(d, m.normals, m.normals_count);
		for (int k = 0; k < m.uv_indices_count; k++) ctx.check(m.uv_indices[k] >= 0 && m.uv_indices[k] < m.uvs_count, "mesh-index", "triangulate: texture index out of range");
		for (int k = 0; k < m.normal_indices_count; k++) ctx.check(m.normal_indices[k] >= 0 && m.normal_indices[k] < m.normals_count, "mesh-index", "triangulate: normal index out of range"));
	XYZ rf = genPoint(g, 3);
	double fx = g.uni(0.5, 2), fy = g.uni(0.5, 2), fz = g.uni(0.5, 2);
	PAIR("non_uniform_scaling", flat(d, NurbsSurface::NonUniformScaling(s.ControlPoints, fx, fy, fz, rf)),
		XYZW_C* o = nullptr; int r = -1; int q = -1; LNLIB_NURBSSUR_non_uniform_scaling_query_size(S.p.data(), S.c.cp_rows, S.c.cp_cols, fx, fy, fz, cx(rf), &o, &r, &q); put(d, r); put(d, q); for (int k = 0; k < r * q; k++) put(d, o[k]); delete[] o);
	if (g.chance(0.06))
	{
		XYZ q = NurbsSurface::GetPointOnSurface(s, uv) + genPoint(g, 0.3);
		VALUE("get_param_on_surface", NurbsSurface::GetParamOnSurface(s, q), LNLIB_NURBSSUR_get_param_on_surface(S.c, cx(q)));
		VALUE("get_param_by_gsa", NurbsSurface::GetParamOnSurfaceByGSA(s, q), LNLIB_NURBSSUR_get_param_on_surface_by_gsa(S.c, cx(q)));
		static const int it[3] = { INTEGRATOR_SIMPSON, INTEGRATOR_GAUSS_LEGENDRE, INTEGRATOR_CHEBYSHEV };
		static const IntegratorType itc[3] = { IntegratorType::Simpson, IntegratorType::GaussLegendre, IntegratorType::Chebyshev };
		int k = g.irange(0, 2);
		VALUE("approximate_area", NurbsSurface::ApproximateArea(s, itc[k]), LNLIB_NURBSSUR_approximate_area(S.c, it[k]));
		std::vector<XYZ> ep;
		std::vector<UV> ek;
		NurbsSurface::EquallyTessellate(s, ep, ek);
		int cap = g.chance(0.5) ? (int)ep.size() : g.irange(1, (int)ep.size());
		PAIR("surface_equally", for (int j = 0; j < cap; j++) { put(d, ep[j]); put(d, ek[j]); }, std::vector<XYZ_C> o(cap); std::vector<UV_C> w(cap); LNLIB_NURBSSUR_equally_tessellate(S.c, o.data(), w.data(), cap); for (int j = 0; j < cap; j++) { put(d, o[j]); put(d, w[j]); });
	}
	// surfaces made of curves and points
	XYZ q[4] = { genPoint(g, 5), genPoint(g, 5), genPoint(g, 5), genPoint(g, 5) };
	SURF("bilinear", NurbsSurface::CreateBilinearSurface(q[0], q[1], q[2], q[3], R), LNLIB_NURBSSUR_create_bilinear_surface(cx(q[0]), cx(q[1]), cx(q[2]), cx(q[3]), &R));
	double s0 = g.uni(0, 3), s1 = s0 + g.uni(0.2, 3), rad = g.uni(1, 4), h = g.uni(1, 9);
	SURFB("cylinder", NurbsSurface::CreateCylindricalSurface(q[0], XYZ(0, 1, 0), XYZ(0, 0, 1), s0, s1, rad, h, R), LNLIB_NURBSSUR_create_cylindrical_surface(cx(q[0]), cx(XYZ(0, 1, 0)), cx(XYZ(0, 0, 1)), s0, s1, rad, h, &R));
	CurveOpt o;
	o.minP = 2; o.maxP = 3; o.maxInterior = 2; o.maxMult = 1; o.weightMode = 0; o.pointMode = 2; o.scale = 10; o.unitDomain = true; o.minGap = 0.1;
	LN_NurbsCurve c1 = genCurve(ctx, o), c2 = genCurve(ctx, o), c3 = genCurve(ctx, o);
	CC C1(c1), C2(c2), C3(c3);
	SURF("ruled", NurbsSurface::CreateRuledSurface(c1, c2, R), LNLIB_NURBSSUR_create_ruled_surface(C1.c, C2.c, &R));
	SURFB("revolved", NurbsSurface::CreateRevolvedSurface(XYZ(60, 0, 0), XYZ(0, 1, 0), s1, c1, R), LNLIB_NURBSSUR_create_revolved_surface(cx(XYZ(60, 0, 0)), cx(XYZ(0, 1, 0)), s1, C1.c, &R));
	SURFB("swung", NurbsSurface::CreateSwungSurface(c1, c2, 1.3, R), LNLIB_NURBSSUR_create_swung_surface(C1.c, C2.c, 1.3, &R));
	std::vector<LN_NurbsCurve> sec = { c1, c2, c3 };
	LN_NurbsCurve_C cs[3] = { C1.c, C2.c, C3.c };
	if (g.chance(0.5)) SURF("loft", NurbsSurface::CreateLoftSurface(sec, R), LNLIB_NURBSSUR_create_loft_surface(cs, 3, &R, 0, nullptr, 0));
	else
	{
		std::vector<double> kn = { 0, 0, 0, 1, 1, 1 };
		SURF("loft.custom", NurbsSurface::CreateLoftSurface(sec, R, 2, kn), LNLIB_NURBSSUR_create_loft_surface(cs, 3, &R, 2, kn.data(), (int)kn.size()));
	}
	SURF("translational_sweep", NurbsSurface::CreateGeneralizedTranslationalSweepSurface(c1, c2, R), LNLIB_NURBSSUR_create_generalized_translational_sweep_surface(C1.c, C2.c, &R));
	{
		// random frames: the shape of the result
		PAIR("sweep", LN_NurbsSurface R; NurbsSurface::CreateSweepSurface(c1, c2, 4, R); put(d, R.DegreeU); put(d, R.DegreeV); put(d, (int)R.ControlPoints.size()); put(d, (int)R.ControlPoints[0].size()),
			LN_NurbsSurface_C R; LNLIB_NURBSSUR_create_sweep_surface(C1.c, C2.c, 4, &R); put(d, R.degree_u); put(d, R.degree_v); put(d, R.cp_rows); put(d, R.cp_cols));
		PAIR("sweep_by_degree", LN_NurbsSurface R; NurbsSurface::CreateSweepSurface(c1, c2, 5, 2, R); put(d, R.DegreeU); put(d, R.DegreeV); put(d, (int)R.ControlPoints.size()); put(d, (int)R.ControlPoints[0].size()),
			LN_NurbsSurface_C R; LNLIB_NURBSSUR_create_sweep_surface_by_trajectory_degree(C1.c, C2.c, 5, 2, &R); put(d, R.degree_u); put(d, R.degree_v); put(d, R.cp_rows); put(d, R.cp_cols));
	}
	{
		// a patch and its four sides
		auto side = [&](bool isU, double at) { return NurbsSurface::GetIsoCurve(s, at, isU); };
		LN_NurbsCurve l = side(true, loU(s)), r = side(true, hiU(s)), bo = side(false, loV(s)), to = side(false, hiV(s));
		CC L(l), Rr(r), B(bo), T(to);
		SURF("coons", NurbsSurface::CreateCoonsSurface(l, bo, r, to, R), LNLIB_NURBSSUR_create_coons_surface(L.c, B.c, Rr.c, T.c, &R));
		SURF("coons.turned", NurbsSurface::CreateCoonsSurface(bo, l, to, r, R), LNLIB_NURBSSUR_create_coons_surface(B.c, L.c, T.c, Rr.c, &R));
		std::vector<LN_NurbsCurve> uc = { l, r }, vc = { bo, to };
		std::vector<std::vector<XYZ>> ip(2, std::vector<XYZ>(2));
		for (int k = 0; k < 2; k++) for (int m = 0; m < 2; m++) ip[k][m] = NurbsSurface::GetPointOnSurface(s, UV(m ? hiU(s) : loU(s), k ? hiV(s) : loV(s)));
		LN_NurbsCurve_C ucc[2] = { L.c, Rr.c }, vcc[2] = { B.c, T.c };
		auto ic = cx(ip);
		SURF("gordon", NurbsSurface::CreateGordonSurface(uc, vc, ip, R), LNLIB_NURBSSUR_create_gordon_surface(ucc, 2, vcc, 2, ic.data(), &R));
	}
	{
		int nr = g.irange(4, 7), nk = g.irange(4, 6);
		std::vector<std::vector<XYZ>> grid(nr);
		for (int i = 0; i < nr; i++) for (int j = 0; j < nk; j++) grid[i].push_back(XYZ(i * 3 + g.uni(-1, 1), j * 3 + g.uni(-1, 1), g.uni(-2, 2)));
		auto gc = cx(grid);
		int pu = g.irange(1, 3), pv = g.irange(1, 3);
		SURF("surface_interpolation", NurbsSurface::GlobalInterpolation(grid, pu, pv, R), LNLIB_NURBSSUR_global_interpolation(gc.data(), nr, nk, pu, pv, &R));
		SURFB("bicubic_local", NurbsSurface::BicubicLocalInterpolation(grid, R), LNLIB_NURBSSUR_bicubic_local_interpolation(gc.data(), nr, nk, &R));
		int cr = g.irange(pu + 1, nr), cc = g.irange(pv + 1, nk);
		SURFB("surface_approximation", NurbsSurface::GlobalApproximation(grid, pu, pv, cr, cc, R), LNLIB_NURBSSUR_global_approximation(gc.data(), nr, nk, pu, pv, cr, cc, &R));
		std::vector<double> mu, mv;
		bool mok = Interpolation::GetSurfaceMeshParameterization(grid, mu, mv);
		PAIR("mesh_parameterization", put(d, (int)mok); put(d, mu); put(d, mv), std::vector<double> a(mu.size(), FILL); std::vector<double> b(mv.size(), FILL); int x = -1; int y = -1; int ok = LNLIB_INTERPOLATION_get_surface_mesh_parameterization(gc.data(), nr, nk, a.data(), &x, b.data(), &y); put(d, (int)(ok != 0)); putN(d, a.data(), x); putN(d, b.data(), y));
		// the same grid as a Bezier net
		LN_BezierSurface<XYZ> bs{ nr - 1, nk - 1, grid };
		LN_BezierSurface<XYZW> bw{ nr - 1, nk - 1, {} };
		std::vector<XYZW_C> wc;
		wc.reserve(nr * nk);
		for (auto& r : grid) { bw.ControlPoints.emplace_back(); for (auto& q : r) { XYZW z(q, g.uni(0.5, 2)); bw.ControlPoints.back().push_back(z); wc.push_back({ z[0], z[1], z[2], z[3] }); } }
		UV z(g.uni(), g.uni());
		VALUE("bezier_surface", BezierSurface::GetPointOnSurfaceByDeCasteljau(bs, z), LNLIB_BEZIERSURF_get_point_on_surface_by_deCasteljau(nr - 1, nk - 1, gc.data(), nr, nk, cu(z)));
		VALUE("bezier_surface_rational", BezierSurface::GetPointOnSurfaceByDeCasteljau(bw, z), LNLIB_BEZIERSURF_get_rational_point_on_surface_by_deCasteljau(nr - 1, nk - 1, wc.data(), nr, nk, cu(z)));
	}
	D k1;
	put(k1, S.c);
	ctx.check(k0 == k1, "c-input-untouched", "a C call wrote to its input surface");
}
SCENARIO(algebra, 2)
{
	Rng& g = ctx.rng;
	XYZ a = genPoint(g, 5), b = genPoint(g, 5), z = genPoint(g, 2);
	XYZ_C A = cx(a), B = cx(b);
	double k = g.uni(0.2, 4), eps = g.logu(1e-8, 1e-2);
	XYZ near = a + genPoint(g, 1) * (eps * 0.7);
	VALUE("xyz_create", XYZ(a[0], a[1], a[2]), LNLIB_XYZ_create(a[0], a[1], a[2]));
	PAIR("xyz_get", put(d, a[0]); put(d, a[1]); put(d, a[2]), put(d, LNLIB_XYZ_get_x(A)); put(d, LNLIB_XYZ_get_y(A)); put(d, LNLIB_XYZ_get_z(A)));
	PAIR("xyz_set", put(d, XYZ(k, a[1], a[2])); put(d, XYZ(a[0], k, a[2])); put(d, XYZ(a[0], a[1], k)), put(d, LNLIB_XYZ_set_x(A, k)); put(d, LNLIB_XYZ_set_y(A, k)); put(d, LNLIB_XYZ_set_z(A, k)));
	VALUE("xyz_add", a + b, LNLIB_XYZ_add(A, B));
	VALUE("xyz_subtract", a - b, LNLIB_XYZ_subtract(A, B));
	VALUE("xyz_negative", a * -1.0, LNLIB_XYZ_negative(A));
	VALUE("xyz_multiply", a * k, LNLIB_XYZ_multiply(A, k));
	VALUE("xyz_divide", a / k, LNLIB_XYZ_divide(A, k));
	VALUE("xyz_length", a.Length(), LNLIB_XYZ_length(A));
	VALUE("xyz_sqr_length", a.SqrLength(), LNLIB_XYZ_sqr_length(A));
	VALUE("xyz_angle", a.AngleTo(b), LNLIB_XYZ_angle_to(A, B, 1e-6));
	VALUE("xyz_is_zero", (int)XYZ(a * (eps / 9)).IsZero(eps), LNLIB_XYZ_is_zero(cx(a * (eps / 9)), eps));
	VALUE("xyz_is_unit", (int)XYZ(a).Normalize().IsUnit(eps), (LNLIB_XYZ_is_unit(cx(a.Normalize()), eps)));
	VALUE("xyz_equal", (int)a.IsAlmostEqualTo(near), LNLIB_XYZ_is_almost_equal(A, cx(near), Constants::DoubleEpsilon));
	VALUE("xyz_normalize", XYZ(a).Normalize(), LNLIB_XYZ_normalize(A));
	VALUE("xyz_dot", a.DotProduct(b), LNLIB_XYZ_dot_product(A, B));
	VALUE("xyz_cross", a.CrossProduct(b), LNLIB_XYZ_cross_product(A, B));
	VALUE("xyz_distance", a.Distance(b), LNLIB_XYZ_distance(A, B));
	XYZ_C ro = LNLIB_XYZ_create_random_orthogonal(A);
	ctx.check(fabs(a.DotProduct(XYZ(ro.x, ro.y, ro.z))) <= 1e-9 * (1 + a.Length()), "random-orthogonal", "create_random_orthogonal is not orthogonal");
	UV u(g.uni(-3, 3), g.uni(-3, 3)), v(g.uni(-3, 3), g.uni(-3, 3));
	UV_C U = cu(u), V = cu(v);
	PAIR("uv", put(d, u); put(d, u.GetU()); put(d, u.GetV()); put(d, UV(k, u.GetV())); put(d, UV(u.GetU(), k)); put(d, u + v); put(d, u - v); put(d, UV(-u.GetU(), -u.GetV())); put(d, UV(u).Normalize()); put(d, UV(u.GetU() * k, u.GetV() * k)); put(d, UV(u.GetU() / k, u.GetV() / k)); put(d, u.Length()); put(d, u.SqrLength()); put(d, u.Distance(v)); put(d, (int)u.IsZero(eps)); put(d, (int)u.IsUnit(eps)); put(d, 1); put(d, 0); put(d, u.DotProduct(v)); put(d, u.CrossProduct(v)),
		put(d, LNLIB_UV_create(U.u, U.v)); put(d, LNLIB_UV_get_u(U)); put(d, LNLIB_UV_get_v(U)); put(d, LNLIB_UV_set_u(U, k)); put(d, LNLIB_UV_set_v(U, k)); put(d, LNLIB_UV_add(U, V)); put(d, LNLIB_UV_subtract(U, V)); put(d, LNLIB_UV_negative(U)); put(d, LNLIB_UV_normalize(U)); put(d, LNLIB_UV_scale(U, k)); put(d, LNLIB_UV_divide(U, k)); put(d, LNLIB_UV_length(U)); put(d, LNLIB_UV_sqr_length(U)); put(d, LNLIB_UV_distance(U, V)); put(d, LNLIB_UV_is_zero(U, eps)); put(d, LNLIB_UV_is_unit(U, eps)); put(d, LNLIB_UV_is_almost_equal(U, U, eps)); put(d, LNLIB_UV_is_almost_equal(U, UV_C{ U.u + 1, U.v }, eps)); put(d, LNLIB_UV_dot_product(U, V)); put(d, LNLIB_UV_cross_product(U, V)));
	XYZW p(a, k), q(b, g.uni(0.3, 3));
	XYZW_C P = { p[0], p[1], p[2], p[3] }, Q = { q[0], q[1], q[2], q[3] };
	double nw = g.uni(0.3, 3);
	PAIR("xyzw", put(d, p); put(d, p); put(d, p.ToXYZ(true)); put(d, p.ToXYZ(false)); put(d, 1); put(d, 0); put(d, p + q); put(d, p - q); put(d, p * k); put(d, p / k); put(d, p.Distance(q)); put(d, p[0]); put(d, p[1]); put(d, p[2]); put(d, p[3]); put(d, XYZW(a, nw)),
		put(d, LNLIB_XYZW_create(P.wx, P.wy, P.wz, P.w)); put(d, LNLIB_XYZW_create_from_xyz(A, k)); put(d, LNLIB_XYZW_to_xyz(P, 1)); put(d, LNLIB_XYZW_to_xyz(P, 0)); put(d, LNLIB_XYZW_is_almost_equal(P, P, eps)); put(d, LNLIB_XYZW_is_almost_equal(P, XYZW_C{ P.wx, P.wy, P.wz, P.w + 1 }, eps)); put(d, LNLIB_XYZW_add(P, Q)); put(d, LNLIB_XYZW_subtract(P, Q)); put(d, LNLIB_XYZW_multiply(P, k)); put(d, LNLIB_XYZW_divide(P, k)); put(d, LNLIB_XYZW_distance(P, Q)); put(d, LNLIB_XYZW_get_wx(P)); put(d, LNLIB_XYZW_get_wy(P)); put(d, LNLIB_XYZW_get_wz(P)); put(d, LNLIB_XYZW_get_w(P)); put(d, LNLIB_XYZW_set_w(P, nw)));
	// matrices
	Matrix4d m(g.uni(-2, 2), g.uni(-2, 2), g.uni(-2, 2), g.uni(-2, 2), g.uni(-2, 2), g.uni(-2, 2), g.uni(-2, 2), g.uni(-2, 2), g.uni(-2, 2), g.uni(-2, 2), g.uni(-2, 2), g.uni(-2, 2), 0, 0, 0, 1), m2 = Matrix4d::CreateRotation(z, k);
	if (g.chance(0.2)) m = Matrix4d::CreateTranslation(a);
	if (g.chance(0.1)) m = Matrix4d();
	Matrix4d_C M = cm(m), M2 = cm(m2);
	VALUE("matrix_create", Matrix4d(), LNLIB_MATRIX_create());
	VALUE("matrix_from_xyz", Matrix4d(a, b, z, near), LNLIB_MATRIX_create_from_xyz(A, B, cx(z), cx(near)));
	VALUE("matrix_translation", Matrix4d::CreateTranslation(a), LNLIB_MATRIX_create_translation(A));
	VALUE("matrix_rotation", Matrix4d::CreateRotation(a, k), LNLIB_MATRIX_create_rotation(A, k));
	VALUE("matrix_rotation_at", Matrix4d::CreateRotationAtPoint(a, b, k), LNLIB_MATRIX_create_rotation_at_point(A, B, k));
	VALUE("matrix_scale", Matrix4d::CreateScale(a), LNLIB_MATRIX_create_scale(A));
	VALUE("matrix_reflection", Matrix4d::CreateReflection(a), LNLIB_MATRIX_create_reflection(A));
	VALUE("matrix_reflection_at", Matrix4d::CreateReflection(a, k), LNLIB_MATRIX_create_reflection_by_distance(A, k));
	PAIR("matrix_basis", put(d, m.GetBasisX()); put(d, m.GetBasisY()); put(d, m.GetBasisZ()); put(d, m.GetBasisW()), put(d, LNLIB_MATRIX_get_basis_x(M)); put(d, LNLIB_MATRIX_get_basis_y(M)); put(d, LNLIB_MATRIX_get_basis_z(M)); put(d, LNLIB_MATRIX_get_basis_w(M)));
	PAIR("matrix_set_basis", Matrix4d t = m; t.SetBasisX(a); put(d, t); t = m; t.SetBasisY(a); put(d, t); t = m; t.SetBasisZ(a); put(d, t); t = m; t.SetBasisW(a); put(d, t), put(d, LNLIB_MATRIX_set_basis_x(M, A)); put(d, LNLIB_MATRIX_set_basis_y(M, A)); put(d, LNLIB_MATRIX_set_basis_z(M, A)); put(d, LNLIB_MATRIX_set_basis_w(M, A)));
	VALUE("matrix_of_point", m.OfPoint(a), LNLIB_MATRIX_of_point(M, A));
	VALUE("matrix_of_vector", m.OfVector(a), LNLIB_MATRIX_of_vector(M, A));
	VALUE("matrix_multiply", m.Multiply(m2), LNLIB_MATRIX_multiply(M, M2));
	PAIR("matrix_inverse", Matrix4d r; bool ok = m.GetInverse(r); put(d, (int)ok); if (ok) put(d, r), Matrix4d_C r; int ok = LNLIB_MATRIX_get_inverse(M, &r); put(d, (int)(ok != 0)); if (ok) put(d, r));
	VALUE("matrix_transpose", m.GetTranspose(), LNLIB_MATRIX_get_transpose(M));
	VALUE("matrix_get_scale", m.GetScale(), LNLIB_MATRIX_get_scale(M));
	VALUE("matrix_determinant", m.GetDeterminant(), LNLIB_MATRIX_get_determinant(M));
	PAIR("matrix_is", put(d, (int)m.IsIdentity()); put(d, (int)m.HasReflection()); put(d, (int)m.IsTranslation()), put(d, LNLIB_MATRIX_is_identity(M)); put(d, LNLIB_MATRIX_has_reflection(M)); put(d, LNLIB_MATRIX_is_translation(M)));
	// polynomials and knots
	LN_NurbsCurve c = curveFor(ctx, 5);
	const Knots& K = c.KnotVector;
	int n = c.Degree, kn = (int)K.size();
	double t = genParam(ctx, c), x = g.uni();
	int span = Polynomials::GetKnotSpanIndex(n, K, t);
	VALUE("poly_span", span, LNLIB_POLY_get_knot_span_index(n, K.data(), kn, t));
	VALUE("poly_multiplicity", Polynomials::GetKnotMultiplicity(K, t), LNLIB_POLY_get_knot_multiplicity(K.data(), kn, t));
	int bi = g.irange(0, n);
	VALUE("poly_bernstein", Polynomials::Bernstein(bi, n, x), LNLIB_POLY_bernstein(bi, n, x));
	PAIR("poly_all_bernstein", put(d, Polynomials::AllBernstein(n, x)), std::vector<double> o(n + 1, FILL); LNLIB_POLY_all_bernstein(n, x, o.data()); put(d, o));
	std::vector<double> co;
	for (int i = 0; i <= n; i++) co.push_back(g.uni(-3, 3));
	VALUE("poly_horner", Polynomials::Horner(n, co, x), LNLIB_POLY_horner(n, co.data(), n + 1, x));
	{
		int pu = g.irange(1, 4), pv = g.irange(1, 4);
		std::vector<std::vector<double>> cc(pu + 1);
		std::vector<double> fl;
		for (auto& r : cc) for (int j = 0; j <= pv; j++) { r.push_back(g.uni(-3, 3)); fl.push_back(r.back()); }
		std::vector<double> ex(fl.begin(), fl.end());
		UV w(g.uni(), g.uni());
		UV_C wc = cu(w);
		PAIR("poly_horner_uv", UV w2 = w; put(d, Polynomials::Horner(pu, pv, cc, w2)), double o = FILL; LNLIB_POLY_horner_uv(pu, pv, ex.data(), &wc, &o); put(d, o));
	}
	PAIR("poly_basis", double o[Constants::NURBSMaxDegree + 1]; Polynomials::BasisFunctions(span, n, K, t, o); for (int i = 0; i <= n; i++) put(d, o[i]), double o[Constants::NURBSMaxDegree + 1]; LNLIB_POLY_basis_functions(span, n, K.data(), kn, t, o); for (int i = 0; i <= n; i++) put(d, o[i]));
	int dv = g.irange(0, n);
	PAIR("poly_basis_derivatives", flat(d, Polynomials::BasisFunctionsDerivatives(span, n, dv, K, t)), double* o = nullptr; int r = -1; int s = -1; LNLIB_POLY_basis_functions_derivatives(span, n, dv, K.data(), kn, t, &o, &r, &s); put(d, r); put(d, s); for (int i = 0; i < r * s; i++) put(d, o[i]); delete[] o);
	PAIR("poly_first_derivative", double o[2][Constants::NURBSMaxDegree + 1]; Polynomials::BasisFunctionsFirstOrderDerivative(span, n, K, t, o); for (int r = 0; r < 2; r++) for (int i = 0; i <= Constants::NURBSMaxDegree; i++) put(d, i <= n ? o[r][i] : 0.0), std::vector<double> o(2 * (Constants::NURBSMaxDegree + 1), FILL); LNLIB_POLY_basis_functions_first_derivative(span, n, K.data(), kn, t, o.data()); for (double q : o) put(d, q));
	int bidx = g.irange(0, kn - n - 2);
	VALUE("poly_one_basis", Polynomials::OneBasisFunction(bidx, n, K, t), LNLIB_POLY_one_basis_function(bidx, n, K.data(), kn, t));
	PAIR("poly_one_derivative", put(d, Polynomials::OneBasisFunctionDerivative(bidx, n, dv, K, t)), double* o = nullptr; int s = -1; LNLIB_POLY_one_basis_function_derivative(bidx, n, dv, K.data(), kn, t, &o, &s); putN(d, o, s); delete[] o);
	PAIR("poly_all_basis", flat(d, Polynomials::AllBasisFunctions(span, n, K, t)), double* o = nullptr; int r = -1; int s = -1; LNLIB_POLY_all_basis_functions(span, n, K.data(), kn, t, &o, &r, &s); put(d, r); put(d, s); for (int i = 0; i < r * s; i++) put(d, o[i]); delete[] o);
	auto b2p = Polynomials::BezierToPowerMatrix(n);
	PAIR("poly_to_power", flat(d, b2p), double* o = nullptr; int r = -1; int s = -1; LNLIB_POLY_bezier_to_power_matrix(n, &o, &r, &s); put(d, r); put(d, s); for (int i = 0; i < r * s; i++) put(d, o[i]); delete[] o);
	std::vector<double> fl;
	for (auto& r : b2p) fl.insert(fl.end(), r.begin(), r.end());
	PAIR("poly_to_bezier", flat(d, Polynomials::PowerToBezierMatrix(n, b2p)), double* o = nullptr; int r = -1; int s = -1; LNLIB_POLY_power_to_bezier_matrix(n, fl.data(), &o, &r, &s); put(d, r); put(d, s); for (int i = 0; i < r * s; i++) put(d, o[i]); delete[] o);
	auto in = innerKnots(n, K);
	if (!in.empty()) VALUE("kv_continuity", KnotVectorUtils::GetContinuity(n, K, in[0]), LNLIB_KV_get_continuity(n, K.data(), kn, in[0]));
	PAIR("kv_rescale", put(d, KnotVectorUtils::Rescale(K, -k, k)), std::vector<double> o(kn, FILL); LNLIB_KV_rescale(K.data(), kn, -k, k, o.data()); put(d, o));
	VALUE("kv_uniform", (int)KnotVectorUtils::IsUniform(K), LNLIB_KV_is_uniform(K.data(), kn));
	auto mp = KnotVectorUtils::GetKnotMultiplicityMap(K), ip = KnotVectorUtils::GetInternalKnotMultiplicityMap(K);
	PAIR("kv_map", put(d, (int)mp.size()); for (auto& e : mp) { put(d, e.first); put(d, e.second); }, std::vector<double> o(mp.size(), FILL); std::vector<int> w(mp.size(), -1); int s = -1; LNLIB_KV_get_knot_multiplicity_map(K.data(), kn, &s, o.data(), w.data()); put(d, s); for (int i = 0; i < s; i++) { put(d, o[i]); put(d, w[i]); });
	PAIR("kv_internal_map", put(d, (int)ip.size()); for (auto& e : ip) { put(d, e.first); put(d, e.second); }, std::vector<double> o(ip.size(), FILL); std::vector<int> w(ip.size(), -1); int s = -1; LNLIB_KV_get_internal_knot_multiplicity_map(K.data(), kn, &s, o.data(), w.data()); put(d, s); for (int i = 0; i < s; i++) { put(d, o[i]); put(d, w[i]); });
	VALUE("valid_knots", (int)ValidationUtils::IsValidKnotVector(K), LNLIB_VALID_is_valid_knotVector(K.data(), kn));
	int cpn = g.irange(0, 9), dg = g.irange(0, 5), kc = g.irange(0, 14);
	VALUE("valid_bezier", (int)ValidationUtils::IsValidBezier(dg, cpn), LNLIB_VALID_is_valid_bezier(dg, cpn));
	VALUE("valid_bspline", (int)ValidationUtils::IsValidBspline(dg, kc, cpn), LNLIB_VALID_is_valid_bspline(dg, kc, cpn));
	VALUE("valid_nurbs", (int)ValidationUtils::IsValidNurbs(dg, kc, cpn), LNLIB_VALID_is_valid_nurbs(dg, kc, cpn));
	CC C(c);
	VALUE("modify_tolerance", ValidationUtils::ComputeCurveModifyTolerance(c.ControlPoints), LNLIB_VALID_compute_curve_modify_tolerance(C.p.data(), (int)C.p.size()));
	// Bezier curves
	std::vector<XYZ> bp = pathFor(g, n + 1);
	auto bc = cx(bp);
	std::vector<XYZW> bw;
	std::vector<XYZW_C> bwc;
	bwc.reserve(n + 1);
	for (auto& e : bp) { XYZW w(e, g.uni(0.4, 2)); bw.push_back(w); bwc.push_back({ w[0], w[1], w[2], w[3] }); }
	LN_BezierCurve<XYZ> bz{ n, bp };
	LN_BezierCurve<XYZW> bzw{ n, bw };
	VALUE("bezier_bernstein", BezierCurve::GetPointOnCurveByBernstein(bz, x), LNLIB_BEZIERCUR_get_point_on_curve_by_bernstein(n, bc.data(), n + 1, x));
	VALUE("bezier_rational_bernstein", BezierCurve::GetPointOnCurveByBernstein(bzw, x), LNLIB_BEZIERCUR_get_rational_point_on_curve_by_bernstein(n, bwc.data(), n + 1, x));
	VALUE("bezier_deCasteljau", BezierCurve::GetPointOnCurveByDeCasteljau(bz, x), LNLIB_BEZIERCUR_get_point_on_curve_by_deCasteljau(n, bc.data(), n + 1, x));
	VALUE("bezier_rational_deCasteljau", BezierCurve::GetPointOnCurveByDeCasteljau(bzw, x), LNLIB_BEZIERCUR_get_rational_point_on_curve_by_deCasteljau(n, bwc.data(), n + 1, x));
}
// chains of calls where each takes the last result as it came out of the API, and threads that each
// keep their own results
SCENARIO(lifetime, 2)
{
	Rng& g = ctx.rng;
	int T = g.chance(0.3) ? g.irange(2, 4) : 1;
	ctx.bucket("threads", T);
	std::vector<LN_NurbsCurve> start;
	for (int t = 0; t < T; t++) start.push_back(curveFor(ctx, 3));
	std::vector<uint64_t> seeds;
	for (int t = 0; t < T; t++) seeds.push_back(g.next());
	std::vector<std::string> bad(T);
	std::vector<long> steps(T, 0);
	auto body = [&](int t)
	{
		Rng r(seeds[t]);
		LN_NurbsCurve c = start[t];
		CC C(c);
		LN_NurbsCurve_C k = C.c;
		for (int s = 0; s < 8 && bad[t].empty(); s++)
		{
			LN_NurbsCurve n;
			double x = lo(c) + (hi(c) - lo(c)) * r.uni(0.1, 0.9);
			int op = r.irange(0, 6);
			try
			{
				if (op == 0) { NurbsCurve::InsertKnot(c, x, 1, n); LNLIB_NURBSCUR_insert_knot(k, x, 1, &k); }
				else if (op == 1) { NurbsCurve::Reverse(c, n); LNLIB_NURBSCUR_reverse(k, &k); }
				else if (op == 2) { NurbsCurve::Reparametrize(c, 0, 2, n); LNLIB_NURBSCUR_reparametrize(k, 0, 2, &k); }
				else if (op == 3 && c.Degree < 5) { NurbsCurve::ElevateDegree(c, 1, n); LNLIB_NURBSCUR_elevate_degree(k, 1, &k); }
				else if (op == 4)
				{
					LN_NurbsCurve b;
					LN_NurbsCurve_C l, q;
					bool ok = NurbsCurve::SplitAt(c, x, n, b);
					int okc = LNLIB_NURBSCUR_split_at(k, x, &l, &q);
					if (ok != (okc != 0)) { bad[t] = "split_at: another verdict"; break; }
					if (!ok) continue;
					bool left = r.chance(0.5);
					if (!left) n = b;
					k = left ? l : q;
				}
				else if (op == 5)
				{
					auto v = NurbsCurve::DecomposeToBeziers(c);
					std::vector<LN_NurbsCurve_C> o(v.size());
					int m = LNLIB_NURBSCUR_decompose_to_beziers(k, o.data(), (int)v.size());
					if (m != (int)v.size()) { bad[t] = "decompose: another count"; break; }
					int w = r.irange(0, m - 1);
					n = v[w];
					k = o[w];
				}
				else continue;
			}
			catch (std::exception& e) { bad[t] = std::string("refused: ") + e.what(); break; }
			c = n;
			D d0, d1;
			put(d0, c); put(d1, k);
			if (!same(d0, d1)) bad[t] = strf("step %d op %d: C %s, C++ %s", s, op, show(d1).c_str(), show(d0).c_str());
			steps[t]++;
		}
	};
	if (T == 1) body(0);
	else
	{
		std::vector<std::thread> th;
		for (int t = 0; t < T; t++) th.emplace_back(body, t);
		for (auto& x : th) x.join();
	}
	for (int t = 0; t < T; t++)
	{
		ctx.count("chained-calls", steps[t]);
		ctx.check(bad[t].empty(), "c-chain", bad[t]);
	}
}
// recorded finding: the C signature has no number of points
PROBE(wcls_points)
{
	std::vector<XYZ> pts;
	for (int i = 0; i < 12; i++) pts.push_back(XYZ(i, i * i * 0.1, 0));
	std::vector<double> w(12, 1.0);
	LN_NurbsCurve r;
	bool ok = NurbsCurve::WeightedAndContrainedLeastSquaresApproximation(3, pts, w, {}, {}, {}, 6, r);
	auto c = cx(pts);
	LN_NurbsCurve_C q = noCurve();
	int okc = LNLIB_NURBSCUR_weighted_constrained_least_squares(3, c.data(), w.data(), nullptr, nullptr, nullptr, 0, 6, &q);
	D a, b;
	curveOut(a, ok, r);
	curveOut(b, okc, q);
	ctx.check(same(a, b), "c-equals-cpp", "weighted_constrained_least_squares fits only the first control_point_count points");
}
#include "main.inc"
