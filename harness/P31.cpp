// P31: invalid arguments are refused with an exception, without undefined behaviour and without side effects;
// what lies on the edge of validity is accepted
#include "surf.hpp"
#include "vol.hpp"
#include "KnotVectorUtils.h"
#include "Polynomials.h"
#include "Intersection.h"
#include "Interpolation.h"
#include "BezierCurve.h"
#include "BezierSurface.h"
#include "BsplineCurve.h"
#include "BsplineSurface.h"
#include "ValidationUtils.h"
using namespace H;

static const double NANV = std::numeric_limits<double>::quiet_NaN();
static const double INF = std::numeric_limits<double>::infinity();

// outcome of a call: 0 returned, 1 refused with a logic_error, 2 some other exception
static int outcome(const std::function<void()>& f, std::string& what)
{
	try { f(); return 0; }
	catch (const std::logic_error& e) { what = e.what(); return 1; }
	catch (const std::exception& e) { what = e.what(); return 2; }
}
static void refused(Ctx& ctx, const char* call, const std::function<void()>& f)
{
	std::string w;
	int r = outcome(f, w);
	ctx.bucket("refused call", call);
	ctx.check(r != 0, "invalid-accepted", strf("%s returned", call));
	ctx.check(r == 1, "refusal-kind", strf("%s threw something else: %s", call, w.c_str()));
	ctx.check(!w.empty(), "refusal-message", strf("%s: empty message", call));
}
static void accepted(Ctx& ctx, const char* call, const std::function<void()>& f)
{
	std::string w;
	int r = outcome(f, w);
	ctx.bucket("accepted call", call);
	ctx.check(r == 0, "valid-refused", strf("%s threw: %s", call, w.c_str()));
}
static LN_NurbsCurve curve(Ctx& ctx, int minP = 1)
{
	CurveOpt o;
	o.minP = minP; o.maxP = 5; o.maxInterior = 4; o.maxWeightMode = 1; o.simpleDomain = true;
	return genCurve(ctx, o);
}
static LN_NurbsSurface surface(Ctx& ctx)
{
	SurfOpt o;
	o.maxP = 3; o.maxInterior = 3; o.maxWeightMode = 1; o.simpleDomain = true;
	return genSurface(ctx, o);
}
// a parameter outside [a,b]
static double outside(Ctx& ctx, double a, double b)
{
	Rng& g = ctx.rng;
	int k = g.irange(0, 6);
	double d = k < 2 ? g.logu(3e-6, 1e-4) * (1 + std::max(fabs(a), fabs(b))) : k < 4 ? g.logu(1e-3, 10) : k == 4 ? g.logu(10, 1e8) : k == 5 ? INF : NANV;
	ctx.bucket("outside by", k < 2 ? "hair" : k < 4 ? "some" : k == 4 ? "much" : k == 5 ? "infinity" : "NaN");
	double t = g.chance(0.5) ? a - d : b + d;
	ctx.note(strf("outside parameter %.17g of [%.17g, %.17g]", t, a, b));
	return t;
}

// ---- curve parameters ---------------------------------------------------------------
SCENARIO(curve_param, 4)
{
	Rng& g = ctx.rng;
	LN_NurbsCurve c = curve(ctx), c0 = c;
	ctx.nontrivial = true;
	double a = c.KnotVector.front(), b = c.KnotVector.back();
	double t = outside(ctx, a, b);
	LN_NurbsCurve out = curve(ctx), out0 = out;
	double in = a + (b - a) * g.uni(0.2, 0.5), in2 = a + (b - a) * g.uni(0.6, 0.8);
	int n = c.ControlPoints.size();
	int mi = g.irange(0, n - 1);
	refused(ctx, "NurbsCurve::GetPointOnCurve", [&] { NurbsCurve::GetPointOnCurve(c, t); });
	refused(ctx, "NurbsCurve::GetPointOnCurveByCornerCut", [&] { NurbsCurve::GetPointOnCurveByCornerCut(c, t); });
	refused(ctx, "NurbsCurve::ComputeRationalCurveDerivatives", [&] { NurbsCurve::ComputeRationalCurveDerivatives(c, g.irange(1, 3), t); });
	refused(ctx, "NurbsCurve::CanComputeDerivative", [&] { NurbsCurve::CanComputeDerivative(c, t); });
	refused(ctx, "NurbsCurve::Curvature", [&] { NurbsCurve::Curvature(c, t); });
	refused(ctx, "NurbsCurve::Torsion", [&] { NurbsCurve::Torsion(c, t); });
	refused(ctx, "NurbsCurve::Normal", [&] { NurbsCurve::Normal(c, g.chance(0.5) ? CurveNormal::Normal : CurveNormal::Binormal, t); });
	refused(ctx, "NurbsCurve::RemoveKnot knot", [&] { NurbsCurve::RemoveKnot(c, t, 1, out); });
	refused(ctx, "NurbsCurve::Extract start", [&] { NurbsCurve::Extract(c, t, in, out); });
	refused(ctx, "NurbsCurve::Extract end", [&] { NurbsCurve::Extract(c, in, t, out); });
	refused(ctx, "NurbsCurve::ControlPointReposition parameter", [&] { NurbsCurve::ControlPointReposition(c, t, mi, XYZ(0, 0, 1), 1.0, out); });
	refused(ctx, "NurbsCurve::WeightModification parameter", [&] { NurbsCurve::WeightModification(c, t, mi, 1.0, out); });
	refused(ctx, "NurbsCurve::NeighborWeightsModification parameter", [&] { NurbsCurve::NeighborWeightsModification(c, t, std::min(mi, n - 2), 1.0, 0.5, out); });
	std::vector<double> shape(n, 1.0);
	refused(ctx, "NurbsCurve::Warping start", [&] { NurbsCurve::Warping(c, shape, 1.0, XYZ(0, 0, 1), t, in, out); });
	refused(ctx, "NurbsCurve::Warping end", [&] { NurbsCurve::Warping(c, shape, 1.0, XYZ(0, 0, 1), in, t, out); });
	refused(ctx, "NurbsCurve::Flattening start", [&] { NurbsCurve::Flattening(c, XYZ(0, 0, 0), XYZ(1, 0, 0), t, in, out); });
	refused(ctx, "NurbsCurve::Flattening end", [&] { NurbsCurve::Flattening(c, XYZ(0, 0, 0), XYZ(1, 0, 0), in, t, out); });
	refused(ctx, "NurbsCurve::Bending start", [&] { NurbsCurve::Bending(c, t, in, XYZ(0, 0, 0), 1.0, 0.5, out); });
	refused(ctx, "NurbsCurve::Bending end", [&] { NurbsCurve::Bending(c, in, t, XYZ(0, 0, 0), 1.0, 0.5, out); });
	refused(ctx, "Polynomials::GetKnotSpanIndex", [&] { Polynomials::GetKnotSpanIndex(c.Degree, c.KnotVector, t); });
	refused(ctx, "Polynomials::GetKnotMultiplicity", [&] { Polynomials::GetKnotMultiplicity(c.KnotVector, t); });
	double buf[Constants::NURBSMaxDegree + 1], buf2[2][Constants::NURBSMaxDegree + 1];
	int sp = g.irange(c.Degree, n - 1);
	refused(ctx, "Polynomials::BasisFunctions", [&] { Polynomials::BasisFunctions(sp, c.Degree, c.KnotVector, t, buf); });
	refused(ctx, "Polynomials::BasisFunctionsDerivatives", [&] { Polynomials::BasisFunctionsDerivatives(sp, c.Degree, 1, c.KnotVector, t); });
	refused(ctx, "Polynomials::BasisFunctionsFirstOrderDerivative", [&] { Polynomials::BasisFunctionsFirstOrderDerivative(sp, c.Degree, c.KnotVector, t, buf2); });
	refused(ctx, "Polynomials::OneBasisFunction", [&] { Polynomials::OneBasisFunction(g.irange(0, n - 1), c.Degree, c.KnotVector, t); });
	refused(ctx, "Polynomials::OneBasisFunctionDerivative", [&] { Polynomials::OneBasisFunctionDerivative(g.irange(0, n - 1), c.Degree, 1, c.KnotVector, t); });
	refused(ctx, "Polynomials::AllBasisFunctions", [&] { Polynomials::AllBasisFunctions(sp, c.Degree, c.KnotVector, t); });
	LN_BsplineCurve<XYZ> bs;
	bs.Degree = c.Degree; bs.KnotVector = c.KnotVector;
	for (auto& p : c.ControlPoints) bs.ControlPoints.push_back(const_cast<XYZW&>(p).ToXYZ(true));
	refused(ctx, "BsplineCurve::GetPointOnCurve", [&] { BsplineCurve::GetPointOnCurve(bs, t); });
	refused(ctx, "BsplineCurve::ComputeDerivatives", [&] { BsplineCurve::ComputeDerivatives(bs, 1, t); });
	refused(ctx, "BsplineCurve::ComputeDerivativesByAllBasisFunctions", [&] { BsplineCurve::ComputeDerivativesByAllBasisFunctions(bs, 1, t); });
	(void)in2;
	ctx.check(identical(c, c0), "input-untouched", "a refused call changed the curve");
	ctx.check(identical(out, out0), "output-untouched", "a refused call changed its output");
}
// parameters which rounding carried just outside the domain are taken as the end
SCENARIO(curve_edge, 3)
{
	Rng& g = ctx.rng;
	CurveOpt o;
	o.maxP = 5; o.maxInterior = 4; o.maxWeightMode = 1; o.simpleDomain = true; o.minGap = 0.1;
	LN_NurbsCurve c = genCurve(ctx, o);
	ctx.nontrivial = true;
	double a = c.KnotVector.front(), b = c.KnotVector.back();
	bool end = g.chance(0.5);
	double d = g.chance(0.3) ? 0 : g.logu(1e-15, 0.9e-6);
	double t = end ? b + d : a - d;
	ctx.note(strf("edge parameter %.17g of [%.17g, %.17g]", t, a, b));
	XYZ P;
	accepted(ctx, "NurbsCurve::GetPointOnCurve at the edge", [&] { P = NurbsCurve::GetPointOnCurve(c, t); });
	int sp = end ? refSpanLeft(c.Degree, c.KnotVector, b) : refSpan(c.Degree, c.KnotVector, a);
	auto D = refDers(c, end ? b : a, 1, sp);
	ld tol = 1e-9L * (1 + maxAbs(c)) * weightRatio(c) + 10 * (ld)d * D[1].len();
	nearPt(ctx, V3(P), D[0], tol + 1e-8L * maxAbs(c), "edge-point", strf("at %.17g", t));
	if (c.Degree >= 1)
	{
		std::vector<XYZ> E;
		accepted(ctx, "NurbsCurve::ComputeRationalCurveDerivatives at the edge", [&] { E = NurbsCurve::ComputeRationalCurveDerivatives(c, 1, t); });
		auto D2 = refDers(c, end ? b : a, 2, sp);
		nearPt(ctx, V3(E[1]), D[1], 1e-7L * (D[1].len() + maxAbs(c)) * weightRatio(c) + 100 * (ld)d * D2[2].len() + 1e-3L * (ld)d * maxAbs(c), "edge-derivative", strf("at %.17g", t));
	}
	double s = Polynomials::GetKnotSpanIndex(c.Degree, c.KnotVector, t);
	ctx.check(s == sp, "edge-span", strf("span %g, not %d", s, sp));
}
// ---- numbers and directions ------------------------------------------------------------
SCENARIO(curve_numbers, 4)
{
	Rng& g = ctx.rng;
	LN_NurbsCurve c = curve(ctx), c0 = c;
	ctx.nontrivial = true;
	double a = c.KnotVector.front(), b = c.KnotVector.back();
	int n = c.ControlPoints.size();
	LN_NurbsCurve out = curve(ctx), out0 = out;
	double in = a + (b - a) * g.uni(0.2, 0.5), in2 = a + (b - a) * g.uni(0.6, 0.8);
	int zero = g.chance(0.5) ? 0 : -g.irange(1, 1000);
	double tiny = g.chance(0.5) ? 0 : g.uni(-5e-7, 5e-7);
	double nonpos = g.chance(0.5) ? tiny : -g.logu(1e-6, 100);
	XYZ Z = g.chance(0.5) ? XYZ(0, 0, 0) : XYZ(g.uni(-1, 1), g.uni(-1, 1), g.uni(-1, 1)) * 1e-8;
	XYZ X(g.uni(1, 2), g.uni(-1, 1), g.uni(-1, 1)), Y(g.uni(-1, 1), g.uni(2, 3), g.uni(-1, 1));
	XYZ p = genPoint(g, 5);
	int bad = g.chance(0.5) ? -g.irange(1, 50) : n + g.irange(0, 50);
	ctx.note(strf("count %d, number %.17g, index %d of %d", zero, nonpos, bad, n));
	refused(ctx, "InsertKnot times", [&] { NurbsCurve::InsertKnot(c, in, zero, out); });
	refused(ctx, "RemoveKnot times", [&] { NurbsCurve::RemoveKnot(c, in, zero, out); });
	refused(ctx, "ElevateDegree times", [&] { NurbsCurve::ElevateDegree(c, zero, out); });
	refused(ctx, "RefineKnotVector nothing", [&] { NurbsCurve::RefineKnotVector(c, {}, out); });
	refused(ctx, "Extract order", [&] { NurbsCurve::Extract(c, in2, in, out); });
	refused(ctx, "Extract empty", [&] { NurbsCurve::Extract(c, in, in, out); });
	refused(ctx, "CreateLine degenerate", [&] { NurbsCurve::CreateLine(p, p + Z, out); });
	refused(ctx, "ControlPointReposition index", [&] { NurbsCurve::ControlPointReposition(c, in, bad, X, 1.0, out); });
	refused(ctx, "ControlPointReposition direction", [&] { NurbsCurve::ControlPointReposition(c, in, 0, Z, 1.0, out); });
	refused(ctx, "ControlPointReposition distance", [&] { NurbsCurve::ControlPointReposition(c, in, 0, X, tiny, out); });
	refused(ctx, "WeightModification index", [&] { NurbsCurve::WeightModification(c, in, bad, 1.0, out); });
	refused(ctx, "WeightModification distance", [&] { NurbsCurve::WeightModification(c, in, 0, tiny, out); });
	refused(ctx, "NeighborWeightsModification index", [&] { NurbsCurve::NeighborWeightsModification(c, in, g.chance(0.3) ? n - 1 : bad, 1.0, 0.5, out); });
	refused(ctx, "NeighborWeightsModification distance", [&] { NurbsCurve::NeighborWeightsModification(c, in, 0, tiny, 0.5, out); });
	refused(ctx, "NeighborWeightsModification scale", [&] { NurbsCurve::NeighborWeightsModification(c, in, 0, 1.0, tiny, out); });
	std::vector<double> shape(n, 1.0), shape2 = shape;
	if (g.chance(0.5)) shape2.push_back(1.0); else shape2.pop_back();
	refused(ctx, "Warping shape", [&] { NurbsCurve::Warping(c, shape2, 1.0, X, in, in2, out); });
	refused(ctx, "Warping distance", [&] { NurbsCurve::Warping(c, shape, tiny, X, in, in2, out); });
	refused(ctx, "Warping normal", [&] { NurbsCurve::Warping(c, shape, 1.0, Z, in, in2, out); });
	refused(ctx, "Warping order", [&] { NurbsCurve::Warping(c, shape, 1.0, X, in2, in, out); });
	refused(ctx, "Warping empty", [&] { NurbsCurve::Warping(c, shape, 1.0, X, in, in, out); });
	refused(ctx, "Flattening line", [&] { NurbsCurve::Flattening(c, p, p + Z, in, in2, out); });
	refused(ctx, "Flattening order", [&] { NurbsCurve::Flattening(c, p, p + X, in2, in, out); });
	refused(ctx, "Bending order", [&] { NurbsCurve::Bending(c, in2, in, p, 1.0, 0.5, out); });
	refused(ctx, "Bending empty", [&] { NurbsCurve::Bending(c, in, in, p, 1.0, 0.5, out); });
	refused(ctx, "ConstraintBasedModification nothing", [&] { NurbsCurve::ConstraintBasedModification(c, {}, { X }, { 0 }, { 0 }, {}, out); });
	refused(ctx, "ConstraintBasedModification no values", [&] { NurbsCurve::ConstraintBasedModification(c, { in }, {}, {}, {}, {}, out); });
	refused(ctx, "ConstraintBasedModification indices", [&] { NurbsCurve::ConstraintBasedModification(c, { in }, { X }, { 0, 0 }, { 0, 0 }, {}, out); });
	refused(ctx, "ConstraintBasedModification degrees", [&] { NurbsCurve::ConstraintBasedModification(c, { in }, { X }, { 0 }, {}, {}, out); });
	{
		double al = g.uni(1, 3), be = g.uni(-1, 1), ga = g.uni(0.5, 1);
		double de = ga * be / al - (g.chance(0.3) ? 0 : g.uni(0.1, 1));
		refused(ctx, "Reparametrize degenerate map", [&] { NurbsCurve::Reparametrize(c, al, be, ga, de, out); });
	}
	refused(ctx, "CreateArc x axis", [&] { NurbsCurve::CreateArc(p, Z, Y, 0, 1, 1, 1, out); });
	refused(ctx, "CreateArc y axis", [&] { NurbsCurve::CreateArc(p, X, Z, 0, 1, 1, 1, out); });
	refused(ctx, "CreateArc angles", [&] { NurbsCurve::CreateArc(p, X, Y, 1, 1 + nonpos, 1, 1, out); });
	refused(ctx, "CreateArc more than a circle", [&] { NurbsCurve::CreateArc(p, X, Y, 0.5, 0.5 + 2 * Constants::Pi + g.logu(1e-4, 10), 1, 1, out); });
	refused(ctx, "CreateArc x radius", [&] { NurbsCurve::CreateArc(p, X, Y, 0, 1, nonpos, 1, out); });
	refused(ctx, "CreateArc y radius", [&] { NurbsCurve::CreateArc(p, X, Y, 0, 1, 1, nonpos, out); });
	{
		XYZ pp; double w;
		refused(ctx, "CreateOneConicArc start tangent", [&] { NurbsCurve::CreateOneConicArc(p, Z, p + X, Y, p + Y, pp, w); });
		refused(ctx, "CreateOneConicArc end tangent", [&] { NurbsCurve::CreateOneConicArc(p, Y, p + X, Z, p + Y, pp, w); });
		refused(ctx, "CreateOpenConic start tangent", [&] { NurbsCurve::CreateOpenConic(p, Z, p + X, Y, p + Y, out); });
		refused(ctx, "CreateOpenConic end tangent", [&] { NurbsCurve::CreateOpenConic(p, Y, p + X, Z, p + Y, out); });
		double p0, p1;
		refused(ctx, "ComputeRays first direction", [&] { Intersection::ComputeRays(p, Z, p + X, Y, p0, p1, pp); });
		refused(ctx, "ComputeRays second direction", [&] { Intersection::ComputeRays(p, X, p + Y, Z, p0, p1, pp); });
	}
	refused(ctx, "ComputerRemoveKnotErrorBound index", [&] { NurbsCurve::ComputerRemoveKnotErrorBound(c, g.chance(0.5) ? -g.irange(1, 50) : (int)c.KnotVector.size() + g.irange(0, 50)); });
	{
		std::vector<double> e(3, 0.0), e2(2, 0.0), e0;
		refused(ctx, "RemoveKnotsByGivenBound nothing", [&] { NurbsCurve::RemoveKnotsByGivenBound(c, {}, e0, 1.0, out); });
		refused(ctx, "RemoveKnotsByGivenBound errors", [&] { NurbsCurve::RemoveKnotsByGivenBound(c, { a, in, b }, e2, 1.0, out); });
		refused(ctx, "RemoveKnotsByGivenBound bound", [&] { NurbsCurve::RemoveKnotsByGivenBound(c, { a, in, b }, e, nonpos, out); });
	}
	LN_BsplineCurve<XYZ> bs;
	bs.Degree = c.Degree; bs.KnotVector = c.KnotVector;
	for (auto& q : c.ControlPoints) bs.ControlPoints.push_back(const_cast<XYZW&>(q).ToXYZ(true));
	refused(ctx, "BsplineCurve::ComputeDerivatives order", [&] { BsplineCurve::ComputeDerivatives(bs, zero, in); });
	refused(ctx, "BsplineCurve::ComputeDerivativesByAllBasisFunctions order", [&] { BsplineCurve::ComputeDerivativesByAllBasisFunctions(bs, zero, in); });
	refused(ctx, "BsplineCurve::ComputeControlPointsOfDerivatives order", [&] { BsplineCurve::ComputeControlPointsOfDerivatives(bs, zero, 0, n - 1); });
	refused(ctx, "BsplineCurve::ComputeControlPointsOfDerivatives range", [&] { BsplineCurve::ComputeControlPointsOfDerivatives(bs, 1, g.chance(0.5) ? -1 : n, n - 1); });
	ctx.check(identical(c, c0), "input-untouched", "a refused call changed the curve");
	ctx.check(identical(out, out0), "output-untouched", "a refused call changed its output");
}
// ---- point lists -----------------------------------------------------------------------
SCENARIO(point_lists, 4)
{
	Rng& g = ctx.rng;
	LN_NurbsCurve out = curve(ctx), out0 = out;
	LN_NurbsSurface so = surface(ctx), so0 = so;
	ctx.nontrivial = true;
	int n = g.irange(4, 12);
	std::vector<XYZ> P, T;
	for (int i = 0; i < n; i++) { P.push_back(XYZ(i, g.uni(-1, 1), g.uni(-1, 1))); T.push_back(XYZ(1, g.uni(-1, 1), 0)); }
	auto P0 = P;
	std::vector<XYZ> T2 = T;
	if (g.chance(0.5)) T2.pop_back(); else T2.push_back(XYZ(1, 0, 0));
	int neg = -g.irange(1, 100), big = Constants::NURBSMaxDegree + g.irange(1, 5);
	double nonpos = g.chance(0.5) ? g.uni(-5e-7, 5e-7) : -g.logu(1e-5, 100);
	std::vector<XYZ> few(P.begin(), P.begin() + 3);
	std::vector<double> prm;
	for (int i = 0; i < n; i++) prm.push_back(i / (n - 1.0));
	auto prm2 = prm;
	if (g.chance(0.5)) prm2.pop_back(); else prm2.push_back(1.0);
	XYZ Z(0, 0, 0), X(1, 0.2, 0.1);
	ctx.note(strf("%d points", n));
	refused(ctx, "CreateCubicHermite few", [&] { NurbsCurve::CreateCubicHermite(few, few, out); });
	refused(ctx, "CreateCubicHermite tangents", [&] { NurbsCurve::CreateCubicHermite(P, T2, out); });
	refused(ctx, "GlobalInterpolation negative degree", [&] { NurbsCurve::GlobalInterpolation(neg, P, out); });
	refused(ctx, "GlobalInterpolation high degree", [&] { std::vector<XYZ> Q; for (int i = 0; i < 20; i++) Q.push_back(XYZ(i, i * i, 0)); NurbsCurve::GlobalInterpolation(big, Q, out); });
	refused(ctx, "GlobalInterpolation few", [&] { NurbsCurve::GlobalInterpolation(3 + g.irange(0, 4), few, out); });
	refused(ctx, "GlobalInterpolation params", [&] { NurbsCurve::GlobalInterpolation(2, P, out, prm2); });
	refused(ctx, "GlobalInterpolation tangents: degree", [&] { NurbsCurve::GlobalInterpolation(g.chance(0.5) ? 0 : neg, P, T, 1.0, out); });
	refused(ctx, "GlobalInterpolation tangents: count", [&] { NurbsCurve::GlobalInterpolation(2, P, T2, 1.0, out); });
	refused(ctx, "GlobalInterpolation tangents: few", [&] { NurbsCurve::GlobalInterpolation(3, few, few, 1.0, out); });
	refused(ctx, "GlobalInterpolation tangents: factor", [&] { NurbsCurve::GlobalInterpolation(2, P, T, nonpos, out); });
	refused(ctx, "CubicLocalInterpolation nothing", [&] { NurbsCurve::CubicLocalInterpolation({}, out); });
	refused(ctx, "LeastSquares degree", [&] { NurbsCurve::LeastSquaresApproximation(g.chance(0.5) ? neg : big, P, 4, out); });
	refused(ctx, "LeastSquares count", [&] { NurbsCurve::LeastSquaresApproximation(2, P, g.chance(0.5) ? 0 : neg, out); });
	refused(ctx, "LeastSquares params", [&] { NurbsCurve::LeastSquaresApproximation(2, P, 4, out, prm2); });
	std::vector<double> W(n, 1.0), W2(n + (g.chance(0.5) ? 1 : -1), 1.0);
	refused(ctx, "Weighted degree", [&] { NurbsCurve::WeightedAndContrainedLeastSquaresApproximation(g.chance(0.5) ? 0 : neg, P, W, {}, {}, {}, 4, out); });
	refused(ctx, "Weighted few", [&] { NurbsCurve::WeightedAndContrainedLeastSquaresApproximation(3, few, { 1, 1, 1 }, {}, {}, {}, 4, out); });
	refused(ctx, "Weighted weights", [&] { NurbsCurve::WeightedAndContrainedLeastSquaresApproximation(2, P, W2, {}, {}, {}, 4, out); });
	refused(ctx, "Weighted tangent indices", [&] { NurbsCurve::WeightedAndContrainedLeastSquaresApproximation(2, P, W, { X }, {}, { 1.0 }, 4, out); });
	refused(ctx, "Weighted tangent weights", [&] { NurbsCurve::WeightedAndContrainedLeastSquaresApproximation(2, P, W, { X }, { 0 }, {}, 4, out); });
	refused(ctx, "Weighted tangent index", [&] { NurbsCurve::WeightedAndContrainedLeastSquaresApproximation(2, P, W, { X }, { g.chance(0.5) ? n : -1 }, { 1.0 }, 4, out); });
	refused(ctx, "ErrorBound degree", [&] { NurbsCurve::GlobalApproximationByErrorBound(g.chance(0.5) ? 0 : neg, P, 0.1, out); });
	refused(ctx, "ErrorBound few", [&] { NurbsCurve::GlobalApproximationByErrorBound(3, few, 0.1, out); });
	refused(ctx, "ErrorBound bound", [&] { NurbsCurve::GlobalApproximationByErrorBound(2, P, nonpos, out); });
	std::vector<XYZW> mid;
	int past = n + g.irange(0, 5);
	refused(ctx, "FitWithConic nothing", [&] { NurbsCurve::FitWithConic({}, 0, 1, X, X, 0.1, mid); });
	refused(ctx, "FitWithConic start", [&] { NurbsCurve::FitWithConic(P, g.chance(0.5) ? -1 : past, n - 1, X, X, 0.1, mid); });
	refused(ctx, "FitWithConic end", [&] { NurbsCurve::FitWithConic(P, 1, g.chance(0.5) ? 1 : past, X, X, 0.1, mid); });
	refused(ctx, "FitWithConic start tangent", [&] { NurbsCurve::FitWithConic(P, 0, n - 1, Z, X, 0.1, mid); });
	refused(ctx, "FitWithConic end tangent", [&] { NurbsCurve::FitWithConic(P, 0, n - 1, X, Z, 0.1, mid); });
	refused(ctx, "FitWithCubic few", [&] { NurbsCurve::FitWithCubic({ P[0], P[1] }, 0, 1, X, X, 0.1, mid); });
	refused(ctx, "FitWithCubic start", [&] { NurbsCurve::FitWithCubic(P, g.chance(0.5) ? -1 : past, n - 1, X, X, 0.1, mid); });
	refused(ctx, "FitWithCubic end", [&] { NurbsCurve::FitWithCubic(P, 1, g.chance(0.5) ? 1 : past, X, X, 0.1, mid); });
	refused(ctx, "FitWithCubic start tangent", [&] { NurbsCurve::FitWithCubic(P, 0, n - 1, Z, X, 0.1, mid); });
	refused(ctx, "FitWithCubic end tangent", [&] { NurbsCurve::FitWithCubic(P, 0, n - 1, X, Z, 0.1, mid); });
	ctx.check(mid.empty(), "output-untouched", "a refused fit delivered control points");
	// nets
	int r = g.irange(3, 6), s = g.irange(3, 6);
	std::vector<std::vector<XYZ>> N(r);
	for (int i = 0; i < r; i++) for (int j = 0; j < s; j++) N[i].push_back(XYZ(i, j, g.uni(-1, 1)));
	refused(ctx, "surface GlobalInterpolation nothing", [&] { NurbsSurface::GlobalInterpolation({}, 2, 2, so); });
	refused(ctx, "surface GlobalInterpolation empty row", [&] { NurbsSurface::GlobalInterpolation({ {} }, 2, 2, so); });
	refused(ctx, "surface GlobalInterpolation degree", [&] { NurbsSurface::GlobalInterpolation(N, neg, 2, so); });
	refused(ctx, "surface GlobalInterpolation degree v", [&] { NurbsSurface::GlobalInterpolation(N, 2, g.chance(0.5) ? neg : big, so); });
	refused(ctx, "surface GlobalInterpolation rows", [&] { NurbsSurface::GlobalInterpolation(N, std::min(r, 7), 2, so); });
	refused(ctx, "surface GlobalInterpolation columns", [&] { NurbsSurface::GlobalInterpolation(N, 2, std::min(s, 7), so); });
	refused(ctx, "BicubicLocalInterpolation nothing", [&] { NurbsSurface::BicubicLocalInterpolation({}, so); });
	refused(ctx, "BicubicLocalInterpolation empty row", [&] { NurbsSurface::BicubicLocalInterpolation({ {} }, so); });
	auto rag = N;
	if (g.chance(0.5)) rag[g.irange(1, r - 1)].pop_back(); else rag[g.irange(1, r - 1)].push_back(XYZ(0, 0, 0));
	refused(ctx, "BicubicLocalInterpolation ragged", [&] { NurbsSurface::BicubicLocalInterpolation(rag, so); });
	refused(ctx, "surface GlobalApproximation nothing", [&] { NurbsSurface::GlobalApproximation({}, 2, 2, 3, 3, so); });
	refused(ctx, "surface GlobalApproximation empty row", [&] { NurbsSurface::GlobalApproximation({ {} }, 2, 2, 3, 3, so); });
	refused(ctx, "surface GlobalApproximation degree", [&] { NurbsSurface::GlobalApproximation(N, g.chance(0.3) ? 0 : g.chance(0.5) ? neg : big, 2, 9, 9, so); });
	refused(ctx, "surface GlobalApproximation degree v", [&] { NurbsSurface::GlobalApproximation(N, 2, g.chance(0.3) ? 0 : g.chance(0.5) ? neg : big, 9, 9, so); });
	refused(ctx, "surface GlobalApproximation rows", [&] { NurbsSurface::GlobalApproximation(N, 2, 2, g.chance(0.5) ? 2 : neg, 3, so); });
	refused(ctx, "surface GlobalApproximation columns", [&] { NurbsSurface::GlobalApproximation(N, 2, 2, 3, g.chance(0.5) ? 2 : neg, so); });
	ctx.check(identical(out, out0), "output-untouched", "a refused call changed the output curve");
	ctx.check(identicalS(so, so0), "output-untouched", "a refused call changed the output surface");
	for (int i = 0; i < n; i++) ctx.check(P[i].GetX() == P0[i].GetX() && P[i].GetY() == P0[i].GetY() && P[i].GetZ() == P0[i].GetZ(), "input-untouched", "points changed");
}
// ---- surface parameters and numbers -------------------------------------------------------
SCENARIO(surface_param, 4)
{
	Rng& g = ctx.rng;
	LN_NurbsSurface s = surface(ctx), s0 = s;
	LN_NurbsSurface out = surface(ctx), out0 = out;
	ctx.nontrivial = true;
	double a = s.KnotVectorU.front(), b = s.KnotVectorU.back(), c = s.KnotVectorV.front(), d = s.KnotVectorV.back();
	bool inU = g.chance(0.5);
	double t = inU ? outside(ctx, a, b) : outside(ctx, c, d);
	ctx.bucket("direction", inU ? "u" : "v");
	double iu = a + (b - a) * g.uni(0.1, 0.9), iv = c + (d - c) * g.uni(0.1, 0.9);
	UV q = inU ? UV(t, iv) : UV(iu, t);
	int zero = g.chance(0.5) ? 0 : -g.irange(1, 1000);
	XYZ A, B, C;
	refused(ctx, "NurbsSurface::GetPointOnSurface", [&] { NurbsSurface::GetPointOnSurface(s, q); });
	refused(ctx, "NurbsSurface::ComputeRationalSurfaceDerivatives", [&] { NurbsSurface::ComputeRationalSurfaceDerivatives(s, g.irange(1, 3), q); });
	refused(ctx, "NurbsSurface::ComputeRationalSurfaceDerivatives order", [&] { NurbsSurface::ComputeRationalSurfaceDerivatives(s, zero, UV(iu, iv)); });
	refused(ctx, "NurbsSurface::ComputeRationalSurfaceFirstOrderDerivative", [&] { NurbsSurface::ComputeRationalSurfaceFirstOrderDerivative(s, q, A, B, C); });
	SurfaceCurvature k = g.pick(std::vector<SurfaceCurvature>{ SurfaceCurvature::Gauss, SurfaceCurvature::Mean, SurfaceCurvature::Maximum, SurfaceCurvature::Minimum });
	refused(ctx, "NurbsSurface::Curvature", [&] { NurbsSurface::Curvature(s, k, q); });
	refused(ctx, "NurbsSurface::Normal", [&] { NurbsSurface::Normal(s, q); });
	refused(ctx, "NurbsSurface::RemoveKnot knot", [&] { NurbsSurface::RemoveKnot(s, t, 1, inU, out); });
	refused(ctx, "NurbsSurface::RemoveKnot times", [&] { NurbsSurface::RemoveKnot(s, inU ? iu : iv, zero, inU, out); });
	refused(ctx, "NurbsSurface::ElevateDegree times", [&] { NurbsSurface::ElevateDegree(s, zero, inU, out); });
	refused(ctx, "NurbsSurface::RefineKnotVector nothing", [&] { NurbsSurface::RefineKnotVector(s, {}, inU, out); });
	LN_BsplineSurface<XYZ> bs;
	bs.DegreeU = s.DegreeU; bs.DegreeV = s.DegreeV; bs.KnotVectorU = s.KnotVectorU; bs.KnotVectorV = s.KnotVectorV;
	for (auto& row : s.ControlPoints) { bs.ControlPoints.push_back({}); for (auto& p : row) bs.ControlPoints.back().push_back(const_cast<XYZW&>(p).ToXYZ(true)); }
	int n = s.ControlPoints.size(), m = s.ControlPoints[0].size();
	refused(ctx, "BsplineSurface::GetPointOnSurface", [&] { BsplineSurface::GetPointOnSurface(bs, q); });
	refused(ctx, "BsplineSurface::ComputeDerivatives", [&] { BsplineSurface::ComputeDerivatives(bs, 1, q); });
	refused(ctx, "BsplineSurface::ComputeDerivatives order", [&] { BsplineSurface::ComputeDerivatives(bs, zero, UV(iu, iv)); });
	refused(ctx, "BsplineSurface::ComputeFirstOrderDerivative", [&] { XYZ ders[2][2]; BsplineSurface::ComputeFirstOrderDerivative(bs, q, ders); });
	refused(ctx, "BsplineSurface::ComputeDerivativesByAllBasisFunctions", [&] { BsplineSurface::ComputeDerivativesByAllBasisFunctions(bs, 1, q); });
	refused(ctx, "BsplineSurface::ComputeDerivativesByAllBasisFunctions order", [&] { BsplineSurface::ComputeDerivativesByAllBasisFunctions(bs, zero, UV(iu, iv)); });
	refused(ctx, "BsplineSurface::ComputeControlPointsOfDerivatives order", [&] { BsplineSurface::ComputeControlPointsOfDerivatives(bs, zero, 0, n - 1, 0, m - 1, UV(iu, iv)); });
	refused(ctx, "BsplineSurface::ComputeControlPointsOfDerivatives range", [&] { BsplineSurface::ComputeControlPointsOfDerivatives(bs, 1, inU ? -1 : 0, n - 1, inU ? 0 : m, m - 1, UV(iu, iv)); });
	XYZ p = genPoint(g, 5), Z = g.chance(0.5) ? XYZ(0, 0, 0) : XYZ(1e-8, -1e-9, 0), X(1, 0, 0), Y(0, 1, 0);
	double nonpos = g.chance(0.5) ? g.uni(-5e-7, 5e-7) : -g.logu(1e-5, 100);
	refused(ctx, "CreateCylindricalSurface x axis", [&] { NurbsSurface::CreateCylindricalSurface(p, Z, Y, 0, 1, 1, 1, out); });
	refused(ctx, "CreateCylindricalSurface y axis", [&] { NurbsSurface::CreateCylindricalSurface(p, X, Z, 0, 1, 1, 1, out); });
	refused(ctx, "CreateCylindricalSurface angles", [&] { NurbsSurface::CreateCylindricalSurface(p, X, Y, 1, 1 + nonpos, 1, 1, out); });
	refused(ctx, "CreateCylindricalSurface radius", [&] { NurbsSurface::CreateCylindricalSurface(p, X, Y, 0, 1, nonpos, 1, out); });
	refused(ctx, "CreateCylindricalSurface height", [&] { NurbsSurface::CreateCylindricalSurface(p, X, Y, 0, 1, 1, nonpos, out); });
	{
		LN_NurbsCurve pr;
		NurbsCurve::CreateLine(XYZ(1, 0, 0), XYZ(1, 0, 1), pr);
		refused(ctx, "CreateRevolvedSurface axis", [&] { NurbsSurface::CreateRevolvedSurface(p, Z, 1.0, pr, out); });
	}
	ctx.check(identicalS(s, s0), "input-untouched", "a refused call changed the surface");
	ctx.check(identicalS(out, out0), "output-untouched", "a refused call changed its output");
}
SCENARIO(bezier_and_basis, 4)
{
	Rng& g = ctx.rng;
	ctx.nontrivial = true;
	int p = g.irange(1, 6);
	ctx.bucket("degree", p);
	double t = outside(ctx, 0, 1);
	LN_BezierCurve<XYZW> bc;
	bc.Degree = p;
	for (int i = 0; i <= p; i++) bc.ControlPoints.push_back(XYZW(genPoint(g, 5), g.uni(0.5, 2)));
	ctx.cls(strf("p%d", p));
	refused(ctx, "BezierCurve::GetPointOnCurveByBernstein", [&] { BezierCurve::GetPointOnCurveByBernstein(bc, t); });
	refused(ctx, "BezierCurve::GetPointOnCurveByDeCasteljau", [&] { BezierCurve::GetPointOnCurveByDeCasteljau(bc, t); });
	refused(ctx, "BezierCurve::GetPointOnQuadraticArc", [&] { BezierCurve::GetPointOnQuadraticArc(XYZW(0, 0, 0, 1), XYZW(1, 0, 0, 1), XYZW(1, 1, 0, 1), t); });
	LN_BezierSurface<XYZ> bs;
	bs.DegreeU = p; bs.DegreeV = g.irange(1, 5);
	for (int i = 0; i <= bs.DegreeU; i++) { bs.ControlPoints.push_back({}); for (int j = 0; j <= bs.DegreeV; j++) bs.ControlPoints[i].push_back(genPoint(g, 5)); }
	bool inU = g.chance(0.5);
	refused(ctx, "BezierSurface::GetPointOnSurfaceByDeCasteljau", [&] { BezierSurface::GetPointOnSurfaceByDeCasteljau(bs, inU ? UV(t, g.uni()) : UV(g.uni(), t)); });
	accepted(ctx, "BezierCurve::Check", [&] { BezierCurve::Check(bc); });
	accepted(ctx, "BezierSurface::Check", [&] { BezierSurface::Check(bs); });
	{
		auto x = bc; x.Degree = g.chance(0.5) ? 0 : -g.irange(1, 9); if (x.Degree == 0) x.ControlPoints.resize(1);
		refused(ctx, "BezierCurve::Check degree", [&] { BezierCurve::Check(x); });
		x = bc; if (g.chance(0.5)) x.ControlPoints.pop_back(); else x.ControlPoints.push_back(x.ControlPoints[0]);
		refused(ctx, "BezierCurve::Check count", [&] { BezierCurve::Check(x); });
		x = bc; x.ControlPoints.clear();
		refused(ctx, "BezierCurve::Check empty", [&] { BezierCurve::Check(x); });
		auto y = bs; if (inU) y.DegreeU = 0; else y.DegreeV = 0;
		if (inU) y.ControlPoints.resize(1); else for (auto& r : y.ControlPoints) r.resize(1);
		refused(ctx, "BezierSurface::Check degree", [&] { BezierSurface::Check(y); });
		y = bs; y.ControlPoints.clear();
		refused(ctx, "BezierSurface::Check empty", [&] { BezierSurface::Check(y); });
		y = bs; if (g.chance(0.5)) y.ControlPoints.pop_back(); else y.ControlPoints.push_back(y.ControlPoints[0]);
		refused(ctx, "BezierSurface::Check rows", [&] { BezierSurface::Check(y); });
		y = bs; for (auto& r : y.ControlPoints) r.push_back(r[0]);
		refused(ctx, "BezierSurface::Check columns", [&] { BezierSurface::Check(y); });
		y = bs; y.ControlPoints[g.irange(0, (int)y.ControlPoints.size() - 1)].pop_back();
		refused(ctx, "BezierSurface::Check ragged", [&] { BezierSurface::Check(y); });
	}
	int neg = -g.irange(1, 50);
	std::vector<double> co(p + 1, 1.0), co2 = co;
	if (g.chance(0.5)) co2.pop_back(); else co2.push_back(1);
	double in = g.uni();
	refused(ctx, "Horner degree", [&] { Polynomials::Horner(g.chance(0.5) ? 0 : neg, co, in); });
	refused(ctx, "Horner count", [&] { Polynomials::Horner(p, co2, in); });
	refused(ctx, "Bernstein index", [&] { Polynomials::Bernstein(g.chance(0.5) ? neg : p + g.irange(1, 9), p, in); });
	refused(ctx, "Bernstein parameter", [&] { Polynomials::Bernstein(g.irange(0, p), p, t); });
	refused(ctx, "AllBernstein degree", [&] { Polynomials::AllBernstein(neg, in); });
	refused(ctx, "AllBernstein parameter", [&] { Polynomials::AllBernstein(p, t); });
	std::vector<std::vector<double>> cc(p + 1, std::vector<double>(p + 2, 1.0));
	UV ok(in, g.uni()), bad = inU ? UV(t, in) : UV(in, t);
	refused(ctx, "Horner2 parameter", [&] { Polynomials::Horner(p, p + 1, cc, bad); });
	refused(ctx, "Horner2 rows", [&] { Polynomials::Horner(p + 1, p + 1, cc, ok); });
	refused(ctx, "Horner2 columns", [&] { Polynomials::Horner(p, p, cc, ok); });
	refused(ctx, "Horner2 degree", [&] { Polynomials::Horner(inU ? 0 : p, inU ? p + 1 : neg, cc, ok); });
	refused(ctx, "Horner2 empty", [&] { Polynomials::Horner(p, p, {}, ok); });
	// basis functions
	KnotOpt o; o.minGap = 0.05; o.simpleDomain = true;
	Knots U = genKnots(g, p, o);
	ctx.dump("knots", U);
	double x = U.front() + (U.back() - U.front()) * g.uni(0.1, 0.9);
	int sp = refSpan(p, U, x);
	double buf[Constants::NURBSMaxDegree + 1], buf2[2][Constants::NURBSMaxDegree + 1];
	int big = Constants::NURBSMaxDegree + g.irange(1, 4);
	Knots D = U;
	std::swap(D.front(), D.back());
	Knots L(40);
	for (int i = 0; i < 40; i++) L[i] = i;
	refused(ctx, "GetKnotMultiplicity empty", [&] { Polynomials::GetKnotMultiplicity({}, x); });
	refused(ctx, "GetKnotMultiplicity decreasing", [&] { Polynomials::GetKnotMultiplicity(D, x); });
	refused(ctx, "GetKnotSpanIndex degree", [&] { Polynomials::GetKnotSpanIndex(neg, U, x); });
	refused(ctx, "GetKnotSpanIndex empty", [&] { Polynomials::GetKnotSpanIndex(p, {}, x); });
	refused(ctx, "GetKnotSpanIndex decreasing", [&] { Polynomials::GetKnotSpanIndex(p, D, x); });
	refused(ctx, "BasisFunctions span", [&] { Polynomials::BasisFunctions(neg, p, U, x, buf); });
	refused(ctx, "BasisFunctions degree", [&] { Polynomials::BasisFunctions(20, g.chance(0.5) ? neg : big, L, 20.5, buf); });
	refused(ctx, "BasisFunctions empty", [&] { Polynomials::BasisFunctions(sp, p, {}, x, buf); });
	refused(ctx, "BasisFunctions decreasing", [&] { Polynomials::BasisFunctions(sp, p, D, x, buf); });
	refused(ctx, "BasisFunctionsDerivatives span", [&] { Polynomials::BasisFunctionsDerivatives(neg, p, 1, U, x); });
	refused(ctx, "BasisFunctionsDerivatives degree", [&] { Polynomials::BasisFunctionsDerivatives(20, g.chance(0.5) ? neg : big, neg < -25 ? 0 : -1, L, 20.5); });
	refused(ctx, "BasisFunctionsDerivatives order", [&] { Polynomials::BasisFunctionsDerivatives(sp, p, p + g.irange(1, 5), U, x); });
	refused(ctx, "BasisFunctionsDerivatives empty", [&] { Polynomials::BasisFunctionsDerivatives(sp, p, 1, {}, x); });
	refused(ctx, "BasisFunctionsDerivatives decreasing", [&] { Polynomials::BasisFunctionsDerivatives(sp, p, 1, D, x); });
	refused(ctx, "BasisFunctionsFirstOrderDerivative span", [&] { Polynomials::BasisFunctionsFirstOrderDerivative(neg, p, U, x, buf2); });
	refused(ctx, "BasisFunctionsFirstOrderDerivative degree", [&] { Polynomials::BasisFunctionsFirstOrderDerivative(20, g.pick(std::vector<int>{ 0, neg, big }), L, 20.5, buf2); });
	refused(ctx, "BasisFunctionsFirstOrderDerivative empty", [&] { Polynomials::BasisFunctionsFirstOrderDerivative(sp, p, {}, x, buf2); });
	refused(ctx, "OneBasisFunction span", [&] { Polynomials::OneBasisFunction(neg, p, U, x); });
	refused(ctx, "OneBasisFunction degree", [&] { Polynomials::OneBasisFunction(0, g.chance(0.5) ? 0 : neg, U, x); });
	refused(ctx, "OneBasisFunction empty", [&] { Polynomials::OneBasisFunction(0, p, {}, x); });
	refused(ctx, "OneBasisFunctionDerivative span", [&] { Polynomials::OneBasisFunctionDerivative(neg, p, 1, U, x); });
	refused(ctx, "OneBasisFunctionDerivative degree", [&] { Polynomials::OneBasisFunctionDerivative(0, g.chance(0.5) ? 0 : neg, neg, U, x); });
	refused(ctx, "OneBasisFunctionDerivative order", [&] { Polynomials::OneBasisFunctionDerivative(0, p, p + 1, U, x); });
	refused(ctx, "OneBasisFunctionDerivative empty", [&] { Polynomials::OneBasisFunctionDerivative(0, p, 1, {}, x); });
	refused(ctx, "AllBasisFunctions span", [&] { Polynomials::AllBasisFunctions(neg, p, U, x); });
	refused(ctx, "AllBasisFunctions degree", [&] { Polynomials::AllBasisFunctions(20, g.chance(0.5) ? neg : big, L, 20.5); });
	refused(ctx, "AllBasisFunctions empty", [&] { Polynomials::AllBasisFunctions(sp, p, {}, x); });
	refused(ctx, "KnotVectorUtils::GetContinuity degree", [&] { KnotVectorUtils::GetContinuity(g.chance(0.5) ? 0 : neg, U, U[p]); });
	refused(ctx, "KnotVectorUtils::GetInsertedKnotElement degree", [&] { KnotVectorUtils::GetInsertedKnotElement(neg, U, x, x); });
	refused(ctx, "KnotVectorUtils::GetInsertedKnotElement empty", [&] { KnotVectorUtils::GetInsertedKnotElement(p, {}, 0, 1); });
	refused(ctx, "KnotVectorUtils::GetInsertedKnotElement order", [&] { KnotVectorUtils::GetInsertedKnotElement(p, U, x, x - 0.01 * (U.back() - U.front())); });
	refused(ctx, "KnotVectorUtils::GetInsertedKnotElement decreasing", [&] { KnotVectorUtils::GetInsertedKnotElement(p, D, x, x); });
}
// ---- structure: what Check accepts can be evaluated, what is malformed is refused ------------
SCENARIO(structure, 6)
{
	Rng& g = ctx.rng;
	LN_NurbsCurve c = curve(ctx);
	ctx.nontrivial = true;
	accepted(ctx, "NurbsCurve::Check", [&] { NurbsCurve::Check(c); });
	LN_BsplineCurve<XYZ> bs;
	auto b = [&](const LN_NurbsCurve& x) { bs.Degree = x.Degree; bs.KnotVector = x.KnotVector; bs.ControlPoints.assign(x.ControlPoints.size(), XYZ(1, 2, 3)); };
	b(c);
	accepted(ctx, "BsplineCurve::Check", [&] { BsplineCurve::Check(bs); });
	LN_NurbsCurve d = c;
	int k = g.irange(0, 8);
	const char* names[] = { "degree zero", "degree negative", "no knots", "no points", "point missing", "point too many", "knot missing", "knots out of order", "fewer points than the order" };
	ctx.bucket("damage", names[k]);
	switch (k)
	{
	case 0: d.Degree = 0; d.KnotVector.resize(d.ControlPoints.size() + 1); break;
	case 1: d.Degree = -g.irange(1, 3); break;
	case 2: d.KnotVector.clear(); break;
	case 3: d.ControlPoints.clear(); break;
	case 4: d.ControlPoints.pop_back(); break;
	case 5: d.ControlPoints.push_back(d.ControlPoints[0]); break;
	case 6: d.KnotVector.erase(d.KnotVector.begin() + g.irange(0, (int)d.KnotVector.size() - 1)); break;
	case 7: { int i = g.irange(0, (int)d.KnotVector.size() - 1); d.KnotVector[i] += (g.chance(0.5) ? 1 : -1) * (d.KnotVector.back() - d.KnotVector.front()) * 1.5;
		if (std::is_sorted(d.KnotVector.begin(), d.KnotVector.end())) std::swap(d.KnotVector.front(), d.KnotVector.back()); break; }
	default:
		d.Degree = g.irange(2, 7);
		d.ControlPoints.resize(g.irange(1, d.Degree), XYZW(1, 2, 3, 1));
		if ((int)d.ControlPoints.size() > d.Degree) d.ControlPoints.resize(d.Degree);
		d.KnotVector.clear();
		for (size_t i = 0; i < d.ControlPoints.size() + d.Degree + 1; i++) d.KnotVector.push_back((int)i > d.Degree ? 1 : 0);
		std::sort(d.KnotVector.begin(), d.KnotVector.end());
	}
	refused(ctx, "NurbsCurve::Check damaged", [&] { NurbsCurve::Check(d); });
	b(d);
	refused(ctx, "BsplineCurve::Check damaged", [&] { BsplineCurve::Check(bs); });
}
SCENARIO(structure_surface, 6)
{
	Rng& g = ctx.rng;
	LN_NurbsSurface s = surface(ctx);
	ctx.nontrivial = true;
	LN_BsplineSurface<XYZ> bs;
	auto b = [&](const LN_NurbsSurface& x) {
		bs.DegreeU = x.DegreeU; bs.DegreeV = x.DegreeV; bs.KnotVectorU = x.KnotVectorU; bs.KnotVectorV = x.KnotVectorV;
		bs.ControlPoints.clear();
		for (auto& r : x.ControlPoints) bs.ControlPoints.push_back(std::vector<XYZ>(r.size(), XYZ(1, 2, 3)));
	};
	accepted(ctx, "NurbsSurface::Check", [&] { NurbsSurface::Check(s); });
	b(s);
	accepted(ctx, "BsplineSurface::Check", [&] { BsplineSurface::Check(bs); });
	LN_NurbsSurface d = s;
	int k = g.irange(0, 9);
	bool inU = g.chance(0.5);
	int& deg = inU ? d.DegreeU : d.DegreeV;
	Knots& U = inU ? d.KnotVectorU : d.KnotVectorV;
	int n = inU ? d.ControlPoints.size() : d.ControlPoints[0].size();
	const char* names[] = { "degree zero", "degree negative", "no knots", "no points", "points missing", "points too many", "knot missing", "knots out of order", "fewer points than the order", "ragged" };
	ctx.bucket("damage", names[k]);
	ctx.bucket("direction", inU ? "u" : "v");
	auto resize = [&](int m) { if (inU) d.ControlPoints.resize(m, d.ControlPoints[0]); else for (auto& r : d.ControlPoints) r.resize(m, r[0]); };
	switch (k)
	{
	case 0: deg = 0; U.resize(n + 1); break;
	case 1: deg = -g.irange(1, 3); break;
	case 2: U.clear(); break;
	case 3: d.ControlPoints.clear(); break;
	case 4: resize(n - 1); break;
	case 5: resize(n + 1); break;
	case 6: U.erase(U.begin() + g.irange(0, (int)U.size() - 1)); break;
	case 7: { int i = g.irange(0, (int)U.size() - 1); U[i] += (g.chance(0.5) ? 1 : -1) * (U.back() - U.front()) * 1.5;
		if (std::is_sorted(U.begin(), U.end())) std::swap(U.front(), U.back()); break; }
	case 8:
	{
		deg = g.irange(2, 7);
		int m = g.irange(1, deg);
		resize(m);
		U.clear();
		for (int i = 0; i < m + deg + 1; i++) U.push_back(i > deg ? 1 : 0);
		break;
	}
	default:
		auto& r = d.ControlPoints[g.irange(1, (int)d.ControlPoints.size() - 1)];
		if (g.chance(0.5)) r.pop_back(); else r.push_back(r[0]);
	}
	refused(ctx, "NurbsSurface::Check damaged", [&] { NurbsSurface::Check(d); });
	b(d);
	refused(ctx, "BsplineSurface::Check damaged", [&] { BsplineSurface::Check(bs); });
}
// ---- hostile but well-typed data: refused, reported as failed, or answered with a valid object ------
SCENARIO(hostile_points, 6)
{
	Rng& g = ctx.rng;
	ctx.nontrivial = true;
	int n = g.irange(1, 12), mode = g.irange(0, 4);
	const char* names[] = { "generic", "all equal", "repeated neighbours", "collinear", "closed" };
	ctx.bucket("points", names[mode]);
	std::vector<XYZ> P;
	for (int i = 0; i < n; i++)
	{
		if (mode == 1) P.push_back(XYZ(1, 2, 3));
		else if (mode == 2 && i && g.chance(0.4)) P.push_back(P.back());
		else if (mode == 3) P.push_back(XYZ(1, 1, 1) * (double)i);
		else P.push_back(genPoint(g, 10));
	}
	if (mode == 4 && n > 2) P.back() = P.front();
	ctx.dump("points", P);
	int p = g.irange(1, 8), k = g.irange(0, n + 4), which = g.irange(0, 6);
	// repeated neighbours have no interpolant: only the absence of undefined behaviour is judged, and for
	// the approximation by an error bound (knots more than full) nothing is
	bool judged = mode != 2 || which == 2 || which == 6;
	if (mode == 2 && which == 5) which = 2;
	if ((which == 2 && n == 1) || (which == 1 && p == 1)) judged = false;
	const char* calls[] = { "GlobalInterpolation", "GlobalInterpolation tangents", "CubicLocalInterpolation", "LeastSquaresApproximation", "WeightedAndContrainedLeastSquaresApproximation", "GlobalApproximationByErrorBound", "CreateCubicHermite" };
	ctx.note(strf("%s degree %d, %d control points", calls[which], p, k));
	ctx.bucket("fit", calls[which]);
	ctx.cls(strf("%s p%d n%d k%d m%d", calls[which], p, n, k, mode));
	std::vector<XYZ> T(n, XYZ(1, 0.5, 0.25));
	LN_NurbsCurve c;
	bool ok = true;
	std::string w;
	int r = outcome([&] {
		switch (which)
		{
		case 0: NurbsCurve::GlobalInterpolation(p, P, c); break;
		case 1: NurbsCurve::GlobalInterpolation(p, P, T, 1.0, c); break;
		case 2: ok = NurbsCurve::CubicLocalInterpolation(P, c); break;
		case 3: ok = NurbsCurve::LeastSquaresApproximation(p, P, k, c); break;
		case 4: ok = NurbsCurve::WeightedAndContrainedLeastSquaresApproximation(p, P, std::vector<double>(n, g.chance(0.8) ? 1.0 : -1.0), {}, {}, {}, k, c); break;
		case 5: NurbsCurve::GlobalApproximationByErrorBound(p, P, 0.1, c); break;
		default: NurbsCurve::CreateCubicHermite(P, T, c); break;
		}
	}, w);
	ctx.bucket("outcome", r == 1 ? "refused" : r == 2 ? "other exception" : ok ? "answered" : "failed");
	ctx.check(r != 2, "refusal-kind", strf("%s threw something else: %s", calls[which], w.c_str()));
	if (r == 0 && ok && judged) validCurve(ctx, c, "answer-valid");
}
SCENARIO(hostile_nets, 3)
{
	Rng& g = ctx.rng;
	ctx.nontrivial = true;
	int r = g.irange(1, 7), s = g.irange(1, 7), p = g.irange(1, 8), q = g.irange(1, 8), a = g.irange(0, r + 3), b = g.irange(0, s + 3), which = g.irange(0, 2);
	std::vector<std::vector<XYZ>> N(r);
	for (int i = 0; i < r; i++) for (int j = 0; j < s; j++) N[i].push_back(XYZ(i, j, g.uni(-1, 1)));
	const char* calls[] = { "surface GlobalInterpolation", "BicubicLocalInterpolation", "surface GlobalApproximation" };
	ctx.note(strf("%s %dx%d points, degrees %d %d, %dx%d control points", calls[which], r, s, p, q, a, b));
	ctx.bucket("fit", calls[which]);
	ctx.cls(strf("%d %d %d %d %d %d %d", which, r, s, p, q, a, b));
	if (which == 1 && (r < 2 || s < 2)) return;
	LN_NurbsSurface c;
	bool ok = true;
	std::string w;
	int o = outcome([&] {
		if (which == 0) NurbsSurface::GlobalInterpolation(N, p, q, c);
		else if (which == 1) ok = NurbsSurface::BicubicLocalInterpolation(N, c);
		else ok = NurbsSurface::GlobalApproximation(N, p, q, a, b, c);
	}, w);
	ctx.bucket("outcome", o == 1 ? "refused" : o == 2 ? "other exception" : ok ? "answered" : "failed");
	ctx.check(o != 2, "refusal-kind", strf("%s threw something else: %s", calls[which], w.c_str()));
	if (o == 0 && ok) validSurface(ctx, c, "answer-valid");
}
#include "main.inc"
