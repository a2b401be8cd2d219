// P30: calls are pure - repeatable, independent of what was called before, of what the output held
// and of calls running at the same time on other threads; inputs are never written
#include "vol.hpp"
#include "ControlPointsUtils.h"
#include "Octree.h"
#include "OctreeCollector.h"
#include "Voronoi.h"
#include <atomic>
#include <memory>
#include <thread>
using namespace H;

typedef std::vector<double> Digest;
static void put(Digest& d, double v) { d.push_back(v); }
static void put(Digest& d, int v) { d.push_back(v); }
static void put(Digest& d, bool v) { d.push_back(v); }
static void put(Digest& d, const XYZ& p) { for (int k = 0; k < 3; k++) d.push_back(p[k]); }
static void put(Digest& d, const XYZW& p) { for (int k = 0; k < 4; k++) d.push_back(p[k]); }
static void put(Digest& d, const UV& p) { d.push_back(p.GetU()); d.push_back(p.GetV()); }
static void put(Digest& d, const UVW& p) { d.push_back(p.GetU()); d.push_back(p.GetV()); d.push_back(p.GetW()); }
static void put(Digest& d, const LN_NurbsCurve& c);
static void put(Digest& d, const LN_NurbsSurface& c);
template <class T> static void put(Digest& d, const std::vector<T>& v) { d.push_back((double)v.size()); for (auto& x : v) put(d, x); }
static void put(Digest& d, const std::map<double, int>& v) { for (auto& x : v) { d.push_back(x.first); d.push_back(x.second); } }
static void put(Digest& d, const LN_NurbsCurve& c) { put(d, c.Degree); put(d, c.KnotVector); put(d, c.ControlPoints); }
static void put(Digest& d, const LN_NurbsSurface& c) { put(d, c.DegreeU); put(d, c.DegreeV); put(d, c.KnotVectorU); put(d, c.KnotVectorV); put(d, c.ControlPoints); }
static void put(Digest& d, const LN_NurbsVolume& c) { for (int k = 0; k < 3; k++) { put(d, deg(c, k)); put(d, kv(c, k)); } put(d, c.ControlPoints); }
static void put(Digest& d, const LN_Mesh& m) { put(d, m.Vertices); put(d, m.Faces); put(d, m.UVs); put(d, m.Normals); }
static bool same(const Digest& a, const Digest& b) { return a.size() == b.size() && (a.empty() || !memcmp(a.data(), b.data(), a.size() * sizeof(double))); }

// the shared inputs
struct World
{
	LN_NurbsCurve c, c2, c3, line;
	LN_NurbsSurface s;
	LN_NurbsVolume v;
	std::vector<XYZ> pts;
	std::vector<std::vector<XYZ>> grid;
	XYZ q;
	double t, t2, u, w, x;
	int i;
	Matrix4d m;
	Digest all() const { Digest d; put(d, c); put(d, c2); put(d, c3); put(d, line); put(d, s); put(d, v); put(d, pts); put(d, grid); put(d, q); return d; }
};
enum Out { FRESH, DIRTY, ALIAS };
struct Op { const char* name; std::function<void(const World&, Out, Digest&)> fn; bool compare, outs, alias; };

static LN_NurbsCurve dirtyCurve() { LN_NurbsCurve c; c.Degree = 2; c.KnotVector = { 0, 0, 0, 3, 3, 3 }; c.ControlPoints = { XYZW(1, 2, 3, 1), XYZW(4, 2, 3, 2), XYZW(1, 7, 3, 1) }; return c; }
static std::vector<Op>& ops()
{
	static std::vector<Op> L;
	if (!L.empty()) return L;
#define VAL(name, expr) L.push_back({ name, [](const World& W, Out, Digest& d) { put(d, expr); }, true, false, false })
#define CUR(name, expr) L.push_back({ name, [](const World& W, Out o, Digest& d) { LN_NurbsCurve in = W.c, out = o == DIRTY ? dirtyCurve() : LN_NurbsCurve(); const LN_NurbsCurve& C = o == FRESH ? W.c : in; LN_NurbsCurve& R = o == ALIAS ? in : out; expr; put(d, R); }, true, true, true })
#define SRF(name, expr) L.push_back({ name, [](const World& W, Out o, Digest& d) { LN_NurbsSurface in = W.s, out = o == DIRTY ? dirtySurface() : LN_NurbsSurface(); const LN_NurbsSurface& S = o == FRESH ? W.s : in; LN_NurbsSurface& R = o == ALIAS ? in : out; expr; put(d, R); }, true, true, true })
#define VOL(name, expr) L.push_back({ name, [](const World& W, Out o, Digest& d) { LN_NurbsVolume in = W.v, out = o == DIRTY ? dirtyVolume() : LN_NurbsVolume(); const LN_NurbsVolume& V = o == FRESH ? W.v : in; LN_NurbsVolume& R = o == ALIAS ? in : out; expr; put(d, R); }, true, true, true })
// results made from other inputs: no aliasing
#define MKC(name, expr) L.push_back({ name, [](const World& W, Out o, Digest& d) { LN_NurbsCurve R = o == DIRTY ? dirtyCurve() : LN_NurbsCurve(); expr; put(d, R); }, true, true, false })
#define MKS(name, expr) L.push_back({ name, [](const World& W, Out o, Digest& d) { LN_NurbsSurface R = o == DIRTY ? dirtySurface() : LN_NurbsSurface(); expr; put(d, R); }, true, true, false })
	VAL("curve.point", NurbsCurve::GetPointOnCurve(W.c, W.t));
	VAL("curve.cornercut", NurbsCurve::GetPointOnCurveByCornerCut(W.c, W.t));
	VAL("curve.derivatives", NurbsCurve::ComputeRationalCurveDerivatives(W.c, 3, W.t));
	VAL("curve.canderive", NurbsCurve::CanComputeDerivative(W.c, W.t));
	VAL("curve.curvature", NurbsCurve::Curvature(W.c, W.t));
	VAL("curve.torsion", NurbsCurve::Torsion(W.c, W.t));
	VAL("curve.normal", NurbsCurve::Normal(W.c, CurveNormal::Binormal, W.t));
	VAL("curve.isclosed", NurbsCurve::IsClosed(W.c));
	VAL("curve.islinear", NurbsCurve::IsLinear(W.c));
	VAL("curve.isclamp", NurbsCurve::IsClamp(W.c));
	VAL("curve.isperiodic", NurbsCurve::IsPeriodic(W.c));
	VAL("curve.tessellate", NurbsCurve::Tessellate(W.c));
	VAL("curve.inversion", NurbsCurve::GetParamOnCurve(W.c, W.q));
	VAL("curve.allparams", NurbsCurve::GetAllParamsOnCurve(W.c, W.q));
	VAL("curve.length.simpson", NurbsCurve::ApproximateLength(W.c, IntegratorType::Simpson));
	VAL("curve.length.gauss", NurbsCurve::ApproximateLength(W.c, IntegratorType::GaussLegendre));
	VAL("curve.length.chebyshev", NurbsCurve::ApproximateLength(W.c, IntegratorType::Chebyshev));
	VAL("curve.length.part", NurbsCurve::ApproximateLength(W.c, std::min(W.t, W.t2), std::max(W.t, W.t2)));
	VAL("curve.param.bylength", NurbsCurve::GetParamOnCurve(W.c, 0.4));
	VAL("curve.beziers", NurbsCurve::DecomposeToBeziers(W.c));
	L.push_back({ "curve.equally", [](const World& W, Out o, Digest& d) { std::vector<XYZ> P; std::vector<double> K; NurbsCurve::EquallyTessellate(W.c, P, K); put(d, P); put(d, K); }, true, false, false });
	L.push_back({ "curve.isarc", [](const World& W, Out o, Digest& d) { LN_ArcInfo a; put(d, NurbsCurve::IsArc(W.c, a)); }, true, false, false });
	CUR("curve.insertknot", put(d, NurbsCurve::InsertKnot(C, W.t, 1, R)));
	CUR("curve.refine", NurbsCurve::RefineKnotVector(C, std::vector<double>{ std::min(W.t, W.t2), std::max(W.t, W.t2) }, R));
	CUR("curve.removeexcessive", NurbsCurve::RemoveExcessiveKnots(C, R));
	CUR("curve.elevate", NurbsCurve::ElevateDegree(C, 1, R));
	CUR("curve.transform", NurbsCurve::CreateTransformed(C, W.m, R));
	CUR("curve.reparametrize", NurbsCurve::Reparametrize(C, 2, 5, R));
	CUR("curve.reverse", NurbsCurve::Reverse(C, R));
	CUR("curve.extract", NurbsCurve::Extract(C, std::min(W.t, W.t2), std::max(W.t, W.t2), R));
	CUR("curve.toclamp", NurbsCurve::ToClampCurve(C, R));
	CUR("curve.tounclamp", NurbsCurve::ToUnclampCurve(C, R));
	CUR("curve.extend", NurbsCurve::Extend(C, 0.5, true, ExtensionType::Tangent, R));
	CUR("curve.reposition", bool ok = NurbsCurve::ControlPointReposition(C, W.t, W.i, XYZ(0, 0, 1), 0.5, R); put(d, ok); if (!ok) return);
	CUR("curve.bending", NurbsCurve::Bending(C, std::min(W.t, W.t2), std::max(W.t, W.t2), XYZ(0, -30, 0), 40, 1.5, R));
	CUR("curve.flatten", bool ok = NurbsCurve::Flattening(C, XYZ(-30, -30, 0), XYZ(30, 30, 0), std::min(W.t, W.t2), std::max(W.t, W.t2), R); put(d, ok); if (!ok) return);
	CUR("curve.warp", NurbsCurve::Warping(C, std::vector<double>(C.ControlPoints.size(), 0.5), 1.0, XYZ(0, 0, 1), std::min(W.t, W.t2), std::max(W.t, W.t2), R));
	L.push_back({ "curve.split", [](const World& W, Out o, Digest& d) { LN_NurbsCurve a = o == DIRTY ? dirtyCurve() : LN_NurbsCurve(), b = a; bool ok = NurbsCurve::SplitAt(W.c, W.x, a, b); put(d, ok); if (!ok) return; put(d, a); put(d, b); }, true, true, false });
	MKC("curve.line", NurbsCurve::CreateLine(W.pts[0], W.pts[1], R));
	MKC("curve.arc", bool ok = NurbsCurve::CreateArc(W.q, XYZ(1, 0, 0), XYZ(0, 1, 0), 0.2, 0.3 + fabs(W.u), 3, 2, R); put(d, ok); if (!ok) return);
	MKC("curve.hermite", NurbsCurve::CreateCubicHermite(W.pts, W.pts, R));
	MKC("curve.interpolate", NurbsCurve::GlobalInterpolation(3, W.pts, R));
	MKC("curve.interpolate.tangents", NurbsCurve::GlobalInterpolation(3, W.pts, W.pts, 1.0, R));
	MKC("curve.local", bool ok = NurbsCurve::CubicLocalInterpolation(W.pts, R); put(d, ok); if (!ok) return);
	MKC("curve.leastsquares", bool ok = NurbsCurve::LeastSquaresApproximation(3, W.pts, 6, R); put(d, ok); if (!ok) return);
	MKC("curve.approximate", NurbsCurve::GlobalApproximationByErrorBound(2, W.pts, 0.5, R));
	MKC("curve.offset", NurbsCurve::Offset(W.line, 0.3, OffsetType::PieglAndTiller, R));
	L.push_back({ "curve.projectnormal", [](const World& W, Out o, Digest& d) { put(d, NurbsCurve::ProjectNormal(W.c)); }, false, false, false });
	VAL("surface.point", NurbsSurface::GetPointOnSurface(W.s, UV(W.u, W.w)));
	VAL("surface.derivatives", NurbsSurface::ComputeRationalSurfaceDerivatives(W.s, 2, UV(W.u, W.w)));
	L.push_back({ "surface.first", [](const World& W, Out o, Digest& d) { XYZ a, b, c; NurbsSurface::ComputeRationalSurfaceFirstOrderDerivative(W.s, UV(W.u, W.w), a, b, c); put(d, a); put(d, b); put(d, c); }, true, false, false });
	VAL("surface.curvature", NurbsSurface::Curvature(W.s, SurfaceCurvature::Gauss, UV(W.u, W.w)));
	VAL("surface.normal", NurbsSurface::Normal(W.s, UV(W.u, W.w)));
	VAL("surface.isocurve", NurbsSurface::GetIsoCurve(W.s, W.u, true));
	VAL("surface.isclosed", NurbsSurface::IsClosed(W.s, true));
	VAL("surface.inversion", NurbsSurface::GetParamOnSurface(W.s, W.q));
	VAL("surface.area.gauss", NurbsSurface::ApproximateArea(W.s, IntegratorType::GaussLegendre));
	VAL("surface.area.simpson", NurbsSurface::ApproximateArea(W.s, IntegratorType::Simpson));
	VAL("surface.area.chebyshev", NurbsSurface::ApproximateArea(W.s, IntegratorType::Chebyshev));
	VAL("surface.beziers", NurbsSurface::DecomposeToBeziers(W.s));
	VAL("surface.grid", NurbsSurface::Triangulate(W.s, 5, 4, false));
	VAL("surface.delaunay", NurbsSurface::Triangulate(W.s, 5, 4, true));
	VAL("surface.distance", NurbsSurface::ComputeSignedDistanceFunction(W.s, W.q));
	L.push_back({ "surface.box", [](const World& W, Out o, Digest& d) { auto b = NurbsSurface::GetBoundingBox(W.s); put(d, b.MinPoint); put(d, b.MaxPoint); auto e = NurbsSurface::GetOrientedBoundingBox(W.s); put(d, e.Center); for (int k = 0; k < 3; k++) { put(d, e.Axes[k]); put(d, e.HalfExtents[k]); } }, true, false, false });
	L.push_back({ "surface.equally", [](const World& W, Out o, Digest& d) { std::vector<XYZ> P; std::vector<UV> K; NurbsSurface::EquallyTessellate(W.s, P, K); put(d, P); put(d, K); }, true, false, false });
	SRF("surface.swap", NurbsSurface::Swap(S, R));
	SRF("surface.reverse", NurbsSurface::Reverse(S, SurfaceDirection::All, R));
	SRF("surface.insertknot.u", NurbsSurface::InsertKnot(S, W.u, 1, true, R));
	SRF("surface.insertknot.v", NurbsSurface::InsertKnot(S, W.w, 1, false, R));
	SRF("surface.refine", NurbsSurface::RefineKnotVector(S, std::vector<double>{ W.u }, true, R));
	SRF("surface.elevate.u", NurbsSurface::ElevateDegree(S, 1, true, R));
	SRF("surface.elevate.v", NurbsSurface::ElevateDegree(S, 1, false, R));
	SRF("surface.reparametrize", NurbsSurface::Reparametrize(S, 0, 3, 1, 2, R));
	MKS("surface.bilinear", NurbsSurface::CreateBilinearSurface(W.pts[0], W.pts[1], W.pts[2], W.pts[3], R));
	MKS("surface.cylinder", bool ok = NurbsSurface::CreateCylindricalSurface(W.q, XYZ(1, 0, 0), XYZ(0, 1, 0), 0, 2, 3, 5, R); put(d, ok); if (!ok) return);
	MKS("surface.ruled", NurbsSurface::CreateRuledSurface(W.c, W.c3, R));
	MKS("surface.revolved", bool ok = NurbsSurface::CreateRevolvedSurface(XYZ(60, 0, 0), XYZ(0, 1, 0), 2.5, W.c, R); put(d, ok); if (!ok) return);
	MKS("surface.interpolate", NurbsSurface::GlobalInterpolation(W.grid, 3, 2, R));
	MKS("surface.approximate", bool ok = NurbsSurface::GlobalApproximation(W.grid, 2, 2, 4, 4, R); put(d, ok); if (!ok) return);
	MKS("surface.local", bool ok = NurbsSurface::BicubicLocalInterpolation(W.grid, R); put(d, ok); if (!ok) return);
	MKS("surface.loft", NurbsSurface::CreateLoftSurface({ W.c, W.c3, W.c }, R));
	MKS("surface.translate", NurbsSurface::CreateGeneralizedTranslationalSweepSurface(W.c, W.c2, R));
	L.push_back({ "surface.sweep", [](const World& W, Out o, Digest& d) { LN_NurbsSurface R; NurbsSurface::CreateSweepSurface(W.c, W.c2, 4, R); put(d, R); }, false, false, false });
	VAL("volume.point", NurbsVolume::GetPointOnVolume(W.v, UVW(W.v.KnotVectorU.front(), W.v.KnotVectorV.back(), W.v.KnotVectorW.front())));
	VAL("volume.derivatives", NurbsVolume::ComputeVolumeRationalDerivatives(W.v, 2, UVW(W.v.KnotVectorU.front(), W.v.KnotVectorV.back(), W.v.KnotVectorW.front())));
	VAL("volume.isclosed", NurbsVolume::IsClosed(W.v, VolumeDirection::V));
	VOL("volume.elevate", NurbsVolume::ElevateDegree(V, 1, VolumeDirection::V, R));
	VOL("volume.insert", NurbsVolume::InsertKnot(V, (V.KnotVectorU.front() + 2 * V.KnotVectorU.back()) / 3, 1, VolumeDirection::U, R));
	VOL("volume.refine", NurbsVolume::RefineKnotVector(V, std::vector<double>{ (V.KnotVectorW.front() + 2 * V.KnotVectorW.back()) / 3 }, VolumeDirection::W, R));
	VOL("volume.reverse", NurbsVolume::Reverse(V, VolumeDirection::W, R));
	VOL("volume.swap", NurbsVolume::Swap(V, VolumeDirection::U, VolumeDirection::W, R));
	L.push_back({ "volume.extract", [](const World& W, Out o, Digest& d) { LN_NurbsSurface R = o == DIRTY ? dirtySurface() : LN_NurbsSurface(); bool ok = NurbsVolume::Extract(W.v, W.v.KnotVectorV.front(), VolumeDirection::V, R); put(d, ok); if (!ok) return; put(d, R); }, true, true, false });
	VAL("basis.span", Polynomials::GetKnotSpanIndex(W.c.Degree, W.c.KnotVector, W.t));
	VAL("basis.all", Polynomials::AllBasisFunctions(Polynomials::GetKnotSpanIndex(W.c.Degree, W.c.KnotVector, W.t), W.c.Degree, W.c.KnotVector, W.t));
	VAL("basis.derivatives", Polynomials::BasisFunctionsDerivatives(Polynomials::GetKnotSpanIndex(W.c.Degree, W.c.KnotVector, W.t), W.c.Degree, W.c.Degree, W.c.KnotVector, W.t));
	VAL("basis.bernstein", Polynomials::AllBernstein(W.c.Degree, 0.3));
	VAL("basis.topower", Polynomials::BezierToPowerMatrix(W.c.Degree));
	VAL("binomial", MathUtils::Binomial(W.c.Degree + W.i, W.c.Degree));
	L.push_back({ "matrix.inverse", [](const World& W, Out, Digest& d) { std::vector<std::vector<double>> r; put(d, MathUtils::MakeInverse({ { 200, W.t }, { W.u, 200 } }, r)); put(d, r); }, true, false, false });
	VAL("matrix.solve", MathUtils::SolveLinearSystem({ { 200, W.t }, { W.u, 200 } }, { { 1, 2 }, { 3, 4 } }));
	VAL("knots.map", KnotVectorUtils::GetKnotMultiplicityMap(W.c.KnotVector));
	VAL("knots.merge", KnotVectorUtils::GetInsertedKnotElements({ W.c.KnotVector, KnotVectorUtils::Rescale(W.c2.KnotVector, W.c.KnotVector.front(), W.c.KnotVector.back()) }));
	VAL("interp.chord", Interpolation::GetChordParameterization(W.pts));
	VAL("interp.centripetal", Interpolation::GetCentripetalParameterization(W.pts));
	VAL("interp.tangents", Interpolation::ComputeTangent(W.pts));
	L.push_back({ "octree", [](const World& W, Out, Digest& d)
	{
		std::unique_ptr<Octant> r(OctreeConstruction(W.pts, 2, 0.1));
		KnnResultSet k(3);
		OctreeKnnSearch(r.get(), W.pts, k, W.q);
		RadiusNnResultSet n(8);
		OctreeRadiusSearch(r.get(), W.pts, n, W.q);
		put(d, k.Size()); put(d, k.WorstDist()); put(d, n.Size());
	}, true, false, false });
	L.push_back({ "rays", [](const World& W, Out, Digest& d) { double a = 0, b = 0; XYZ p; put(d, (int)Intersection::ComputeRays(W.pts[0], W.pts[1], W.pts[2], W.pts[3], a, b, p)); put(d, a); put(d, b); put(d, p); put(d, Projection::PointToRay(W.pts[0], W.pts[1], W.q)); }, true, false, false });
	return L;
}
static bool heavy(const Op& op)
{
	for (const char* n : { "surface.area.simpson", "surface.equally", "surface.inversion", "surface.distance", "curve.tessellate" }) if (!strcmp(n, op.name)) return true;
	return false;
}
static Digest call(const Op& op, const World& W, Out o)
{
	Digest d;
	try { op.fn(W, o, d); }
	catch (std::exception& e) { d = { -12345.0 }; for (const char* q = e.what(); *q; q++) d.push_back(*q); }
	return d;
}
static World world(Ctx& ctx)
{
	Rng& g = ctx.rng;
	World W;
	CurveOpt o;
	o.minP = 2; o.maxP = 4; o.maxInterior = 4; o.maxMult = 1; o.maxWeightMode = 1; o.pointMode = 2; o.scale = 10; o.simpleDomain = true; o.minGap = 0.1;
	W.c = genCurve(ctx, o);
	o.maxP = 3;
	W.c2 = genCurve(ctx, o);
	W.c3 = W.c2;
	for (double& k : W.c3.KnotVector) k = lo(W.c) + (k - lo(W.c2)) * (hi(W.c) - lo(W.c)) / (hi(W.c2) - lo(W.c2));
	for (int i = 0; i <= W.c3.Degree; i++) { W.c3.KnotVector[i] = lo(W.c); W.c3.KnotVector[W.c3.KnotVector.size() - 1 - i] = hi(W.c); }
	o.weightMode = 0; o.maxInterior = 1; o.maxP = 2;
	W.line = genCurve(ctx, o);
	for (auto& q : W.line.ControlPoints) q = XYZW(q[0], q[1], 0, 1);
	SurfOpt so;
	so.minP = 1; so.maxP = 3; so.maxMult = 1; so.maxWeightMode = 1; so.pointMode = 2; so.scale = 10; so.simpleDomain = true; so.maxInteriorU = so.maxInteriorV = 1; so.minGap = 0.1;
	W.s = genSurface(ctx, so);
	W.v = genVolume(ctx, 2, 1, 1);
	XYZ p = genPoint(g, 5), dir = genPoint(g, 1).Normalize();
	for (int i = 0; i < 10; i++) { p = p + dir * g.uni(2, 4) + genPoint(g, 1.2); W.pts.push_back(p); }
	for (int i = 0; i < 6; i++) { W.grid.emplace_back(); for (int j = 0; j < 5; j++) W.grid[i].push_back(XYZ(i * 3 + g.uni(-1, 1), j * 3 + g.uni(-1, 1), g.uni(-2, 2))); }
	W.t = lo(W.c) + (hi(W.c) - lo(W.c)) * g.uni(0.1, 0.45);
	W.t2 = lo(W.c) + (hi(W.c) - lo(W.c)) * g.uni(0.55, 0.9);
	W.x = lo(W.c) + (hi(W.c) - lo(W.c)) * g.uni(0.1, 0.9);
	W.u = loU(W.s) + (hiU(W.s) - loU(W.s)) * g.uni(0.1, 0.9);
	W.w = loV(W.s) + (hiV(W.s) - loV(W.s)) * g.uni(0.1, 0.9);
	W.i = g.irange(0, (int)W.c.ControlPoints.size() - 1);
	W.q = (refPoint(W.c, W.t) + V3(genPoint(g, 0.5))).xyz();
	W.m = Matrix4d::CreateRotation(XYZ(0, 0, 1), g.uni(0.1, 3));
	return W;
}
// the same call again, in another order, after other calls, with other contents in the output
SCENARIO(repeat, 3)
{
	Rng& g = ctx.rng;
	World A = world(ctx), B = world(ctx);
	Digest a0 = A.all(), b0 = B.all();
	auto& L = ops();
	std::vector<int> pick;
	for (int i = 0; i < (int)L.size(); i++) if (g.chance(heavy(L[i]) ? 0.06 : 0.5)) pick.push_back(i);
	std::map<std::pair<int, int>, Digest> first;
	for (int i : pick) for (int k = 0; k < 2; k++)
	{
		const World& W = k ? B : A;
		Digest d = call(L[i], W, FRESH);
		ctx.check(same(W.all(), k ? b0 : a0), "input-untouched", strf("%s wrote to its input", L[i].name));
		first[{ i, k }] = d;
		ctx.bucket("call outcome", d.size() && d[0] == -12345.0 ? "refused" : "result");
	}
	for (int r = 0; r < 2; r++)
	{
		for (size_t i = pick.size(); i > 1; i--) std::swap(pick[i - 1], pick[g.irange(0, (int)i - 1)]);
		for (int i : pick)
		{
			int k = g.irange(0, 1);
			const World& W = k ? B : A;
			Digest d = call(L[i], W, FRESH);
			if (L[i].compare) ctx.check(same(d, first[{ i, k }]), "repeatable", strf("%s: the same call gives another result", L[i].name));
			if (L[i].outs)
			{
				d = call(L[i], W, DIRTY);
				ctx.check(same(d, first[{ i, k }]), "output-overwritten", strf("%s: the result depends on what the output held", L[i].name));
			}
			if (L[i].alias)
			{
				d = call(L[i], W, ALIAS);
				ctx.check(same(d, first[{ i, k }]), "in-place", strf("%s: in place gives another result", L[i].name));
			}
		}
	}
	ctx.check(same(A.all(), a0) && same(B.all(), b0), "input-untouched", "inputs changed");
}
// threads on shared inputs
SCENARIO(threads, 3)
{
	Rng& g = ctx.rng;
	World W = world(ctx);
	Digest w0 = W.all();
	auto& L = ops();
	std::vector<int> pick;
	bool focus = g.chance(0.5);
	int one = g.irange(0, (int)L.size() - 1);
	for (int i = 0; i < (int)L.size(); i++) if (g.chance((focus ? 0.08 : 0.35) * (heavy(L[i]) ? 0.2 : 1))) pick.push_back(i);
	pick.push_back(one);
	int T = g.irange(2, 6);
	ctx.bucket("threads", T);
	ctx.bucket("overlap", focus ? "few calls" : "many calls");
	std::vector<std::vector<int>> order(T);
	std::vector<std::vector<Digest>> got(T);
	for (int t = 0; t < T; t++)
	{
		order[t] = pick;
		for (size_t i = pick.size(); i > 1; i--) std::swap(order[t][i - 1], order[t][g.irange(0, (int)i - 1)]);
		if (focus) { auto c = order[t]; for (int r = 0; r < 2; r++) order[t].insert(order[t].end(), c.begin(), c.end()); }
		got[t].resize(order[t].size());
	}
	// concurrent first: lazily built state would be built here, by several threads at once
	std::atomic<int> ready(0);
	std::vector<std::thread> th;
	for (int t = 0; t < T; t++) th.emplace_back([&, t]
	{
		ready++;
		while (ready.load() < T) std::this_thread::yield();
		for (size_t i = 0; i < order[t].size(); i++) got[t][i] = call(L[order[t][i]], W, FRESH);
	});
	for (auto& x : th) x.join();
	ctx.check(same(W.all(), w0), "input-untouched", "shared inputs changed");
	std::map<int, Digest> alone;
	for (int i : pick) alone[i] = call(L[i], W, FRESH);
	for (int t = 0; t < T; t++) for (size_t i = 0; i < order[t].size(); i++)
	{
		const Op& op = L[order[t][i]];
		if (op.compare) ctx.check(same(got[t][i], alone[order[t][i]]), "thread-same-result", strf("%s: another result beside other threads", op.name));
		else ctx.count("thread-ran", 1);
	}
}
#include "main.inc"
