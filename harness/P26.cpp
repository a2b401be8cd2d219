// P26: intersection and projection of lines and planes, and neighbour search in an octree
#include "common.h"
#include "Octree.h"
#include "OctreeCollector.h"
#include <memory>
using namespace H;

static V3 unit(Rng& g) { V3 d; do d = V3(genPoint(g, 1)); while (d.len() < 0.1L || d.len() > 1); return d / d.len(); }
static V3 perp(Rng& g, const V3& d) { V3 e; do { e = unit(g); e = e - d * d.dot(e); } while (e.len() < 0.3L); return e / e.len(); }
SCENARIO(rays, 3)
{
	Rng& g = ctx.rng;
	// two lines with a known common perpendicular
	int kind = g.irange(0, 3);   // 0 crossing, 1 skew, 2 parallel, 3 coincident
	ctx.bucket("rays", kind);
	double sc = g.logu(0.05, 500), l0 = g.logu(1e-3, 100), l1 = g.logu(1e-3, 100);
	ctx.bucket("size", (int)floor(log10(sc))); ctx.bucket("length0", (int)floor(log10(l0))); ctx.bucket("length1", (int)floor(log10(l1)));
	V3 d0 = unit(g), n = perp(g, d0), m = d0.cross(n), X(genPoint(g, sc));
	ld ang = g.chance(0.2) ? acosl(-1.0L) / 2 : g.sgn() * g.logu(0.03, 1.57);
	V3 d1 = d0 * cosl(ang) + m * sinl(ang);
	if (kind >= 2) d1 = d0 * g.sgn();
	// (distances below 1e-6 count as none)
	ld gap = kind == 1 ? (g.chance(0.4) ? g.logu(1e-5, 1e-2) * (1 + 0.01 * sc) : sc * g.logu(0.01, 1)) : 0;
	if (kind == 1 && gap < 1e-5L) gap = 1e-5L;
	ld off = kind == 2 ? std::max((ld)1e-5L, (ld)(g.chance(0.4) ? g.logu(1e-5, 1e-2) * (1 + 0.01 * sc) : sc * g.logu(0.01, 1))) : 0;
	ld t0 = g.uni(-3, 3) * sc, t1 = g.uni(-3, 3) * sc;
	if (kind <= 1 && g.chance(0.1)) t0 = 0;
	if (kind <= 1 && g.chance(0.1)) t1 = 0;
	XYZ p0 = (X - d0 * t0).xyz(), p1 = (X + n * gap + m * off - d1 * t1).xyz(), v0 = (d0 * l0).xyz(), v1 = (d1 * l1).xyz();
	ctx.dump("point0", p0); ctx.dump("vector0", v0); ctx.dump("point1", p1); ctx.dump("vector1", v1);
	double a = -777, b = -777;
	XYZ r;
	CurveCurveIntersectionType t = Intersection::ComputeRays(p0, v0, p1, v1, a, b, r);
	if (kind == 0)
	{
		ctx.check(t == CurveCurveIntersectionType::Intersecting, "rays-classified", strf("crossing lines classified as %d (angle %.3Lg)", (int)t, ang));
		ld tol = 1e-11L * (1 + sc) / fabsl(sinl(ang)) / fabsl(sinl(ang)) + 1e-6L;
		nearPt(ctx, V3(r), X, tol, "rays-point", "intersection"); ctx.near(a * (ld)l0, t0, tol, "rays-parameters", "first"); ctx.near(b * (ld)l1, t1, tol, "rays-parameters", "second");
	}
	else if (kind == 1)
	{
		ctx.check(t == CurveCurveIntersectionType::Skew, "rays-classified", strf("skew lines classified as %d (angle %.3Lg gap %.3Lg)", (int)t, ang, gap));
		ld tol = 1e-11L * (1 + sc) / fabsl(sinl(ang)) / fabsl(sinl(ang)) + 1e-6L;
		ctx.near(a * (ld)l0, t0, tol, "rays-parameters", "foot of the common perpendicular on the first line"); ctx.near(b * (ld)l1, t1, tol, "rays-parameters", "on the second");
	}
	else if (kind == 2) ctx.check(t == CurveCurveIntersectionType::Parallel, "rays-classified", strf("parallel lines classified as %d (distance %.3Lg)", (int)t, off));
	else
	{
		ctx.check(t == CurveCurveIntersectionType::Coincident || (t == CurveCurveIntersectionType::Intersecting && p0.IsAlmostEqualTo(p1)), "rays-classified", strf("the same line classified as %d", (int)t));
		nearPt(ctx, V3(p0) + V3(v0) * a, V3(r), 1e-6L, "rays-point", "a common point of coincident lines");
	}
}
SCENARIO(line_plane, 2)
{
	Rng& g = ctx.rng;
	int kind = g.irange(0, 2);   // 0 crossing, 1 parallel, 2 in the plane
	ctx.bucket("line-plane", kind);
	double sc = g.logu(0.05, 500), ln = g.logu(1e-3, 100), l = g.logu(1e-3, 100);
	V3 n = unit(g), e = perp(g, n), f = n.cross(e), O(genPoint(g, sc)), X = O + e * (sc * g.uni(-2, 2)) + f * (sc * g.uni(-2, 2));
	ld ang = kind == 0 ? g.sgn() * g.logu(0.02, 1.57) : 0, ph = g.uni(0, 6.28);
	V3 d = (e * cosl(ph) + f * sinl(ph)) * cosl(ang) + n * sinl(ang);
	ld off = kind == 1 ? g.sgn() * std::max(1e-3, sc * g.logu(0.01, 1)) : 0, t = sc * g.uni(-3, 3);
	XYZ q = (X + n * off - d * t).xyz(), nn = (n * ln).xyz(), dd = (d * l).xyz(), o = O.xyz(), r;
	ctx.dump("normal", nn); ctx.dump("on plane", o); ctx.dump("on line", q); ctx.dump("direction", dd);
	LinePlaneIntersectionType k = Intersection::ComputeLineAndPlane(nn, o, q, dd, r);
	if (kind == 0) { ctx.check(k == LinePlaneIntersectionType::Intersecting, "plane-classified", strf("crossing line classified as %d (angle %.3Lg)", (int)k, ang)); nearPt(ctx, V3(r), X, 1e-11L * (1 + sc) / fabsl(sinl(ang)), "plane-point", "intersection"); }
	else if (kind == 1) ctx.check(k == LinePlaneIntersectionType::Parallel, "plane-classified", strf("parallel line at distance %.3Lg classified as %d", off, (int)k));
	else { ctx.check(k == LinePlaneIntersectionType::On, "plane-classified", strf("a line in the plane classified as %d", (int)k)); ctx.near((V3(r) - O).dot(n), 0, 1e-9L * (1 + sc), "plane-point", "a common point"); }
}
SCENARIO(projection, 2)
{
	Rng& g = ctx.rng;
	double sc = g.logu(0.05, 500), l = g.logu(1e-5, 300);
	V3 d = unit(g), e = perp(g, d), O(genPoint(g, sc));
	ld t = g.chance(0.15) ? g.irange(0, 1) : g.chance(0.2) ? g.irange(0, 1) + g.sgn() * g.logu(1e-5, 1e-2) : g.uni(-1.5, 2.5), h = g.chance(0.1) ? 0 : sc * g.uni(-2, 2);
	V3 F = O + d * (t * l), P = F + e * h;
	XYZ o = O.xyz(), v = (d * l).xyz(), p = P.xyz();
	ctx.dump("origin", o); ctx.dump("vector", v); ctx.dump("point", p);
	ld tol = 1e-12L * (1 + sc + l) * 10;
	nearPt(ctx, V3(Projection::PointToRay(o, v, p)), F, tol, "project-line", "foot of the perpendicular");
	XYZ end = (O + d * l).xyz(), r(-7, -7, -7);
	bool ok = Projection::PointToLine(o, end, p, r);
	ld slack = 3e-6L + 1e-12L * (1 + sc) / l + 4e-15L * (1 + sc) * (sc + l) / l / l;
	bool in = t > slack && t < 1 - slack, out = t < -slack || t > 1 + slack;
	if (in) ctx.check(ok, "project-segment", strf("refused although the foot is at %.6Lg of a segment of length %.3g", t, l));
	if (out) ctx.check(!ok, "project-segment", strf("accepted although the foot is at %.6Lg", t));
	if (t == 0 || t == 1) if (slack < 3.2e-6L) ctx.check(ok, "project-segment", "the foot is an end of the segment");
	if (ok) nearPt(ctx, V3(r), F, tol + 4e-15L * (1 + sc) * (sc + l) * 3 / l, "project-segment", "foot of the perpendicular");
	XYZ same = o;
	ctx.check(!Projection::PointToLine(o, same, p, r), "project-segment", "a segment of no length");
	// stereographic projection of the sphere resting on z = 0, from its top
	double R = g.logu(0.1, 50), th = g.uni(0.05, 3.14), ph = g.uni(0, 6.28);   // th measured from the top
	V3 S(R * sinl(th) * cosl(ph), R * sinl(th) * sinl(ph), R + R * cosl(th)), N(0, 0, 2 * (ld)R);
	V3 Q(Projection::Stereographic(S.xyz(), R));
	ctx.near(Q.z, 0, 0, "stereographic", "in the plane");
	ctx.near((Q - N).cross(S - N).len() / (S - N).len(), 0, 1e-11L * (1 + (Q - N).len()), "stereographic", "on the line through the top and the point");
}
static std::vector<XYZ> cloud(Ctx& ctx, double& sc)
{
	Rng& g = ctx.rng;
	int n = g.chance(0.1) ? g.irange(1, 3) : g.irange(4, 160), k = g.irange(0, 5);
	sc = g.logu(1e-3, 1e3);
	XYZ o = genPoint(g, g.chance(0.5) ? 0 : sc * 10);
	std::vector<XYZ> p;
	for (int i = 0; i < n; i++)
	{
		XYZ q = genPoint(g, sc);
		if (k == 1) q = XYZ(g.irange(-4, 4), g.irange(-4, 4), g.irange(-4, 4)) * sc;
		if (k == 2) q = XYZ(q[0], 0, 0);
		if (k == 3) q = XYZ(q[0], q[1], 0);
		if (k == 4 && i && g.chance(0.5)) q = p[g.irange(0, i - 1)] - o;   // repeated points
		if (k == 5 && i && g.chance(0.7)) q = p[g.irange(0, i - 1)] - o + genPoint(g, sc * 0.01);   // clusters
		p.push_back(o + q);
	}
	ctx.bucket("cloud", k); ctx.bucket("points", n / 20); ctx.bucket("size", (int)floor(log10(sc)));
	ctx.dump("points", p);
	return p;
}
static void invariants(Ctx& ctx, Octant* o, const std::vector<XYZ>& p, double sc, std::vector<int>& seen, int leaf, double me, int depth)
{
	ctx.check(depth < 1200, "octree-invariant", "depth");
	ld slack = 1e-5L * (1 + sc * 20) + 1e-12L;
	for (int i : o->PointIndices) for (int d = 0; d < 3; d++) ctx.check(fabsl((ld)p[i][d] - o->Center[d]) <= o->Extent + slack, "octree-invariant", "a point outside the octant that holds it");
	if (o->IsLeaf)
	{
		ctx.check((int)o->PointIndices.size() <= leaf || o->Extent <= me, "octree-invariant", strf("leaf of %zu points", o->PointIndices.size()));
		for (int i : o->PointIndices) seen[i]++;
		return;
	}
	size_t sum = 0;
	for (Octant* c : o->Children) if (c) { sum += c->PointIndices.size(); ctx.near(c->Extent, o->Extent / 2, 1e-12L * o->Extent, "octree-invariant", "extent of a child"); invariants(ctx, c, p, sc, seen, leaf, me, depth + 1); }
	ctx.check(sum == o->PointIndices.size(), "octree-invariant", "points lost between a node and its children");
}
SCENARIO(octree, 3)
{
	Rng& g = ctx.rng;
	double sc;
	auto p = cloud(ctx, sc);
	int leaf = g.irange(1, 8);
	double me = sc * g.logu(1e-5, 0.2);
	std::unique_ptr<Octant> root(OctreeConstruction(p, leaf, me));
	ctx.note(strf("leaf size %d min extent %.17g", leaf, me));
	ctx.check(root != nullptr, "octree-invariant", "no tree");
	std::vector<int> seen(p.size(), 0);
	invariants(ctx, root.get(), p, sc, seen, leaf, me, 0);
	for (int s : seen) ctx.check(s == 1, "octree-invariant", "every point is in exactly one leaf");
	double big = 0;
	for (auto& q : p) for (int d = 0; d < 3; d++) big = std::max(big, fabs(q[d]));
	for (int rep = 0; rep < 4; rep++)
	{
		XYZ q = g.chance(0.4) ? p[g.irange(0, p.size() - 1)] + genPoint(g, sc * g.logu(1e-3, 1)) : g.chance(0.5) ? p[g.irange(0, p.size() - 1)] : genPoint(g, sc * 3);
		ctx.dump("query", q);
		std::vector<ld> d;
		for (auto& x : p) d.push_back(dist(V3(x), V3(q)));
		std::sort(d.begin(), d.end());
		ld tol = 4e-6L * (1 + big) ;
		double r = g.chance(0.3) ? sc * g.logu(1e-3, 3) : (double)d[g.irange(0, d.size() - 1)] * g.uni(0.9, 1.1);
		int lo = 0, hi = 0;
		for (ld x : d) { if (x < r - tol) lo++; if (x <= r + tol) hi++; }
		ctx.note(strf("radius %.17g", r));
		RadiusNnResultSet a(r), b(r);
		OctreeRadiusSearch(root.get(), p, a, q);
		OctreeRadiusSearchFast(root.get(), p, b, q);
		ctx.check(a.Size() >= lo && a.Size() <= hi, "radius-search", strf("%d points found within %.9g, there are %d to %d", a.Size(), r, lo, hi));
		ctx.check(b.Size() >= lo && b.Size() <= hi, "radius-search-fast", strf("%d points found within %.9g, there are %d to %d", b.Size(), r, lo, hi));
		int k = g.irange(1, 9);
		KnnResultSet s(k);
		OctreeKnnSearch(root.get(), p, s, q);
		int want = std::min<int>(k, p.size());
		ctx.check(s.Size() == want && s.Full() == (want == k), "knn-search", strf("%d neighbours of %d", s.Size(), want));
		if (want == k) ctx.near(s.WorstDist(), d[k - 1], tol, "knn-search", strf("distance of neighbour %d", k).c_str());
	}
}
SCENARIO(octree_lattice, 1)
{
	// whole-number points: distances repeat, and points at exactly the radius are within it
	Rng& g = ctx.rng;
	int n = g.irange(2, 160), span = g.irange(1, 6);
	std::vector<XYZ> p;
	for (int i = 0; i < n; i++) p.push_back(XYZ(g.irange(-span, span), g.irange(-span, span), g.chance(0.2) ? 0 : g.irange(-span, span)));
	ctx.dump("points", p);
	int leaf = g.irange(1, 6);
	std::unique_ptr<Octant> root(OctreeConstruction(p, leaf, g.logu(1e-3, 1)));
	for (int rep = 0; rep < 4; rep++)
	{
		XYZ q(g.irange(-span - 2, span + 2), g.irange(-span - 2, span + 2), g.irange(-span - 2, span + 2));
		std::vector<int> d2;
		for (auto& x : p) { int s = 0; for (int k = 0; k < 3; k++) s += (int)((x[k] - q[k]) * (x[k] - q[k])); d2.push_back(s); }
		int r2 = g.chance(0.7) ? d2[g.irange(0, n - 1)] : g.irange(0, 3 * span * span);
		double r = std::sqrt((double)r2);
		ctx.dump("query", q); ctx.note(strf("squared radius %d", r2));
		std::vector<int> want;
		for (int i = 0; i < n; i++) if (d2[i] <= r2) want.push_back(i);
		for (int fast = 0; fast < 2; fast++)
		{
			RadiusNnResultSet a(r);
			if (fast) OctreeRadiusSearchFast(root.get(), p, a, q);
			else OctreeRadiusSearch(root.get(), p, a, q);
			ctx.check(a.Size() == (int)want.size(), fast ? "radius-search-fast" : "radius-search", strf("%d lattice points found within sqrt(%d), there are %zu", a.Size(), r2, want.size()));
		}
		std::vector<int> s2 = d2;
		std::sort(s2.begin(), s2.end());
		int k = g.irange(1, std::min(n, 9));
		KnnResultSet s(k);
		OctreeKnnSearch(root.get(), p, s, q);
		ctx.check(s.Size() == k, "knn-search", strf("%d neighbours of %d", s.Size(), k));
		ctx.near(s.WorstDist(), sqrtl((ld)s2[k - 1]), 1e-12L * (1 + span), "knn-search", "distance to a lattice point");
	}
}
#include "main.inc"
