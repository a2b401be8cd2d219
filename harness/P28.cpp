// P28: triangulations lie on the surface and cover it once
#include "surf.hpp"
#include "Voronoi.h"
#include <set>
using namespace H;

typedef std::pair<double, double> P2;
static double cr(const P2& o, const P2& a, const P2& b) { return (a.first - o.first) * (b.second - o.second) - (a.second - o.second) * (b.first - o.first); }
static double hullArea(std::vector<P2> p, size_t* corners = nullptr)
{
	std::sort(p.begin(), p.end());
	std::vector<P2> h;
	for (int pass = 0; pass < 2; pass++)
	{
		size_t s = h.size();
		for (auto& q : p) { while (h.size() >= s + 2 && cr(h[h.size() - 2], h.back(), q) <= 0) h.pop_back(); h.push_back(q); }
		h.pop_back();
		std::reverse(p.begin(), p.end());
	}
	double A = 0;
	for (size_t i = 0; i < h.size(); i++) A += cr(h[0], h[i], h[(i + 1) % h.size()]) / 2;
	if (corners) *corners = h.size();
	return A;
}
// a triangle mesh in the plane: proper triangles, every edge in one or two of them, on opposite sides, total area as wanted
static void planarMesh(Ctx& ctx, const std::vector<P2>& p, const std::vector<std::vector<int>>& faces, double want, double tol, double sliver, const char* monitor)
{
	std::map<std::pair<int, int>, std::vector<int>> edges;
	double area = 0;
	for (size_t f = 0; f < faces.size(); f++)
	{
		auto& t = faces[f];
		ctx.check(t.size() == 3, monitor, strf("face %zu has %zu corners", f, t.size()));
		for (int v : t) ctx.check(v >= 0 && v < (int)p.size(), monitor, strf("face %zu names vertex %d of %zu", f, v, p.size()));
		ctx.check(t[0] != t[1] && t[1] != t[2] && t[0] != t[2], monitor, strf("face %zu repeats a vertex", f));
		double a = cr(p[t[0]], p[t[1]], p[t[2]]) / 2;
		area += fabs(a);
		if (fabs(a) > sliver) for (int k = 0; k < 3; k++)
		{
			int x = t[k], y = t[(k + 1) % 3], z = t[(k + 2) % 3];
			edges[{ std::min(x, y), std::max(x, y) }].push_back(z);
		}
	}
	for (auto& e : edges)
	{
		ctx.check(e.second.size() <= 2, monitor, strf("edge %d-%d belongs to %zu triangles", e.first.first, e.first.second, e.second.size()));
		if (e.second.size() == 2)
		{
			double s0 = cr(p[e.first.first], p[e.first.second], p[e.second[0]]), s1 = cr(p[e.first.first], p[e.first.second], p[e.second[1]]);
			ctx.check((s0 < 0) != (s1 < 0), monitor, strf("the triangles at edge %d-%d overlap", e.first.first, e.first.second));
		}
	}
	ctx.near(area, want, tol, monitor, "area covered");
}

// x = u, y = v exactly, any height
static LN_NurbsSurface heightField(Ctx& ctx, double& W, double& Hh)
{
	Rng& g = ctx.rng;
	LN_NurbsSurface s;
	s.DegreeU = g.irange(1, 4); s.DegreeV = g.irange(1, 4);
	KnotOpt o;
	o.maxInterior = 3; o.simpleDomain = true;
	s.KnotVectorU = genKnots(g, s.DegreeU, o);
	s.KnotVectorV = genKnots(g, s.DegreeV, o);
	int n = (int)s.KnotVectorU.size() - s.DegreeU - 1, m = (int)s.KnotVectorV.size() - s.DegreeV - 1;
	W = hiU(s) - loU(s); Hh = hiV(s) - loV(s);
	double bump = g.chance(0.2) ? 0 : g.logu(0.01, 1) * (W + Hh);
	s.ControlPoints.resize(n);
	for (int i = 0; i < n; i++) for (int j = 0; j < m; j++)
	{
		double x = 0, y = 0;
		for (int k = 1; k <= s.DegreeU; k++) x += s.KnotVectorU[i + k];
		for (int k = 1; k <= s.DegreeV; k++) y += s.KnotVectorV[j + k];
		s.ControlPoints[i].push_back(XYZW(XYZ(x / s.DegreeU, y / s.DegreeV, g.uni(-bump, bump)), 1));
	}
	ctx.dump("surface", s);
	ctx.cls(strf("field %d %d %dx%d %s", s.DegreeU, s.DegreeV, n, m, bump ? "bumpy" : "flat"));
	return s;
}

SCENARIO(grid, 4)
{
	Rng& g = ctx.rng;
	SurfOpt o;
	o.maxP = 4; o.maxWeightMode = 1; o.maxInteriorU = 3; o.maxInteriorV = 3;
	LN_NurbsSurface s = genSurface(ctx, o), s0 = s;
	int a = g.irange(2, 9), b = g.irange(2, 9);
	ctx.note(strf("resolution %d x %d", a, b));
	ctx.cls(strf("grid %d %d", a, b));
	LN_Mesh m = NurbsSurface::Triangulate(s, a, b, false);
	ctx.check(identicalS(s, s0), "input-untouched", "surface modified");
	ctx.check((int)m.Vertices.size() == a * b && m.UVs.size() == m.Vertices.size(), "grid-size", strf("%zu vertices, %zu parameters for %d x %d", m.Vertices.size(), m.UVs.size(), a, b));
	ctx.check((int)m.Faces.size() == 2 * (a - 1) * (b - 1) && m.UVIndices.size() == 3 * m.Faces.size(), "grid-size", strf("%zu faces, %zu parameter indices", m.Faces.size(), m.UVIndices.size()));
	std::vector<P2> p;
	ld tol = surfTol(s) * 10;
	double slackU = 1e-9 * (fabs(loU(s)) + fabs(hiU(s))), slackV = 1e-9 * (fabs(loV(s)) + fabs(hiV(s)));
	double box[4] = { 1e300, -1e300, 1e300, -1e300 };
	for (size_t i = 0; i < m.Vertices.size(); i++)
	{
		double u = m.UVs[i].GetU(), v = m.UVs[i].GetV();
		ctx.check(u >= loU(s) - slackU && u <= hiU(s) + slackU && v >= loV(s) - slackV && v <= hiV(s) + slackV, "grid-domain", strf("vertex %zu at (%.12g,%.12g)", i, u, v));
		p.push_back({ (u - loU(s)) / (hiU(s) - loU(s)), (v - loV(s)) / (hiV(s) - loV(s)) });
		box[0] = std::min(box[0], p.back().first); box[1] = std::max(box[1], p.back().first);
		box[2] = std::min(box[2], p.back().second); box[3] = std::max(box[3], p.back().second);
		// at a knot of full multiplicity a surface may jump within rounding: compare away from them
		bool jump = false;
		for (auto& q : groups(s.KnotVectorU)) if (fabs(q.first - u) < 1e-7 && q.second > s.DegreeU && u > loU(s) + slackU && u < hiU(s) - slackU) jump = true;
		for (auto& q : groups(s.KnotVectorV)) if (fabs(q.first - v) < 1e-7 && q.second > s.DegreeV && v > loV(s) + slackV && v < hiV(s) - slackV) jump = true;
		ld uu = std::min((ld)hiU(s), std::max((ld)loU(s), (ld)u)), vv = std::min((ld)hiV(s), std::max((ld)loV(s), (ld)v));
		if (!jump) nearPt(ctx, V3(m.Vertices[i]), refPoint(s, uu, vv), tol, "grid-on-surface", strf("vertex %zu (%.9g,%.9g)", i, u, v));
	}
	ctx.check(fabs(box[0]) + fabs(box[1] - 1) + fabs(box[2]) + fabs(box[3] - 1) < 1e-9, "grid-covers", "the mesh stops short of the domain");
	for (size_t f = 0; f < m.Faces.size(); f++) for (int k = 0; k < 3; k++) ctx.check(m.UVIndices[3 * f + k] == m.Faces[f][k], "grid-indices", strf("face %zu: vertex %d has parameter %d", f, m.Faces[f][k], m.UVIndices[3 * f + k]));
	planarMesh(ctx, p, m.Faces, 1, 1e-9, 0, "grid-mesh");
	int sign = 0;
	for (auto& t : m.Faces)
	{
		double c = cr(p[t[0]], p[t[1]], p[t[2]]);
		ctx.check(c != 0 && (sign == 0 || (c > 0) == (sign > 0)), "grid-orientation", "faces of opposite orientation");
		sign = c > 0 ? 1 : -1;
	}
}
SCENARIO(delaunay, 2)
{
	Rng& g = ctx.rng;
	double W, Hh;
	LN_NurbsSurface s = heightField(ctx, W, Hh), s0 = s;
	int a = g.irange(2, 9), b = g.irange(2, 9);
	ctx.note(strf("resolution %d x %d", a, b));
	ctx.cls(strf("delaunay %d %d", a, b));
	LN_Mesh m = NurbsSurface::Triangulate(s, a, b, true);
	ctx.check(identicalS(s, s0), "input-untouched", "surface modified");
	std::vector<P2> p;
	ld tol = surfTol(s) * 10;
	for (size_t i = 0; i < m.Vertices.size(); i++)
	{
		double u = m.Vertices[i].GetX(), v = m.Vertices[i].GetY();
		ctx.check(u >= loU(s) - 1e-9 * W && u <= hiU(s) + 1e-9 * W && v >= loV(s) - 1e-9 * Hh && v <= hiV(s) + 1e-9 * Hh, "delaunay-domain", strf("vertex %zu at (%.12g,%.12g)", i, u, v));
		u = std::min(hiU(s), std::max(loU(s), u)); v = std::min(hiV(s), std::max(loV(s), v));
		bool jump = false;
		for (auto& q : groups(s.KnotVectorU)) if (fabs(q.first - u) < 1e-7 * (1 + fabs(u)) && q.second >= s.DegreeU && u > loU(s) && u < hiU(s)) jump = true;
		for (auto& q : groups(s.KnotVectorV)) if (fabs(q.first - v) < 1e-7 * (1 + fabs(v)) && q.second >= s.DegreeV && v > loV(s) && v < hiV(s)) jump = true;
		if (!jump) nearPt(ctx, V3(m.Vertices[i]), refPoint(s, u, v), tol * 100, "delaunay-on-surface", strf("vertex %zu", i));
		p.push_back({ (u - loU(s)) / W, (v - loV(s)) / Hh });
	}
	planarMesh(ctx, p, m.Faces, 1, 1e-4, 1e-6, "delaunay-mesh");
	LN_Mesh again = NurbsSurface::Triangulate(s, a, b, true);
	bool same = again.Faces == m.Faces && again.Vertices.size() == m.Vertices.size();
	for (size_t i = 0; same && i < m.Vertices.size(); i++) same = again.Vertices[i].Distance(m.Vertices[i]) == 0;
	ctx.check(same, "delaunay-repeatable", "the same call gives another mesh");
}
SCENARIO(delaunay_closed, 1)
{
	// full revolutions: the parameters cannot be read off the vertices, the surface area can
	Rng& g = ctx.rng;
	double r = g.logu(0.5, 50), h = r * g.logu(0.3, 3);
	LN_NurbsSurface s;
	NurbsSurface::CreateCylindricalSurface(genPoint(g, 10), XYZ(1, 0, 0), XYZ(0, 1, 0), 0, 2 * Constants::Pi, r, h, s);
	if (g.chance(0.5)) { LN_NurbsSurface t; NurbsSurface::Swap(s, t); s = t; }
	ctx.dump("surface", s);
	int a = g.irange(12, 20), b = g.irange(12, 20);
	ctx.cls(strf("cylinder %d %d", a, b));
	LN_Mesh m = NurbsSurface::Triangulate(s, a, b, true);
	ld area = 0;
	for (auto& t : m.Faces)
	{
		for (int v : t) ctx.check(v >= 0 && v < (int)m.Vertices.size(), "delaunay-mesh", "vertex index out of range");
		area += (V3(m.Vertices[t[1]]) - V3(m.Vertices[t[0]])).cross(V3(m.Vertices[t[2]]) - V3(m.Vertices[t[0]])).len() / 2;
	}
	ctx.near(area, 2 * M_PIl * r * h, 0.3L * 2 * M_PIl * r * h, "delaunay-closed-area", "area of the mesh");
}
SCENARIO(voronoi, 3)
{
	Rng& g = ctx.rng;
	int n = g.irange(4, g.chance(0.7) ? 30 : 200);
	double sc = g.logu(0.1, 1000), asp = g.logu(0.2, 5), ox = g.chance(0.5) ? 0 : g.uni(-5, 5) * sc, oy = g.chance(0.5) ? 0 : g.uni(-5, 5) * sc;
	std::vector<float> x, y;
	std::vector<P2> p;
	while ((int)x.size() < n)
	{
		float a = (float)(ox + g.uni(0, sc)), b = (float)(oy + g.uni(0, sc * asp));
		bool close = false;
		for (auto& q : p) if (hypot(q.first - a, q.second - b) < 1e-3 * sc) close = true;
		if (close) continue;
		x.push_back(a); y.push_back(b); p.push_back({ a, b });
	}
	ctx.bucket("sites", n < 10 ? "<10" : n < 50 ? "<50" : ">=50");
	ctx.note(strf("%d sites, scale %.9g x %.9g at (%.9g,%.9g)", n, sc, sc * asp, ox, oy));
	std::string d;
	for (auto& q : p) d += strf("{%.9g,%.9g}, ", q.first, q.second);
	ctx.note(d);
	VoronoiDiagramGenerator v;
	v.setGenerateDelaunay(true);
	if (g.chance(0.3)) // a generator that has been used before
	{
		float a[5] = { 0, 3, 1, 4, 2 }, b[5] = { 0, 1, 3, 4, 1.5f };
		v.generateVoronoi(a, b, g.irange(3, 5), 0, 5, 0, 5, 0);
		ctx.cls("used generator");
	}
	bool ok = v.generateVoronoi(x.data(), y.data(), n, ox, ox + sc, oy, oy + sc * asp, 0);
	ctx.check(ok, "voronoi-made", "refused");
	auto T = v.getTriangles();
	size_t h;
	double H = hullArea(p, &h);
	planarMesh(ctx, p, T, H, 1e-2 * H, 1e-4 * H, "voronoi-mesh");
	ctx.check(T.size() <= 2 * n - 2 - h, "voronoi-count", strf("%zu triangles of %d points with %zu on the hull", T.size(), n, h));
	// no site well inside the circle through the corners of a triangle
	for (auto& t : T)
	{
		P2 a = p[t[0]], b = p[t[1]], c = p[t[2]];
		double D = 2 * cr(a, b, c);
		if (fabs(D) < 1e-3 * sc * sc) continue;
		double bx = b.first - a.first, by = b.second - a.second, cx = c.first - a.first, cy = c.second - a.second;
		double ux = (cy * (bx * bx + by * by) - by * (cx * cx + cy * cy)) / D, uy = (bx * (cx * cx + cy * cy) - cx * (bx * bx + by * by)) / D, R = hypot(ux, uy);
		for (int i = 0; i < n; i++) if (i != t[0] && i != t[1] && i != t[2])
			ctx.check(hypot(p[i].first - a.first - ux, p[i].second - a.second - uy) > R * (1 - 1e-3), "voronoi-empty-circle", strf("site %d lies inside the circle of triangle %d %d %d", i, t[0], t[1], t[2]));
	}
	// every edge of the triangulation is reported once as a Delaunay edge
	v.resetDelaunayEdgesIterator();
	float x1, y1, x2, y2;
	std::map<std::pair<P2, P2>, int> got;
	while (v.getNextDelaunay(x1, y1, x2, y2))
	{
		P2 a{ x1, y1 }, b{ x2, y2 };
		if (b < a) std::swap(a, b);
		got[{ a, b }]++;
	}
	for (auto& t : T) for (int k = 0; k < 3; k++)
	{
		P2 a = p[t[k]], b = p[t[(k + 1) % 3]];
		if (b < a) std::swap(a, b);
		ctx.check(got.count({ a, b }) == 1, "voronoi-delaunay-edges", strf("edge %d-%d is not reported", t[k], t[(k + 1) % 3]));
	}
}
extern "C" size_t __sanitizer_get_current_allocated_bytes();
SCENARIO(memory, 1)
{
	// a triangulation hands back everything it allocated
	Rng& g = ctx.rng;
	double W, Hh;
	LN_NurbsSurface s = heightField(ctx, W, Hh);
	bool direct = g.chance(0.3), delaunay = g.chance(0.8);
	int a = g.irange(3, 8), b = g.irange(3, 8), n = g.irange(4, 60);
	std::vector<float> x, y;
	for (int i = 0; i < n; i++) { x.push_back((float)g.uni(0, 10)); y.push_back((float)g.uni(0, 10)); }
	auto once = [&]
	{
		if (direct)
		{
			VoronoiDiagramGenerator v;
			v.setGenerateDelaunay(delaunay);
			v.generateVoronoi(x.data(), y.data(), n, 0, 10, 0, 10, 0);
		}
		else NurbsSurface::Triangulate(s, a, b, delaunay);
	};
	ctx.cls(strf("memory %d %d", (int)direct, (int)delaunay));
	once();
	size_t before = __sanitizer_get_current_allocated_bytes();
	for (int i = 0; i < 4; i++) once();
	size_t after = __sanitizer_get_current_allocated_bytes();
	ctx.check(after == before, "memory-returned", strf("%zd bytes kept after four more calls", (ssize_t)(after - before)));
}
#include "main.inc"
